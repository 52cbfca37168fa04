"""A stand-in for pandas' HDFStore (pytables is not installed): each table is a group of an h5py file."""
import json

import h5py
import numpy as np
import pandas as pd


class HDFStore:
    def __init__(self, path, mode="a", **kw):
        self.file = h5py.File(path, mode)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def close(self):
        self.file.close()

    def keys(self):
        return ["/" + k for k in self.file]

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.keys())

    def __contains__(self, key):
        return key.strip("/") in self.file

    def put(self, key, df, **kw):
        key = key.strip("/")
        if key in self.file:
            del self.file[key]
        g = self.file.create_group(key)
        g.create_dataset("values", data=df.to_numpy(dtype=float))
        st = h5py.special_dtype(vlen=str)
        for n, ix in (("index", df.index), ("columns", df.columns)):
            if isinstance(ix, pd.MultiIndex):
                g.create_dataset(n, data=json.dumps([list(x) for x in ix]), dtype=st)
            elif ix.dtype == object or ix.dtype.kind not in "if":
                g.create_dataset(n, data=np.array([str(x) for x in ix], dtype=object), dtype=st)
            else:
                g.create_dataset(n, data=ix.to_numpy())

    __setitem__ = put

    def get(self, key):
        g = self.file[key.strip("/")]

        def dec(v):
            if v.shape == ():
                return pd.MultiIndex.from_tuples([tuple(x) for x in json.loads(v.asstr()[()])])
            return [x.decode() if isinstance(x, bytes) else x for x in v[()].tolist()]
        return pd.DataFrame(g["values"][()], index=dec(g["index"]), columns=dec(g["columns"]))

    __getitem__ = get
    select = get


def to_hdf(self, path_or_buf, key=None, mode="a", **kw):
    if isinstance(path_or_buf, HDFStore):
        path_or_buf.put(key, self)
    else:
        with HDFStore(path_or_buf, mode) as s:
            s.put(key, self)


def read_hdf(path_or_buf, key=None, **kw):
    if isinstance(path_or_buf, HDFStore):
        return path_or_buf.get(key)
    with HDFStore(path_or_buf, "r") as s:
        return s.get(key or s.keys()[0])


def install():
    try:
        import tables  # noqa: F401
    except ImportError:
        pd.HDFStore = HDFStore
        pd.DataFrame.to_hdf = to_hdf
        pd.read_hdf = read_hdf
