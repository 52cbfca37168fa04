"""Rational.tla / FisherAlgebra.tla in Python, only to find out beforehand whether TLC's 32-bit integers suffice."""
from math import gcd

LIM = 2 ** 31 - 1
UNIVERSE = ["h", "w0", "wa", "Omm", "gamma", "mnu", "b1", "b2", "aIA"]


class TooLarge(Exception):
    pass


def ck(x):
    if abs(x) > LIM:
        raise TooLarge
    return x


def norm(n, d):
    if n == 0:
        return (0, 1)
    g = gcd(abs(n), abs(d))
    s = -1 if d < 0 else 1
    return (s * (n // g), s * d // g)


def radd(a, b):
    g = gcd(a[1], b[1])
    x, y = ck(a[0] * (b[1] // g)), ck(b[0] * (a[1] // g))
    return norm(ck(x + y), ck(a[1] * (b[1] // g)))


def rsub(a, b):
    return radd(a, (-b[0], b[1]))


def rmul(a, b):
    x, y = norm(a[0], b[1]), norm(b[0], a[1])
    return norm(ck(x[0] * y[0]), ck(x[1] * y[1]))


def rinv(a):
    if a[0] == 0:
        raise TooLarge
    return norm(a[1], a[0])


def rdiv(a, b):
    return rmul(a, rinv(b))


class F:
    def __init__(self, cosmo, nuis, m):
        self.cosmo, self.nuis, self.m = set(cosmo), set(nuis), m

    @property
    def pars(self):
        return self.cosmo | self.nuis

    def at(self, p, q):
        return self.m.get((p, q), (0, 1))

    def comb(self, o, f):
        ps = self.pars | o.pars
        return F(self.cosmo | o.cosmo, self.nuis | o.nuis, {(p, q): f(self.at(p, q), o.at(p, q)) for p in ps for q in ps})

    def keep(self, ps):
        return F(self.cosmo & ps, self.nuis & ps, {k: v for k, v in self.m.items() if k[0] in ps and k[1] in ps})

    def marg(self, s):
        m, ps = dict(self.m), set(self.pars)
        for b in sorted(s & ps, key=UNIVERSE.index):
            ps.discard(b)
            if m[b, b][0] <= 0:
                raise TooLarge
            m = {(p, q): rsub(m[p, q], rdiv(rmul(m[p, b], m[b, q]), m[b, b])) for p in ps for q in ps}
        return F(self.cosmo - s, self.nuis - s, m)

    def errors(self):
        """raises TooLarge unless positive definite with representable errors"""
        for p in self.cosmo:
            r = self.marg(self.pars - {p}).m[p, p]
            if r[0] <= 0:
                raise TooLarge
            yield p, rinv(r)
        self.marg(set(self.pars))
        if {"w0", "wa"} <= self.pars:
            m = self.marg(self.pars - {"w0", "wa"}).m
            rsub(rmul(m["w0", "w0"], m["wa", "wa"]), rmul(m["w0", "wa"], m["wa", "w0"]))
