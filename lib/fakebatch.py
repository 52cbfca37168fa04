"""A stand-in for the LSF batch system: executables `bsub` and `bjobs` on PATH, driven by files, and a fake clock.

bjobs answers like the real one: with identifiers, it lists the jobs asked for that it knows (and says on stderr which
ones it does not find); without identifiers, the user's unfinished jobs.  The listing moves on only when time moved on.
"""
import os
import time
from pathlib import Path

BJOBS = r'''#!/bin/sh
D="{d}"
ids=""; all=0
for a in "$@"; do case "$a" in -a) all=1;; [0-9]*) ids="$ids $a ";; esac; done
read c < "$D/clock"; read l < "$D/last"; read n < "$D/n"; read N < "$D/N"
if [ "$c" != "$l" ]; then
  echo "$c" > "$D/last"
  if [ "$n" -lt "$N" ]; then n=$((n+1)); echo $n > "$D/n"; echo "poll $n $c" >> "$D/log"; else echo "again $n $c" >> "$D/log"; fi
fi
[ -f "$D/rows_$n" ] || exit 0
head=0; found=" "
while read -r id user stat; do
  show=0
  if [ -n "$ids" ]; then case "$ids" in *" $id "*) show=1;; esac
  else case "$stat" in DONE|EXIT) show=$all;; *) show=1;; esac; fi
  if [ $show = 1 ]; then
    [ $head = 0 ] && echo "JOBID   USER    STAT  QUEUE      FROM_HOST   EXEC_HOST   JOB_NAME   SUBMIT_TIME" && head=1
    echo "$id     $user   $stat  medium     lxplus7     c7-node01.x   job_$id-1  Jun 12 10:11"
    found="$found$id "
  fi
done < "$D/rows_$n"
for i in $ids; do case "$found" in *" $i "*) ;; *) echo "Job <$i> is not found" >&2;; esac; done
exit 0
'''

BSUB = r'''#!/usr/bin/python3 -ES
import sys, json
D = "{d}"
ans = open(D + "/answers").read().split("\n")
k = int(open(D + "/nsub").read())
open(D + "/nsub", "w").write(str(k + 1))
open(D + "/submissions", "a").write(json.dumps(sys.argv[1:]) + "\n")
a = json.loads(ans[k])
sys.stdout.write(a["stdout"]); sys.stderr.write(a["stderr"])
sys.exit(a["rc"])
'''


class Stop(BaseException):
    """No more listings to show: the waiter is still waiting."""


class FakeBatch:
    def __init__(self, d):
        self.d = Path(d)
        self.bin = self.d / "bin"
        self.bin.mkdir(parents=True)
        for n, t in (("bjobs", BJOBS), ("bsub", BSUB)):
            (self.bin / n).write_text(t.replace("{d}", str(self.d)))
            (self.bin / n).chmod(0o755)
        self.clock = 0.
        self.grace = 0
        self.reset([], [])

    def reset(self, listings, answers):
        import json
        for f in self.d.glob("rows_*"):
            f.unlink()
        for i, rows in enumerate(listings):
            (self.d / f"rows_{i + 1}").write_text("".join(f"{j} {u} {s}\n" for j, u, s in rows))
        self.clock = 0.
        self.N = len(listings)
        w = lambda n, t: (self.d / n).write_text(str(t) + "\n")
        w("clock", 0), w("last", 0), w("n", 0), w("N", self.N), w("log", ""), w("nsub", 0)
        (self.d / "log").write_text("")
        (self.d / "submissions").write_text("")
        (self.d / "answers").write_text("\n".join(json.dumps(a) for a in answers))
        self.t_last = None
        for fd in getattr(self, "fds", ()):
            os.close(fd)
        self.fds = (os.open(self.d / "n", os.O_RDONLY), os.open(self.d / "clock", os.O_WRONLY))

    def polls(self):
        return [(int(l.split()[1]), float(l.split()[2]), l.split()[0]) for l in (self.d / "log").read_text().splitlines()]

    def submissions(self):
        import json
        return [json.loads(l) for l in (self.d / "submissions").read_text().splitlines()]

    # -- the clock
    def sleep(self, s):
        n = int(os.pread(self.fds[0], 20, 0) or 0)
        if n >= self.N:
            if self.t_last is None:
                self.t_last = self.clock
            if self.clock - self.t_last >= self.grace:
                raise Stop()
        self.clock += s
        os.pwrite(self.fds[1], f"{self.clock:<12.12g}\n".encode(), 0)

    def __enter__(self):
        self.saved = time.sleep, time.time, time.monotonic, os.environ["PATH"]
        real = time.time()
        time.sleep = self.sleep
        time.time = lambda: real + self.clock
        time.monotonic = lambda: real + self.clock
        os.environ["PATH"] = f"{self.bin}:{self.saved[3]}"
        return self

    def __exit__(self, *a):
        time.sleep, time.time, time.monotonic, os.environ["PATH"] = self.saved
        return False
