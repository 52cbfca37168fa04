"""Stand-ins for the programs a forecast launches (job programs, final results, batch system), on PATH.

Each logs what it was asked to do in one events file, so that the order of everything a forecast does is recorded.
"""
import os
import time
from pathlib import Path

JOB = r'''#!/bin/sh
D="{d}"
name=${0##*/}; wd=""; rd=""; cfg=""; pos=""
all="$*"
while [ $# -gt 0 ]; do case "$1" in
  --workdir|-wd) wd=$2; shift 2;; --rundir|-rd) rd=$2; shift 2;; --main_config|-mcfg) cfg=$2; shift 2;;
  -*) shift 2;; *) pos="$pos $1"; shift;; esac; done
pos=${pos# }
echo "job|$name|$wd|$PWD|$rd|$cfg|$pos" >> "$D/events"
if [ -f "$D/on_job" ]; then . "$D/on_job"; fi
[ "$name" = compute_fisher_matrix ] && mkdir -p "$rd/base_fishers"
while IFS='|' read -r n key out; do
  if [ "$n" = "$name" ]; then
    case "$name" in compute_fisher_matrix) mine="$pos";; *) mine="${wd##*/}";; esac
    if [ "$key" = "$mine" ]; then
      case "$out" in
        err) echo "Traceback (most recent call last): boom" >&2; exit 1;;
        silent) exit 3;;
        slow) echo "some output";;
      esac
    fi
  fi
done < "$D/plan"
exit 0
'''
RES = r'''#!/bin/sh
echo "res|$*" >> "{d}/events"
exit 0
'''
BSUB = r'''#!/bin/sh
D="{d}"
while [ $# -gt 0 ]; do case "$1" in -R*) shift;; -*) shift 2;; *) break;; esac; done
read -r id < "$D/nextid"; echo $((id+1)) > "$D/nextid"
n=0; while read -r delay; do n=$((n+1)); [ $n = $((id % 50 + 1)) ] && break; done < "$D/delays"
echo "$delay" > "$D/jobs/$id.delay"; echo PEND > "$D/jobs/$id.stat"; echo "$*" > "$D/jobs/$id.cmd"
echo "send|$id|$*" >> "$D/events"
echo "Job <$id> is submitted to queue <medium>."
'''
BJOBS = r'''#!/bin/sh
D="{d}"
ids=""
for a in "$@"; do case "$a" in [0-9]*) ids="$ids $a";; esac; done
[ -n "$ids" ] || for f in "$D"/jobs/*.stat; do i=${f##*/}; i=${i%.stat}; read -r s < "$f"; case "$s" in DONE|EXIT) ;; *) ids="$ids $i";; esac; done
echo "JOBID   USER    STAT  QUEUE      FROM_HOST   EXEC_HOST   JOB_NAME   SUBMIT_TIME"
for i in $ids; do
  read -r s < "$D/jobs/$i.stat" || continue
  case "$s" in DONE|EXIT) ;; *)
    read -r d < "$D/jobs/$i.delay"
    if [ "$d" -le 0 ]; then
      read -r cmd < "$D/jobs/$i.cmd"
      if sh -c "$cmd" > /dev/null 2>&1; then s=DONE; else s=EXIT; fi
      echo "over|$i|$s" >> "$D/events"
    else s=RUN; echo $((d-1)) > "$D/jobs/$i.delay"; fi
    echo $s > "$D/jobs/$i.stat";; esac
  echo "$i     rossi   $s  medium     lxplus7     c7-node01.x   job_$i-1  Jun 12 10:11"
done
'''
PROGRAMS = {"compute_pmm": "PowerSpectrum", "compute_cls": "Angular", "compute_derivatives": "Derivative",
            "compute_fisher_matrix": "Fisher"}


class Hang(BaseException):
    pass


class FakePipe:
    def __init__(self, d):
        self.d = Path(d)
        self.bin = self.d / "bin"
        self.bin.mkdir(parents=True)
        (self.d / "jobs").mkdir()
        for n in PROGRAMS:
            self._put(n, JOB)
        self._put("evaluate_final_results", RES)
        self._put("bsub", BSUB)
        self._put("bjobs", BJOBS)
        self.reset()

    def _put(self, n, t):
        (self.bin / n).write_text(t.replace("{d}", str(self.d)))
        (self.bin / n).chmod(0o755)

    def reset(self, plan=(), delays=()):
        for f in (self.d / "jobs").iterdir():
            f.unlink()
        (self.d / "events").write_text("")
        (self.d / "nextid").write_text("1001\n")
        (self.d / "plan").write_text("".join(f"{n}|{k}|{o}\n" for n, k, o in plan))
        delays = list(delays) or [0]
        (self.d / "delays").write_text("".join(f"{delays[i % len(delays)]}\n" for i in range(50)))
        self.clock = 0.

    def log(self, s):
        with open(self.d / "events", "a") as f:
            f.write(s + "\n")

    def events(self):
        return [l.split("|") for l in (self.d / "events").read_text().splitlines()]

    def sleep(self, s):
        self.clock += s
        if self.clock > 20000:
            raise Hang()

    def __enter__(self):
        self.saved = time.sleep, os.environ["PATH"], os.environ.pop("VIRTUAL_ENV", None)
        time.sleep = self.sleep
        os.environ["PATH"] = f"{self.bin}:{self.saved[1]}"
        return self

    def __exit__(self, *a):
        time.sleep, os.environ["PATH"] = self.saved[:2]
        if self.saved[2] is not None:
            os.environ["VIRTUAL_ENV"] = self.saved[2]
        return False
