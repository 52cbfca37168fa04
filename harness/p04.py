"""P04  the batch barrier  (Batch.tla)."""
import copy
import shutil
import tempfile
from pathlib import Path

import vlib
from fakebatch import FakeBatch, Stop
from seyfert.main import bsub_utils
from seyfert.main.bsub_utils import BsubInterface

STS = '{"unlisted", "PEND", "RUN", "SSUSP", "DONE", "EXIT", "gone_done", "gone_exit"}'
INV = ["OverMeansAllSucceeded", "FailureIsReal", "SeenIsTrue"]
LISTED = {"PEND", "RUN", "PSUSP", "USUSP", "SSUSP", "UNKWN", "WAIT", "DONE", "EXIT"}
USERS = ["rossi", "lucap2", "g_paganin", "Verdi", "m.bianchi", "x-1"]


def rows(world, user):
    return [(j, user, s) for j, s in world.items() if s in LISTED]


def wait(fb, ids, worlds, user="rossi", grace=0, **kw):
    """Run the real barrier against the given successive worlds; outcome and number of polls consumed."""
    fb.reset([rows(w, user) for w in worlds], [])
    fb.grace = grace
    with fb:
        try:
            st, v = vlib.call(BsubInterface().waitForJobsToComplete, list(ids), **kw)
        except Stop:
            st, v = "wait", None
    if st == "ok":
        st = "over"
    elif st == "ExitedBatchJobError":
        st = "failed"
    return st, v, fb.polls()


def replay(ck, fb, trans, own):
    for w in vlib.walks(trans, init=[t["pre"] for t in trans if t["lvl"] == 1], max_len=40):
        worlds = [t["act"] for t in w]
        want = w[-1]["post"]["p"]
        ck.s2i += len(w)
        st, v, polls = wait(fb, own, worlds, check_time_resolution_secs=2)
        if st != want or len(polls) != len(worlds):
            ck.violation(f"waiting for {own}: after the listings the specification says '{want}' at poll {len(worlds)}, "
                         f"the code '{st}' ({v}) at poll {len(polls)}", {"worlds": worlds})
            return
    ck.sample({"replayed_listings": [t["act"] for t in w], "verdict": want})


ORDER = ["unlisted", "PEND", "PSUSP", "RUN", "SSUSP", "USUSP", "UNKWN"]


def evolve(rng, s, fail, hurry):
    if s == "DONE":
        return "gone_done" if rng.random() < .2 else s
    if s == "EXIT":
        return "gone_exit" if rng.random() < .1 else s
    if s.startswith("gone"):
        return s
    if rng.random() < hurry:
        return "EXIT" if rng.random() < fail else "DONE"
    k = ORDER.index(s)
    if k < 3:
        return rng.choice(ORDER[k:] if rng.random() < .7 else [s])
    return rng.choice(["RUN", "SSUSP", "USUSP", "UNKWN", "RUN"])


def record(rng, fb):
    ids = [str(rng.choice([rng.randint(1, 99), rng.randint(100000, 99999999)])) for _ in range(40)]
    ids = list(dict.fromkeys(ids))
    # identifiers that are prefixes of each other
    ids[1] = ids[0] + "1"
    user = rng.choice(USERS)
    foreign, stages = ids[-3:], []
    k = 0
    for _ in range(rng.randint(1, 3)):
        n = rng.randint(1, 5)
        stages.append(ids[k:k + n])
        k += n
    limit_h = rng.choice([3, 3, 1])
    tr = [{"op": "setup", "jobs": [j for s in stages for j in s] + foreign, "limit": limit_h * 3600}]
    world = {j: "unlisted" for s in stages for j in s}
    world.update({j: rng.choice(["RUN", "EXIT", "DONE", "PEND"]) for j in foreign})
    for si, stage in enumerate(stages):
        if si:
            tr.append({"op": "next"})
        b = BsubInterface()
        queue, mem, cores = rng.choice(["medium", "long", "short"]), rng.choice([2048, 3000, 64000]), rng.randint(1, 16)
        b.setOptions(queue=queue, n_cores=cores, memory_MB=mem)
        out_ids = []
        logs = fb.d / "logs"
        answers = []
        plan = []
        for j in stage:
            if rng.random() < .12:
                plan.append(None)
                answers.append({"stdout": rng.choice(["", "Cannot connect to LSF. Please wait ...\n"]),
                                "stderr": "medium: No such queue. Job not submitted.\n", "rc": 255})
            plan.append(j)
            answers.append({"stdout": rng.choice(["", "Memory reservation is (MB): 2048\nJob group <12> used\n"]) +
                            f"Job <{j}> is submitted to queue <{queue}>.\n", "stderr": "", "rc": 0})
        fb.reset([], answers)
        fb.N = 1                     # sleeping during submission is harmless
        with fb:
            for j in plan:
                cmd = rng.choice(["/some/run/job_a.sh", "compute_fisher_matrix A+B+A_B --rundir /some/run"])
                st, v = vlib.call(b.submitJob, cmd_to_execute=cmd, logs_path=logs, silent=True,
                                  separate_err_out_dirs=rng.random() < .5)
                argv = fb.submissions()[-1] if fb.submissions() else []
                opt = {a: argv[i + 1] for i, a in enumerate(argv[:-1]) if a in ("-q", "-M", "-n")}
                n = len(cmd.split())
                tr.append({"op": "submit", "accepted": j is not None, "assigned": j or "", "out": "ok" if st == "ok" else "error",
                           "returned": str(v) if st == "ok" else "",
                           "want": {"queue": queue, "mem": str(mem), "cores": str(cores), "cmd": cmd},
                           "seen": {"queue": opt.get("-q", ""), "mem": opt.get("-M", ""), "cores": opt.get("-n", ""),
                                    "cmd": " ".join(argv[-n:])}})
                if st == "ok":
                    out_ids.append(v)
            if rng.random() < .3:
                n0 = len(fb.submissions())
                vlib.call(b.submitJob, cmd_to_execute="x.sh", logs_path=logs, silent=True, test=True)
                tr.append({"op": "dry", "asked": len(fb.submissions()) - n0})
        shutil.rmtree(logs, ignore_errors=True)
        worlds = []
        fail, hurry = rng.choice([0, 0, .3]), rng.choice([.2, .5])
        for _ in range(rng.choice([4, 8, 12])):
            world = {j: evolve(rng, s, fail, hurry) if j in stage else s for j, s in world.items()}
            worlds.append(world)
        if rng.random() < .25:
            # the table stops moving: only the time limit may end the wait
            worlds = worlds[:rng.randint(1, 3)]
            grace = limit_h * 3600 * 2
        else:
            grace = 0
        tr.append({"op": "wait", "ids": [str(x) for x in out_ids]})
        res = rng.choice([30.0, 600, 1]) if not grace else 900
        kw = dict(check_time_resolution_secs=res, max_time_wait_h=limit_h)
        if limit_h == 3 and rng.random() < .6:
            kw = {} if not grace else {"check_time_resolution_secs": 900}
        st, v, polls = wait(fb, out_ids, worlds, user, grace, **kw)
        last_seen = None
        for i, (n, t, kind) in enumerate(polls):
            then = st if i == len(polls) - 1 else "wait"
            last_seen = worlds[n - 1]
            if then == "over" and t > limit_h * 3600 and not all(_done(worlds[:n], j) for j in stage):
                then = "gaveup"
            tr.append({"op": "poll", "w": last_seen, "then": then, "elapsed": int(t)})
        world = last_seen or world
        if st != "over":
            break
    return tr


def _done(ws, j):
    return any(w[j] == "DONE" for w in ws)


def run(ck):
    tmp = Path(tempfile.mkdtemp(prefix="vp04_"))
    try:
        fb = FakeBatch(tmp)
        own = ["101", "102"]
        cons = {"Patience": "0", "Own": '{"101", "102"}', "Foreign": '{"900"}',
                "Sts": '{"unlisted", "RUN", "DONE", "EXIT", "gone_done", "gone_exit"}'}
        trans = ck.graph("BatchMC", vlib.cfg_text("Spec", cons, INV, ["ReportedFailureStops"], view="View", action_constraints=["Emit"]))
        kinds = {t["post"]["p"] for t in trans}
        if kinds != {"wait", "over", "failed"}:
            raise vlib.MachineryError(f"vacuous barrier model: {kinds}")
        replay(ck, fb, trans, own)
        ck.model("BatchMC", vlib.cfg_text("LiveSpec", {**cons, "Foreign": "{}", "Sts": STS}, INV, ["Released"]), workers=1)
        ck.model("BatchMC", vlib.cfg_text("Spec", {**cons, "Foreign": "{}", "Sts": STS, "Own": '{"1", "2", "3"}', "Patience": ck.budget("0", "4")},
                                          INV, ["ReportedFailureStops"], view="View"), workers=8)
        traces = [record(ck.rng, fb) for _ in range(ck.budget(150, 1500))]
        ck.validate("BatchTrace", traces, constants={"Patience": "0"}, label="batch barrier")
        if not ck.viol:
            t = copy.deepcopy(next(t for t in traces if t[-1]["op"] == "poll" and t[-1]["then"] == "over"
                                   and t[-1]["elapsed"] < 3600))
            for e in t:
                if e["op"] == "poll":
                    e["w"] = {j: "RUN" for j in e["w"]}
            ck.must_reject("BatchTrace", t, "return while jobs run", constants={"Patience": "0"})
        ck.assumptions += ["bjobs/bsub are stand-in executables that answer like LSF's; the clock is simulated",
                           "after the configured maximum waiting time the wait may give up"]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
