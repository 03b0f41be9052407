"""Exploration of every schedule of a scenario within a bound on preemptions or delays.

A scenario's system has execute(prefix) -> system with .s (the finished mc.sched.Scheduler) and outcome()."""
import multiprocessing
import signal
import time

from mc import core, sched
from mc.core import Mismatch


def run_one(scen, prefix):
    """(scheduler, None) or (None, message)."""
    system = scen.system(scen.cfg)
    signal.setitimer(signal.ITIMER_REAL, scen.timeout)
    try:
        s = system.execute(prefix)
        return system, None
    except Mismatch as e:
        return system, str(e)
    except core.HistoryTimeout:
        return system, f"no end within {scen.timeout} s (blocked outside the scheduler?)"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


_SCENS = None


def _task(arg):
    """Explore the whole subtree under a prefix (or, if shallow, just run it)."""
    si, prefix, shallow = arg
    scen = _SCENS[si]
    bound, metric = scen.cfg["bound"], scen.cfg["metric"]
    stack, runs, points, longest, outcomes, todo = [prefix], 0, 0, 0, set(), []
    while stack:
        p = stack.pop()
        system, msg = run_one(scen, p)
        runs += 1
        s = system.s
        points += s.points
        longest = max(longest, s.points)
        if msg:
            bad = dict(scenario=scen.name, cfg=scen.cfg, word=[s.choices], full_word=[s.choices], message=msg)
            return si, runs, points, longest, outcomes, bad, []
        outcomes.add(hash(system.outcome()))
        kids = list(sched.children(p, s.trace, s.choices, bound, metric))
        if shallow:
            todo = kids
        else:
            stack += kids
    return si, runs, points, longest, outcomes, None, todo


def explore(prop, scens, tier, schedules):
    """Histories of letters (core) and, for scenarios of the class `schedules`, all schedules within their bound."""
    cov, violations = core.explore(prop, [s for s in scens if s.system is not schedules], tier)
    if violations:
        return cov, violations
    cov2, violations = explore_schedules([s for s in scens if s.system is schedules])
    for k in ("states", "transitions", "traces_validated_against_impl", "explore_s"):
        cov2[k] += cov[k]
    cov2["schedules"] = sum(p["schedules"] for p in cov2["scenarios"].values())
    cov2["scenarios"].update(cov["scenarios"])
    return cov2, violations


def explore_schedules(scens):
    global _SCENS
    _SCENS = scens
    per = {s.name: dict(schedules=0, steps=0, longest=0, bound=s.cfg["bound"], metric=s.cfg["metric"], outcomes=0) for s in scens}
    outs = {s.name: set() for s in scens}
    violations, t0 = [], time.time()
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(core.WORKERS, initializer=core._init_worker) as pool:
        tasks = [(i, [], True) for i in range(len(scens))]
        for level in range(3):
            nxt = []
            for si, runs, points, longest, outcomes, bad, todo in pool.imap_unordered(_task, tasks):
                p = per[scens[si].name]
                p["schedules"] += runs
                p["steps"] += points
                p["longest"] = max(p["longest"], longest)
                outs[scens[si].name] |= outcomes
                if bad:
                    violations.append(bad)
                    break
                nxt += [(si, k, False) for k in todo]
            if violations or not nxt:
                pool.terminate()
                break
            tasks = nxt
    # a violating schedule must fail again when it is replayed
    for bad in violations:
        scen = next(s for s in scens if s.name == bad["scenario"])
        core._init_worker()
        _, again = run_one(scen, bad["word"][0])
        if not again:
            raise sched.Divergence(f"a schedule failed once only: {bad}")
    for n, o in outs.items():
        per[n]["outcomes"] = len(o)
    cov = dict(states=sum(map(len, outs.values())), transitions=sum(p["steps"] for p in per.values()),
               traces_validated_against_impl=sum(p["schedules"] for p in per.values()), exhaustive=not violations, scenarios=per,
               samples=[dict(scenario=s.name, script=s.cfg["scripts"], requests=s.cfg.get("requests"), schedules=per[s.name]["schedules"]) for s in scens[:6]],
               explore_s=round(time.time() - t0, 1))
    return cov, violations
