"""Engine: enumerates every word of a scenario, runs the implementation and the reference model in lock step.

A scenario is (cfg, alphabet, depth) or (cfg, explicit list of words).  For every word a fresh System is built
(implementation objects and model together) and fed letter by letter; System.step(letter) applies the letter to both and
compares.  Nothing is sampled, nothing depends on VERIF_SEED.
"""
import gc
import hashlib
import itertools
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

REPO = os.environ.get("ESTRADE_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

real_collect = gc.collect
CASE_TIMEOUT = 30  # seconds for one history (they take milliseconds)
WORKERS = int(os.environ.get("MC_WORKERS", "0")) or min(8, os.cpu_count() or 1)


class Mismatch(Exception):
    """The implementation disagrees with the reference model."""


class HistoryTimeout(BaseException):
    pass


class Scen:
    def __init__(self, name, cfg, letters=None, depth=None, words=None, system=None, timeout=CASE_TIMEOUT):
        self.name, self.cfg, self.letters, self.depth = name, cfg, letters, depth
        self.words = words  # explicit list of words (lists of letters)
        self.system = system
        self.timeout = timeout
        self.looks = (1,)  # strides of comparisons, see run_word; 0: at the end only

    def tasks(self):
        """Split into chunks, simplest words first inside each chunk."""
        if self.words is not None:
            n = max(1, min(200, len(self.words) // 64 or len(self.words)))
            return [("w", i, n) for i in range(min(n, len(self.words)))]
        base, cut = len(self.letters), 0
        while cut < self.depth - 1 and base ** cut < 64:
            cut += 1
        return [("p", p, None) for p in itertools.product(range(base), repeat=cut)]

    def iterate(self, task):
        kind, a, b = task
        if kind == "w":
            for i in range(a, len(self.words), b):
                yield self.words[i]
        else:
            for tail in itertools.product(range(len(self.letters)), repeat=self.depth - len(a)):
                yield [self.letters[i] for i in a + tail]


def pumped(letters, max_len, total, lead=()):
    """All words u of length <= max_len over the letters, repeated up to `total` letters, after `lead`."""
    out = []
    for n in range(1, max_len + 1):
        for u in itertools.product(letters, repeat=n):
            if n > 1 and len(set(map(json.dumps, u))) == 1:
                continue  # a power of a shorter word
            out.append(list(lead) + list(itertools.islice(itertools.cycle(u), total)))
    return out


def _alarm(signum, frame):
    raise HistoryTimeout()


def look_only(system, due):
    """Compare (and thereby read the implementation) only when due."""
    compare = system.compare
    system.compare = lambda *a, **k: compare(*a, **k) if due() else None


def run_word(scen, word, states=None, verbose=False, stride=1):
    """Run one history. Returns (steps executed, None) or (index of failing step, message).

    stride n: compare after every n-th event only, counted from the last one, and read nothing in between; 0: at the end only."""
    signal.setitimer(signal.ITIMER_REAL, scen.timeout)
    step = -1
    system = None
    try:
        try:
            system = scen.system(scen.cfg)
            if stride != 1:
                look_only(system, lambda: step + 1 >= len(word) or stride and (len(word) - 1 - step) % stride == 0)
            for step, letter in enumerate(word):
                system.step(letter)
                if states is not None:
                    states.add(hash((scen.name, system.key())))
                if verbose:
                    print("   ", step, json.dumps(letter, default=str), "ok")
            system.end()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            if system is not None:
                system.cleanup()
        return step + 1, None
    except Mismatch as e:
        return step, str(e)
    except HistoryTimeout:
        return step, f"no answer within {scen.timeout} s (endless loop?)"
    except MemoryError:
        return step, "memory exhausted"
    except Exception:
        return step, "unexpected exception: " + traceback.format_exc(limit=-6)


class System:
    def __init__(self, cfg):
        self.cfg = cfg

    def step(self, letter):
        raise NotImplementedError

    def key(self):
        return None

    def end(self):
        """Called after the last letter (final comparisons)."""

    def cleanup(self):
        pass


_SCENS = None
_KNOWN = None


def _init_worker():
    signal.signal(signal.SIGALRM, _alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
    except Exception:
        pass
    # FrameSet.clean_old_frames runs a full collection for every dropped frame; harmless but 1000 times slower.
    gc.collect = lambda *a, **k: 0


def _run_task(arg):
    si, task = arg
    scen = _SCENS[si]
    states, cases, steps, longest = set(), 0, 0, 0
    bad = None
    sample = None
    for word in scen.iterate(task):
        for stride in scen.looks:
            cases += 1
            n, msg = run_word(scen, word, states if stride == 1 else None, stride=stride)
            if msg is not None:
                break
            steps += n
        if msg is not None:
            bad = dict(scenario=scen.name, cfg=scen.cfg, word=word[: n + 1] if stride == 1 else word, full_word=word, message=msg, stride=stride)
            break
        longest = max(longest, n)
        sample = word
    return si, cases, steps, longest, states, bad, sample


def explore(prop, scens, tier):
    """Run all scenarios; returns the coverage dict and the list of violations."""
    global _SCENS
    _SCENS = scens
    names = [s.name for s in scens]
    assert len(set(names)) == len(names), names
    tasks = [(i, t) for i, s in enumerate(scens) for t in s.tasks()]
    # interleave the scenarios so that cheap violations show up early
    tasks.sort(key=lambda x: hashlib.md5(repr(x).encode()).hexdigest())
    per = {s.name: dict(histories=0, steps=0, longest=0) for s in scens}
    states, violations, samples = set(), [], {}
    ctx = multiprocessing.get_context("fork")
    t0 = time.time()
    with ctx.Pool(WORKERS, initializer=_init_worker) as pool:
        for si, cases, steps, longest, st, bad, sample in pool.imap_unordered(_run_task, tasks):
            p = per[scens[si].name]
            p["histories"] += cases
            p["steps"] += steps
            p["longest"] = max(p["longest"], longest)
            states |= st
            if sample is not None and scens[si].name not in samples:
                samples[scens[si].name] = sample
            if bad:
                violations.append(bad)
                pool.terminate()
                break
    for s in scens:
        if s.letters is not None:
            per[s.name]["alphabet"] = len(s.letters)
            per[s.name]["depth"] = s.depth
            per[s.name]["compared_after_every"] = [n or "end only" for n in s.looks]
    coverage = dict(
        states=len(states),
        transitions=sum(p["steps"] for p in per.values()),
        traces_validated_against_impl=sum(p["histories"] for p in per.values()),
        exhaustive=not violations,
        scenarios=per,
        samples=[dict(scenario=k, history=_short(v)) for k, v in sorted(samples.items())[:6]],
        explore_s=round(time.time() - t0, 1),
    )
    return coverage, violations


def _short(word):
    return word if len(word) <= 12 else list(word[:12]) + [f"... {len(word)} events"]


def write_replay(prop, bad):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = json.dumps(dict(property=prop, **bad), indent=1, default=str)
    path = os.path.join(d, f"{prop}-{hashlib.sha1(body.encode()).hexdigest()[:10]}.json")
    with open(path, "w") as f:
        f.write(body)
    return path
