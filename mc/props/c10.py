import weakref

from mc import ref
from mc.core import Scen, pumped, real_collect
from mc.frames import ALWAYS, FrameSystem, expect

from estrade.graph.base_indicator import BaseIndicator, BaseIndicatorValue

S = 1_000_000
MIN = 60 * S
LOOKS = (1, 2, 0)
RULE = ("every sequence of the alphabet (ticks inside a frame, at the next period, after gaps shorter and longer than the window) to the "
        "stated depth, for window sizes 1-4 and 100 (pumped); number of frames, links, closed flags and every lookup by offset are "
        "compared after every tick; at the end of some histories, which frames and values are still in memory")
ASSUMPTIONS = []
INDS = [dict(ref="all", kind="base"), dict(ref="open", kind="base", gated=True)]

def weak(x):
    try:
        return weakref.ref(x)
    except TypeError:  # cannot be watched
        return lambda: None


SLACK = 3  # frames a frame set may remember besides those it keeps


class Watcher(BaseIndicator):
    """Looks at the frame set whenever it is asked for a value (the oldest frame may still be there)."""

    def __init__(self, ref, gated):
        super().__init__(value_class=BaseIndicatorValue, ref=ref, market_open_only=gated)

    def build_value_from_frame(self, frame, epic_market_open):
        fs = frame.parent_frameset
        expect(len(fs.frames) <= fs.max_frames_in_memory + 1, self.ref, "sees", len(fs.frames), "frames in memory, limit", fs.max_frames_in_memory)
        return super().build_value_from_frame(frame, epic_market_open)


class SYSTEM(FrameSystem):
    """With cfg["released"]: also watches whether the dropped frames and their indicator values are really given up."""

    def __init__(self, cfg):
        super().__init__(cfg)
        self.watched = {}
        if cfg.get("watch"):
            for name, fs in self.sets.items():
                for gated in (False, True):
                    fs.add_indicator(Watcher(f"watcher{gated:d}", gated))

    def other(self, letter):
        op, name, limit = letter
        assert op == "max"
        fs, rfs = self.sets[name], self.rsets[name]
        rfs.set_limit(limit)
        fs.max_frames_in_memory = limit

    def compare(self, final=False):
        if not self.n:
            return
        for name, fs in self.sets.items():
            rfs = self.rsets[name]
            if rfs.counted == len(rfs.frames) and rfs.kept > rfs.limit:
                # the limit was lowered and no frame has been created since: frames may be dropped at once or then
                expect(rfs.limit <= len(fs.frames) <= rfs.kept, name, "keeps", len(fs.frames), "frames")
                rfs.kept = len(fs.frames)
        super().compare(final)
        if self.cfg.get("released"):
            for name, fs in self.sets.items():
                f = fs.frames[-1]
                watched = self.watched.setdefault(name, [])
                if not watched or watched[-1][0]() is not f:
                    watched.append((weak(f), [weak(v) for v in f.indicators.values() if v is not None]))

    def end(self):
        super().end()
        if self.cfg.get("released"):
            real_collect()
            for name, watched in self.watched.items():
                kept = self.rsets[name].limit + SLACK
                frames = sum(1 for f, _ in watched if f() is not None)
                expect(frames <= kept, f"{frames} frames of {name} are still in memory, {self.rsets[name].limit} are kept")
                for k in range(len(self.inds[name])):
                    n = sum(1 for _, vs in watched if k < len(vs) and vs[k]() is not None)
                    expect(n <= kept, f"{n} indicator values of {name} are still in memory")


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    timed = [["next", 1, 0, 101, 103], ["t", S, 99, 101], ["next", 3, 0, 103, 105], ["next", 7, 1, 98, 98]]
    ticks = [["t", S, 101, 103], ["clock", "00:00:00", 0, 99, 101], ["t", 0, 103, 105]]
    for limit in (1, 2, 3, 4):
        for unit, q, letters, depth in (("MINUTE", 1, timed, 6), ("HOUR", 1, timed, 4), ("TICK", 1, ticks, 6), ("TICK", 2, ticks, 7)):
            cfg = dict(sets=[dict(ref="fs", unit=unit, q=q, max=limit, inds=INDS)], base=ref.at("2020-01-06 10:00:30"), tz="UTC",
                       cal=ALWAYS, aspects=["links", "frames"], watch=limit != 3)
            out.append(Scen(f"{unit}-{q}-window-{limit}", cfg, letters, depth + deep, system=SYSTEM))
        # market-hours values: some frames have none
        cfg = dict(sets=[dict(ref="fs", unit="HOUR", q=4, max=limit, inds=INDS)], base=ref.at("2020-01-06 03:00:00"), tz="UTC",
                   cal=dict(), aspects=["links"], watch=True)
        out.append(Scen(f"market-hours-window-{limit}", cfg, [
            ["clock", "09:00:00", 0, 99, 101], ["clock", "10:00:00", 0, 101, 103], ["clock", "18:00:00", 0, 105, 107],
            ["clock", "12:00:00", 1, 98, 98]], 5 + deep, system=SYSTEM))
    # the limit is changed between two ticks
    for unit, q, letters in (("MINUTE", 1, timed), ("TICK", 1, ticks)):
        cfg = dict(sets=[dict(ref="fs", unit=unit, q=q, max=4, inds=INDS)], base=ref.at("2020-01-06 10:00:30"), tz="UTC", cal=ALWAYS,
                   aspects=["links", "frames"], watch=False)
        out.append(Scen(f"limits-{unit}", cfg, letters[:1] + letters[2:] + [["max", "fs", n] for n in (1, 2, 6)], 5 + deep, system=SYSTEM))
        out.append(Scen(f"limits-pumped-{unit}", dict(cfg, sparse=True), words=[a + b for a in pumped(letters, 1, 8) for b in pumped(
            letters[::2] + [["max", "fs", n] for n in (1, 2, 6)], 3, 24)], system=SYSTEM))
    for limit in (None, 99, 101):
        s = dict(ref="fs", unit="MINUTE", q=1, inds=INDS)
        if limit:
            s["max"] = limit
        cfg = dict(sets=[s], base=ref.at("2020-01-06 10:00:30"), tz="UTC", aspects=["links", "frames"], sparse=True)
        out.append(Scen(f"pumped-{limit}", cfg, words=pumped(timed, 3 if deep else 2, 230), system=SYSTEM))
        out.append(Scen(f"pumped-tick-{limit}", dict(cfg, sets=[dict(s, unit="TICK", q=2)]), words=pumped(ticks, 2, 330), system=SYSTEM))
    # memory
    every = [dict(ref=k, kind=k, n=2) if k in ("sma", "rsi") else dict(ref=k, kind=k) for k in ("base", "candle", "ha", "sma", "rsi", "pivot")] + [
        dict(ref="g", kind="ha", gated=True)]
    for limit in (1, 3):
        sets = [dict(ref="fs", unit="MINUTE", q=1, max=max(limit, 2), inds=every), dict(ref="tk", unit="TICK", q=2, max=limit, inds=INDS), dict(ref="no", unit="HOUR", q=1, max=limit)]
        cfg = dict(sets=sets, base=ref.at("2020-01-06 09:00:30"), tz="UTC", cal={}, aspects=["frames"], sparse=True, released=True)
        out.append(Scen(f"memory-{limit}", cfg, words=pumped(timed, 3 if deep else 2, 40), system=SYSTEM))
    # two frame sets with different limits on one instrument, and one gap far longer than the window
    cfg = dict(sets=[dict(ref="a", unit="MINUTE", q=1, max=2, inds=INDS), dict(ref="b", unit="MINUTE", q=5, max=3, inds=INDS)],
               base=ref.at("2020-01-06 10:00:30"), tz="UTC", aspects=["links", "frames"])
    out.append(Scen("two-sets", cfg, timed + [["t", 300 * MIN, 90, 90]], 4 + deep, system=SYSTEM))
    return out
