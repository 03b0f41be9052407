from mc import ref
from mc.core import Scen, pumped
from mc.frames import ALWAYS, FrameSystem, eq, expect, see_tick

from estrade.graph.base_indicator import BaseIndicator, BaseIndicatorValue

S = 1_000_000
MIN = 60 * S
H = 3600 * S
LOOKS = (1, 2, 0)
RULE = ("every sequence of the alphabet (ticks inside a frame, at a boundary, after gaps, on opening and closing) to the stated depth, with "
        "user-defined indicators of every kind on one or two frame sets; what was built and what each value received, with everything visible at that "
        "moment, is compared after every tick")
ASSUMPTIONS = ["calls an indicator limited to market hours gets while the market is closed are ignored (the library's own values ignore them too)"]


class Value(BaseIndicatorValue):
    def __init__(self, indicator, frame):
        super().__init__(indicator, frame)
        indicator.system.seen(indicator, self, "build", frame.last_tick, frame, True)

    def on_new_tick(self, tick, market_open):
        super().on_new_tick(tick, market_open)
        self.indicator.system.seen(self.indicator, self, "tick", tick, self.frame, market_open)


class Empty(Value):
    """A value that is falsy, as any collection without elements."""

    def __len__(self):
        return 0


class Numbers(list, Value):
    """A value that is a list: equal to others, not hashable, falsy until the second tick."""

    def __init__(self, indicator, frame):
        list.__init__(self)
        Value.__init__(self, indicator, frame)

    def on_new_tick(self, tick, market_open):
        Value.on_new_tick(self, tick, market_open)
        self.append(tick.value)


class Late(BaseIndicator):
    """Only has a value from the second tick of a frame on."""

    def build_value_from_frame(self, frame, epic_market_open):
        if frame.nb_ticks < 2:
            return None
        return super().build_value_from_frame(frame, epic_market_open)


class SYSTEM(FrameSystem):
    KINDS = {"plain": Value, "empty": Empty, "numbers": Numbers, "late": Value}

    def __init__(self, cfg):
        self.events = []
        bare = [dict(s, inds=[]) for s in cfg["sets"]]
        super().__init__(dict(cfg, sets=bare, aspects=["frames"]))
        self.custom = {}
        for s in cfg["sets"]:
            self.custom[s["ref"]] = []
            for i in s["inds"]:
                self.add(s["ref"], i)
        self.fed = {s["ref"]: 0 for s in cfg["sets"]}
        self.values = {}
        self.was_open = False

    def has(self, name):
        return [i for i, _ in self.custom[name]]

    def add(self, name, i):
        cls = Late if i["kind"] == "late" else BaseIndicator
        ind = cls(value_class=self.KINDS[i["kind"]], ref=i["ref"], market_open_only=i.get("gated", False))
        ind.system = self
        self.sets[name].add_indicator(ind)
        self.custom[name].append((i, ind))

    def seen(self, indicator, value, kind, tick, frame, market_open):
        if indicator.market_open_only and not market_open:
            return
        t = lambda x: see_tick(x, "frame")
        others = tuple(frame[i["ref"]] is not None and see_tick(frame[i["ref"]].last_tick, "other") for i, ind in self.earlier(indicator))
        prev = value.previous
        self.events.append((indicator.ref, kind, t(tick), ref.to_us(frame.period_start), frame.nb_ticks,
                            (t(frame.first_tick), t(frame.last_tick), frame.high_tick.value, frame.low_tick.value),
                            None if kind == "build" else bool(market_open),
                            None if prev is None else ref.to_us(prev.frame.period_start), others))
        fs = frame.parent_frameset
        expect(len(fs.frames) <= fs.max_frames_in_memory + 1, indicator.ref, "sees", len(fs.frames), "frames in memory")
        expect(value.frame is frame and value.indicator is indicator, indicator.ref, "value belongs to", value.frame)
        if kind == "build":
            for a in ("first_tick", "last_tick", "high_tick", "low_tick"):
                expect(getattr(value, a) is tick, indicator.ref, a, "of a new value")

    def earlier(self, indicator):
        for name, inds in self.custom.items():
            for k, (i, ind) in enumerate(inds):
                if ind is indicator:
                    return inds[:k]

    def feed(self, tick):
        self.events = []
        super().feed(tick)

    def tick(self, *a, **k):
        before = {n: (len(r.frames), len(r.frames[-1].ticks) if r.frames else 0) for n, r in self.rsets.items()}
        super().tick(*a, **k)
        want = []
        for name, rfs in self.rsets.items():
            n0, k0 = before[name]
            for r in rfs.frames[max(0, n0 - 1):]:
                start = k0 if n0 and r.index == n0 - 1 else 0
                for k in range(start, len(r.ticks)):
                    want += self.expected(name, rfs, r, k)
        self.was_open = self.rtick.open
        eq([e[:7] + e[8:] for e in self.events], [e[:7] + e[8:] for e in want], "what the indicators were given")
        for e, w in zip(self.events, want):
            expect(e[7] in w[7], e[0], e[1], "of tick", e[2], "saw the previous value of frame", e[7], "expected", w[7])
        for name, fs in self.sets.items():
            for f, r in zip(fs.frames, self.rsets[name].retained()):
                for i, ind in self.custom[name]:
                    v = f[i["ref"]]
                    has = self.first(i, r) is not None
                    expect((v is not None) == has, name, i["ref"], r.index, "has a value:", v is not None)
                    if v is not None:
                        key = (name, i["ref"], r.index)
                        expect(self.values.setdefault(key, v) is v, key, "the value was replaced by another one")

    def first(self, i, r, upto=None):
        """Position of the tick for which indicator i gets its value on reference frame r."""
        for k, t in enumerate(r.ticks[:upto]):
            known = "since" not in i or r.index > i["since"][0] or r.index == i["since"][0] and t.n >= i["since"][1]
            if known and (t.open or not i.get("gated")) and (i["kind"] != "late" or k >= 1):
                return k
        return None

    def expected(self, name, rfs, r, k):
        out = []
        t = r.ticks[k]
        us = lambda x: (x.us, x.bid, x.ask)
        cs = [x.c / 100 for x in r.ticks[: k + 1]]
        start = lambda r: r.start if r.end is not None else r.ticks[0].us
        for pos, (i, ind) in enumerate(self.custom[name]):
            first = self.first(i, r, k + 1)
            if first is None or (i.get("gated") and not t.open):
                continue
            prev = (None,)
            limit = next(s.get("max", 100) for s in self.cfg["sets"] if s["ref"] == name)
            for p in reversed(rfs.frames[: r.index]):
                if p.index < r.index - limit or p.index == r.index - limit and k:
                    break
                if self.first(i, p) is not None:
                    # while a frame is created, the oldest one may or may not have been dropped already
                    prev = (None, start(p)) if p.index == r.index - limit and limit > 1 else (start(p),)
                    break
            others = []
            for j, _ in self.custom[name][:pos]:
                f = self.first(j, r, k + 1)
                counting = [x for x in r.ticks[f: k + 1] if x.open or not j.get("gated")] if f is not None else []
                others.append(us(counting[-1]) if counting else False)
            out.append((i["ref"], "build" if k == first else "tick", us(t), start(r), k + 1,
                        (us(r.ticks[0]), us(t), max(cs), min(cs)), None if k == first else t.open, prev, tuple(others)))
        return out


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    base = ref.at("2020-01-06 08:30:00")
    inds = [dict(ref="z", kind="plain"), dict(ref="g", kind="plain", gated=True), dict(ref="a", kind="empty"), dict(ref="n", kind="numbers", gated=True),
            dict(ref="b", kind="late")]
    letters = [["t", 10 * MIN, 101, 103], ["t", 0, 98, 98], ["next", 1, 0, 105, 107], ["next", 3, 1, 99, 99]]
    hours = [["clock", "09:00:00", 0, 101, 103], ["clock", "09:30:00", 0, 98, 98], ["clock", "17:30:00", 0, 105, 107], ["clock", "18:00:00", 0, 99, 99],
             ["t", MIN, 103, 103]]
    for limit in (1, 2, 100):
        s = dict(ref="f", unit="HOUR", q=1, max=limit, inds=inds)
        out.append(Scen(f"hour-{limit}", dict(sets=[s], base=base, cal={}, tz="UTC"), letters, 5 + deep, system=SYSTEM))
    s = dict(ref="f", unit="HOUR", q=4, inds=inds)
    out.append(Scen("hours", dict(sets=[s], base=base, cal={}, tz="UTC"), hours, 5 + deep, system=SYSTEM))
    out.append(Scen("tick", dict(sets=[dict(s, unit="TICK", q=2)], base=base, cal={}, tz="UTC"), letters[:2] + hours[1:], 5 + deep, system=SYSTEM))
    two = [dict(ref="f", unit="HOUR", q=1, inds=inds[:3]), dict(ref="e", unit="TICK", q=3, inds=inds[2:]), dict(ref="d", unit="DAY", q=1, inds=inds[1:2])]
    out.append(Scen("three-sets", dict(sets=two, base=base, cal={}, tz="America/New_York"), letters + hours[1:3], 4 + deep, system=SYSTEM))
    out.append(Scen("attached-last", dict(sets=two[:2], base=base, cal=ALWAYS, tz="UTC", attach_first=False), letters, 5 + deep, system=SYSTEM))
    # indicators added between two ticks
    adds = [["add", "f", dict(i, ref=i["ref"] + "2")] for i in inds]
    for limit in (1, 2, 100):
        s = dict(ref="f", unit="HOUR", q=1, max=limit, inds=inds[:1])
        out.append(Scen(f"added-{limit}", dict(sets=[s], base=base, cal={}, tz="UTC"), letters + adds[:2] + adds[4:], 5 + deep, system=SYSTEM))
    s = dict(ref="f", unit="HOUR", q=4, inds=inds[:1])
    out.append(Scen("added-hours", dict(sets=[s], base=base, cal={}, tz="UTC"), hours[1:] + adds[1:4], 5 + deep, system=SYSTEM))
    out.append(Scen("added-tick", dict(sets=[dict(s, unit="TICK", q=3)], base=base, cal={}, tz="UTC"), letters[:2] + hours[1:3] + adds[:2] + adds[4:], 5 + deep, system=SYSTEM))
    s = dict(ref="f", unit="HOUR", q=1, inds=inds)
    out.append(Scen("pumped", dict(sets=[s], base=base, cal={}, tz="UTC"), words=pumped(letters + hours[3:4], 3 if deep else 2, 130), system=SYSTEM))
    return out
