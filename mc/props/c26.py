import datetime as D
import itertools

import arrow

from mc import ref, sched, schedules
from mc.core import Mismatch, Scen, System
from mc.frames import eq, expect, make_indicator, make_tick
from mc.market import World

from estrade import BaseStrategy, BaseTickProvider, Epic, Tick, Trade
from estrade.enums import TradeDirection, Unit
from estrade.graph.frame_set import FrameSet
from estrade.trade_provider import BaseTradeProvider, TradeProviderBacktests

S = 1_000_000
H = 3600 * S
RULE = ("every interleaving of ticks, orders and closes on two or three instruments (all references equal, each created at any moment) to the stated depth, each "
        "compared after every event with a reference that knows nothing of the others; every order of frame sets and indicators on one instrument, also added "
        "between ticks; every sequence of creations and mutations of the containers of objects created with defaults; every lookup after every registration; two threads, each feeding its own instrument: every "
        "schedule with one departure from running each to its end, compared when both have ended with the reference of each alone")
ASSUMPTIONS = ["a Tick object is not shared by instruments of different timezones", "references generated by default do not collide",
               "an RSI is added before the first tick"]
INDS = [dict(ref="c", kind="candle"), dict(ref="h", kind="ha"), dict(ref="s", kind="sma", n=3), dict(ref="g", kind="candle", gated=True), dict(ref="r", kind="rsi", n=1),
        dict(ref="p", kind="pivot")]


class Worlds(System):
    """letters: ["A", event...]: event of that instrument, created (with its own clock) when it is first used; ["both", ...]: the same Tick for both."""

    def __init__(self, cfg):
        super().__init__(cfg)
        self.worlds = {}
        for name in cfg.get("first", []):
            self.world(name)

    def world(self, name):
        if name not in self.worlds:
            self.worlds[name] = World(self.cfg["worlds"][name])
        return self.worlds[name]

    def step(self, letter):
        if letter[0] == "both":
            ws = [self.world(n) for n in self.cfg["worlds"]]
            us = max(w.now for w in ws) + letter[1]
            tick = make_tick(us, letter[2], letter[3])
            for w in ws:
                w.take(tick, us, letter[2], letter[3])
        else:
            self.world(letter[0]).step(letter[1:])
        for n, w in self.worlds.items():
            try:
                w.compare()
            except Mismatch as e:
                raise Mismatch(f"instrument {n} after an event of {letter[0]}: {e}")

    def key(self):
        return tuple((n, w.key()) for n, w in sorted(self.worlds.items()))


class Feeder(World):
    """Compared at the end only."""

    quiet = True

    def compare(self, final=False):
        if not self.quiet:
            super().compare(final)


class Threads(System):
    """Each instrument is fed by a thread of its own. One letter: the list of choices of the schedule."""

    def step(self, prefix):
        self.execute(prefix)

    def execute(self, prefix):
        self.s = sched.Scheduler(prefix)
        self.errors = []
        self.ends = []
        self.worlds = {n: Feeder(w) for n, w in self.cfg["worlds"].items()}
        first, *rest = self.worlds

        def script():
            for n in rest:
                self.s.spawn(lambda n=n: self.feed(n))
            self.feed(first)

        self.s.run(script)
        if self.errors or self.s.verdict:
            raise Mismatch((self.errors + [self.s.verdict])[0])
        for n, w in self.worlds.items():
            w.quiet = False
            try:
                w.compare()
            except Mismatch as e:
                raise Mismatch(f"instrument {n}: {e}")
        return self

    def feed(self, n):
        try:
            for e in self.cfg["scripts"][n]:
                self.worlds[n].step(e)
            self.ends.append(n)
        except Mismatch as e:
            self.errors.append(f"instrument {n}: {e}")
        except Exception as e:
            self.errors.append(f"instrument {n}: the feeder got {e!r}")

    def outcome(self):
        return self.cfg["name"], tuple(self.ends), tuple(self.s.choices)


class Parts(World):
    """One instrument whose frame sets and indicators are added at any moment."""

    def other(self, letter):
        if letter[0] == "set":
            s = self.cfg["pool"][letter[1]]
            if s["ref"] not in self.sets:
                fs = FrameSet(unit=Unit[s["unit"]], unit_quantity=s["q"], ref=s["ref"], max_frames_in_memory=s["max"])
                self.inds[s["ref"]] = []
                self.epic.add_frame_set(fs)
                self.sets[s["ref"]] = fs
                self.rsets[s["ref"]] = ref.RFrameSet(s["unit"], s["q"], self.tz, s["max"])
        elif letter[0] == "indicator":
            i = letter[2]
            if letter[1] in self.sets and i["ref"] not in [x["ref"] for x in self.inds[letter[1]]]:
                frames = self.rsets[letter[1]].frames
                self.sets[letter[1]].add_indicator(make_indicator(i))
                self.inds[letter[1]].append(dict(i, since=(len(frames) - 1, self.n)))
        else:
            super().other(letter)

    def compare(self, final=False):
        if all(r.frames for r in self.rsets.values()):
            super().compare(final)
        else:  # sets that have not received anything yet
            full = dict(self.rsets)
            self.sets, empty = {k: v for k, v in self.sets.items() if self.rsets[k].frames}, {k: v for k, v in self.sets.items() if not self.rsets[k].frames}
            try:
                super().compare(final)
                for k, fs in empty.items():
                    expect(len(fs.frames) == 0 and fs.current is None, k, "has frames before its first tick")
                    expect(self.epic.get_frame(k) is None and self.epic.get_frame(k, 3) is None, k, "frame before the first tick")
                    expect(self.epic.get_indicator_value(k, "c") is None, k, "value before the first tick")
            finally:
                order = list(self.sets) + list(empty)
                self.sets = {k: {**self.sets, **empty}[k] for k in sorted(order, key=list(full).index)}

    def key(self):
        return super().key(), tuple((k, tuple(i["ref"] for i in v)) for k, v in self.inds.items())


def containers(x):
    """Public mutable containers of an object created with defaults."""
    if isinstance(x, Tick) or type(x).__name__ == "TradeClose":
        return dict(meta=x.meta)
    if isinstance(x, Trade):
        return dict(meta=x.meta, closes=x.closes)
    if isinstance(x, Epic):
        return dict(trade_days=x.trade_days, holidays=x.holidays, frame_sets=x.frame_sets, strategies=x.strategies, trades=x.trade_provider.trades)
    if isinstance(x, BaseStrategy):
        return dict(epics=x.epics, trades=x.trades)
    if isinstance(x, FrameSet):
        return dict(frames=x.frames, indicators=x.indicators)
    if isinstance(x, BaseTradeProvider):
        return dict(trades=x.trades, threads=x.threads)
    return {}


class Defaults(System):
    """letters: ["new", kind], ["mutate", k, container]: k-th object"""

    START = dict(trade_days=[0, 1, 2, 3, 4], holidays=[], frame_sets={}, strategies={}, trades=[], meta={}, closes=[], epics={}, frames=[],
                 indicators={}, threads=[])

    def __init__(self, cfg):
        super().__init__(cfg)
        self.objects, self.touched = [], set()
        self.maker = Epic(ref="maker")

    def make(self, kind):
        t = arrow.get("2020-01-06 10:00:00")
        if kind == "trade":
            return Trade.open_from_epic(self.maker, direction=TradeDirection.BUY, quantity=2)
        if kind == "close":
            return self.make("trade").close(close_value=1, datetime=t, quantity=1)
        return dict(
            tick=lambda: Tick(datetime=t, bid=1, ask=2), epic=Epic, strategy=BaseStrategy, provider=BaseTradeProvider, backtests=TradeProviderBacktests,
            frames=lambda: FrameSet(unit=Unit.HOUR, unit_quantity=1),
        )[kind]()

    def step(self, letter):
        if letter[0] == "new":
            self.objects.append(self.make(letter[1]))
        elif letter[1] < len(self.objects):
            c = containers(self.objects[letter[1]])
            if letter[2] >= len(c):
                return
            name = list(c)[letter[2]]
            self.touched.add((letter[1], name))
            if isinstance(c[name], dict):
                c[name]["x"] = 1
            else:
                c[name].append(D.date(2020, 1, 6) if name == "holidays" else 5)
        for k, x in enumerate(self.objects):
            for name, got in containers(x).items():
                if (k, name) not in self.touched:
                    w = f"{type(x).__name__} {k}: {name}"
                    # trades listed by a provider are the sort of thing a mutation of another object must not add to
                    eq(list(got.items()) if isinstance(got, dict) else list(got), list(self.START[name].items() if isinstance(got, dict) else self.START[name]), w)
            if isinstance(x, Epic) and not any(t[0] == k for t in self.touched):
                for day, want in ((6, True), (11, False)):  # Monday, Saturday
                    e = x
                    saved = e.last_tick
                    e.last_tick = Tick(datetime=arrow.get(2020, 1, day, 10), bid=1, ask=2)
                    eq(bool(e.is_market_open()), want, f"instrument {k}: market open on day {day}")
                    e.last_tick = saved

    def key(self):
        return tuple(type(x).__name__ for x in self.objects), tuple(sorted(self.touched))


class Lookups(System):
    """letters: [what, reference]"""

    POOL = ["a", "b", "A", "ab", "a b", "é", "0", "None", "\n"]

    def __init__(self, cfg):
        super().__init__(cfg)
        self.epic = Epic(ref="E")
        self.found = dict(set={}, strategy={}, indicator={}, epic={})
        self.home = FrameSet(unit=Unit.HOUR, unit_quantity=1, ref="home")
        self.epic.add_frame_set(self.home)
        self.now = ref.at("2020-01-06 10:00:00")
        self.ticks = 0

    def step(self, letter):
        op, r = letter
        if op == "tick":
            self.now += H
            self.epic.on_new_tick(make_tick(self.now, 100, 102))
            self.ticks += 1
        elif r not in self.found[op]:
            if op == "set":
                x = FrameSet(unit=Unit.DAY, unit_quantity=1, ref=r)
                self.epic.add_frame_set(x)
            elif op == "strategy":
                x = BaseStrategy(ref=r)
                self.epic.add_strategy(x)
            elif op == "indicator":
                x = make_indicator(dict(ref=r, kind="candle"))
                self.home.add_indicator(x)
            elif op == "epic":
                x = Epic(ref=r)
            self.found[op][r] = x
            eq(x.ref, r, op, "ref")
        f = self.found
        provider = BaseTickProvider(list(f["epic"].values()))
        for r in self.POOL:
            expect(provider.get_epic_by_ref(r) is f["epic"].get(r), "instrument", repr(r))
            expect(provider.epics.get(r) is f["epic"].get(r), "instrument", repr(r))
            expect(self.epic.frame_sets.get(r) is f["set"].get(r), "frame set", repr(r))
            expect(self.epic.strategies.get(r) is f["strategy"].get(r), "strategy", repr(r))
            expect(self.home.indicators.get(r) is f["indicator"].get(r), "indicator", repr(r))
            try:
                frame = self.epic.get_frame(r)
            except KeyError:
                expect(r not in f["set"], "frame set", repr(r), "is registered but not found")
                frame = None
            s = f["set"].get(r)
            expect(frame is (s.current if s else None), "frame of", repr(r))
            v = self.epic.get_indicator_value("home", r)
            if r not in f["indicator"]:
                expect(v is None, "value of unknown indicator", repr(r))
            elif v is not None:
                expect(v.indicator is f["indicator"][r] and v.frame is self.home.current, "value of", repr(r))
        eq(len(provider.epics), len(f["epic"]), "number of instruments")
        eq((list(self.epic.frame_sets), list(self.epic.strategies)), (["home"] + list(f["set"]), list(f["strategy"])), "registered references")

    def key(self):
        return tuple(tuple(v) for v in self.found.values()), self.ticks


SYSTEM = Worlds


def explore(prop, scens, tier):
    return schedules.explore(prop, scens, tier, Threads)


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    base = ref.at("2020-01-06 09:00:00")
    sets = lambda *u: [dict(ref="m", unit=u[0], q=u[1], max=u[2], inds=INDS), dict(ref="n", unit=u[3], q=u[4], max=u[5], inds=INDS[:2])]
    A = dict(base=base, cal={}, tz="UTC", sets=sets("HOUR", 1, 4, "TICK", 2, 3))
    B = dict(base=base, cal={}, tz="UTC", sets=sets("HOUR", 1, 4, "TICK", 2, 3))
    C = dict(base=base, cal=dict(open_time="10:00:00", close_time="20:00:00"), tz="America/New_York", sets=sets("MINUTE", 30, 31, "HOUR", 2, 3))
    ev = lambda n, k: [[n, "t", 20 * 60 * S, 100 + k, 102 + k], [n, "next", 1, 0, 97 - k, 99], [n, "t", 3 * H, 110, 112 + k], [n, "open", "a", 1 + k], [n, "close", 1]]
    out.append(Scen("same", dict(worlds=dict(A=A, B=B)), ev("A", 0) + ev("B", 1)[:4], 4 + deep, system=Worlds))
    out.append(Scen("different", dict(worlds=dict(A=A, C=C)), ev("A", 0)[1:4] + ev("C", 3)[1:5], 4 + deep, system=Worlds))
    out.append(Scen("three", dict(worlds=dict(A=A, B=B, C=C), first=["B"]), ev("A", 0)[1::2] + ev("B", 7)[1::2] + ev("C", 3)[1::2], 4 + deep, system=Worlds))
    out.append(Scen("shared-ticks", dict(worlds=dict(A=A, B=B), first=["A", "B"]), [["both", 1800 * S, 100, 104], ["both", H, 90, 90]] + ev("A", 2)[1:4] + ev("B", 1)[1:4],
                    4 + deep, system=Worlds))
    # same instants, same units, other calendars of days and hours
    zoned = [dict(ref=u[0].lower(), unit=u, q=1, max=9, inds=INDS[:1] + INDS[3:4]) for u in ("HOUR", "DAY", "TICK", "MONTH")]
    for n, (tz, cal) in enumerate((("Asia/Tokyo", {}), ("America/New_York", {}), ("Asia/Kolkata", dict(open_time="04:00:00", close_time="11:00:00")), ("UTC", dict(days=[5, 6])))):
        ws = {k: dict(base=ref.at("2020-01-31 12:00:00"), cal=c, tz=z, sets=zoned) for k, z, c in (("A", "UTC", {}), ("B", tz, cal))}
        out.append(Scen(f"zones-{n}", dict(worlds=ws), [[k, *e] for k in "AB" for e in (["t", 3 * H, 100, 102], ["t", 14 * H, 95, 96], ["t", 0, 110, 112])], 4 + deep, system=Worlds))
    # every schedule of two feeding threads
    parts = INDS[:4] + [dict(INDS[4], n=2)] + INDS[5:]
    few = lambda *u: [dict(ref=x.lower(), unit=x, q=q, max=9, inds=parts) for x, q in u]
    D1 = dict(base=base, cal={}, tz="UTC", sets=few(("HOUR", 1), ("TICK", 1)))
    D2 = dict(base=base + 7 * S, cal=dict(open_time="10:00:00", close_time="20:00:00"), tz="America/New_York", sets=few(("DAY", 1), ("TICK", 1)))
    up = [["t", H, 100, 102], ["open", "a", 2], ["t", 20 * 60 * S, 97, 99], ["close", 1], ["t", 2 * H, 110, 112], ["t", 1, 109, 110]]
    down = [["t", H, 103, 105], ["t", 20 * 60 * S, 104, 105], ["open", "b", -3], ["t", 2 * H, 90, 92]]
    longer = [["t", 20 * 60 * S, 88, 90], ["t", 0, 91, 92], ["close", 1], ["t", 20 * H, 70, 72]] if deep else []
    calm = lambda script: [e for e in script if e[0] == "t"]
    for name, a, b, x, y in (("same-calm", D1, D1, calm(up), calm(down + longer)), ("same-calm-swapped", D1, D1, calm(down + longer), calm(up)), ("same", D1, D1, up, down + longer), ("different-calm", D1, D2, calm(up), calm(down + longer)), ("different", D1, D2, up, down + longer),
                             ("different-swapped", D2, D1, up + longer, down)):
        cfg = dict(name="threads-" + name, worlds=dict(A=a, B=b), scripts=dict(A=x, B=y), bound=1, metric="delay")
        out.append(Scen(cfg["name"], cfg, words=[[[]]], system=Threads))
    # one instrument
    unit = {"MINUTE": 30, "HOUR": 1, "DAY": 1, "TICK": 2, "WEEK": 1, "MONTH": 1}
    ticks = [["t", 20 * 60 * S, 100, 102], ["next", 1, 0, 97, 99], ["t", 30 * H, 110, 113]]
    for order in itertools.permutations(["MINUTE", "HOUR", "DAY", "TICK"]):
        ss = [dict(ref=u.lower(), unit=u, q=unit[u], max=70, inds=INDS[k:] + INDS[:k]) for k, u in enumerate(order)]
        out.append(Scen("order-" + "-".join(order), dict(base=base, cal={}, tz="UTC", sets=ss), words=[list(w) for w in itertools.product(ticks, repeat=3 + deep)], system=World))
    pool = [dict(ref="x", unit="HOUR", q=1, max=3), dict(ref="y", unit="HOUR", q=1, max=50), dict(ref="z", unit="TICK", q=2, max=3)]
    add = [["set", 1], ["set", 2], ["indicator", "x", INDS[0]], ["indicator", "x", INDS[2]], ["indicator", "y", INDS[1]], ["indicator", "y", INDS[3]], ["indicator", "z", INDS[0]]]
    out.append(Scen("added-later", dict(base=base, cal={}, tz="UTC", sets=[dict(pool[0], inds=[])], pool=pool), ticks + add, 4 + deep, system=Parts))
    out.append(Scen("added-later-deep", dict(base=base, cal={}, tz="UTC", sets=[dict(pool[1], inds=[])], pool=pool),
                    ticks[:2] + [["set", 0], ["indicator", "x", INDS[1]], ["indicator", "y", INDS[2]]], 6 + deep, system=Parts))
    # defaults
    kinds = ["tick", "epic", "strategy", "provider", "backtests", "frames", "trade", "close"]
    words = []
    for a, b in itertools.product(kinds, repeat=2):
        for k in range(5):
            words.append([["new", a], ["new", b], ["mutate", 0, k], ["new", a]])
            words.append([["new", a], ["mutate", 0, k], ["new", b], ["mutate", 1, k], ["new", b]])
    out.append(Scen("defaults", {}, words=words, system=Defaults))
    out.append(Scen("defaults-epic", {}, [["new", "epic"], ["new", "provider"]] + [["mutate", i, k] for i in range(2) for k in range(5)], 4, system=Defaults))
    # lookups
    for op in ("set", "strategy", "indicator", "epic"):
        words = [[[op, r] for r in w[:k]] + [["tick", None]] + [[op, r] for r in w[k:]] + [["tick", None]] for w in itertools.permutations(Lookups.POOL, 3) for k in (0, 3)]
        out.append(Scen("lookup-" + op, {}, words=words, system=Lookups))
    out.append(Scen("lookups", {}, [[op, r] for op in ("set", "strategy", "indicator", "epic") for r in ("a", "b")] + [["tick", None]], 4 + deep, system=Lookups))
    return out
