import itertools

from mc import ref
from mc.core import Mismatch, Scen, System
from mc.frames import eq, expect, make_tick
from mc.market import BUY, SELL, World, diff, see_epic, see_strategy, see_trade

from estrade import BaseStrategy, Epic, Trade
from estrade.enums import Unit
from estrade.exceptions import EpicException, EstradeException
from estrade.graph.base_indicator import BaseIndicator, BaseIndicatorValue
from estrade.graph.frame_set import FrameSet
from estrade.graph.indicators.candle_set import CandleSet
from estrade.graph.indicators.rsi import RSI

S = 1_000_000
H = 3600 * S
RULE = ("every sequence of ticks, orders, refused operations (each kind, before the first tick and after any others) and callbacks told to raise, to the "
        "stated depth: a full snapshot of the public state is the same before and after a refused operation, the error a callback raised is the one "
        "the feeder gets, and frames, indicators, callbacks and trades are compared with the reference after every event")
ASSUMPTIONS = ["which of the remaining callbacks are made for the tick whose callback raised is left unspecified"]
INDS = [dict(ref="c", kind="candle"), dict(ref="s", kind="sma", n=2), dict(ref="r", kind="rsi", n=1), dict(ref="h", kind="ha"), dict(ref="g", kind="candle", gated=True)]


class Boom(Exception):
    pass


ERRORS = {"boom": Boom, "value": ValueError, "index": IndexError, "key": KeyError, "attribute": AttributeError, "estrade": EstradeException,
          "epic": EpicException, "stop": StopIteration, "type": TypeError}


class SYSTEM(World):
    def __init__(self, cfg):
        sets = cfg.get("sets", [dict(ref="m", unit="HOUR", q=1, max=4, inds=INDS), dict(ref="t", unit="TICK", q=2, max=3, inds=INDS[:1])])
        super().__init__(dict(cfg, sets=sets))
        self.acting = {}
        # an unrelated instrument with the same references
        self.far = Epic(ref="far", trade_provider=self.epic.trade_provider)
        self.far_set = FrameSet(unit=Unit.MINUTE, unit_quantity=5, ref="m", max_frames_in_memory=50)
        self.far.add_frame_set(self.far_set)
        self.far_rsi = RSI(periods=9, ref="r")
        self.far_set.add_indicator(self.far_rsi)
        self.far_strategy = BaseStrategy(ref="a")
        self.far.add_strategy(self.far_strategy)
        self.far_trade = None

    # ---- refused operations
    def snapshot(self):
        out = see_epic(self.epic) + see_epic(self.far)
        out += [see_strategy(s) for s in list(self.strategies.values()) + [self.far_strategy]]
        for e in (self.epic, self.far):
            out.append(("zone", e.timezone, e.ref, str(e.open_time), str(e.close_time), tuple(e.trade_days), tuple(e.holidays), id(e.trade_provider)))
            for n, fs in e.frame_sets.items():
                out.append((n, fs.ref, id(fs.epic), fs.unit, fs.unit_quantity, fs.max_frames_in_memory,
                            tuple((k, id(v), id(v.frame_set), id(v.epic)) for k, v in fs.indicators.items())))
        p = self.epic.trade_provider
        out += [tuple(map(id, p.trades)), tuple(map(id, p.opened_trades)), tuple(map(see_trade, p.trades))]
        out.append((id(self.far_rsi.frame_set), self.far_rsi.periods))
        out.append(tuple(sorted((k, id(v)) for k, v in self.far_strategy.epics.items())))
        for s in self.strategies.values():
            out.append(tuple(sorted((k, id(v)) for k, v in s.epics.items())))
        return out

    def refuse(self, what):
        new = dict(unit=Unit.HOUR, unit_quantity=1)
        ops = {
            "frame set twice": lambda: self.epic.add_frame_set(self.sets["m"]),
            "other frame set, same reference": lambda: self.epic.add_frame_set(FrameSet(ref="m", **new)),
            "frame set of another instrument": lambda: self.epic.add_frame_set(self.far_set),
            "strategy twice": lambda: self.epic.add_strategy(self.strategies["a"]),
            "other strategy, same reference": lambda: self.epic.add_strategy(BaseStrategy(ref=self.names[-1])),
            "strategy of another instrument": lambda: self.epic.add_strategy(self.far_strategy),
            "zone": lambda: setattr(self.epic, "timezone", "Mars/Olympus"),
            "zone none": lambda: setattr(self.epic, "timezone", None),
            "zone case": lambda: setattr(self.epic, "timezone", "utc+1"),
            "zone of a new instrument": lambda: Epic(ref="new", timezone="Nowhere", trade_provider=self.epic.trade_provider),
            "direction of a strategy's order": lambda: self.strategies["a"].open_trade(self.epic, direction="BUY", quantity=2),
            "direction of an instrument's order": lambda: self.epic.open_trade(direction=None, quantity=1, strategy=self.strategies["b"], ref="x"),
            "direction of an order for nobody": lambda: self.epic.open_trade(direction=0, quantity=1),
            "direction of a trade": lambda: Trade.open_from_epic(self.epic, direction=Unit.SECOND, quantity=1),
            "direction number": lambda: self.strategies["b"].open_trade(self.epic, direction=1, quantity=3),
            "hours": lambda: FrameSet(unit=Unit.HOUR, unit_quantity=24, ref="m"),
            "minutes": lambda: FrameSet(unit=Unit.MINUTE, unit_quantity=7, ref="m"),
            "seconds": lambda: FrameSet(unit=Unit.SECOND, unit_quantity=61),
            "days": lambda: FrameSet(unit=Unit.DAY, unit_quantity=2),
            "weeks": lambda: FrameSet(unit=Unit.WEEK, unit_quantity=2),
            "months": lambda: FrameSet(unit=Unit.MONTH, unit_quantity=5),
            "rsi": lambda: self.sets["m"].add_indicator(RSI(periods=5, ref="new")),
            "rsi, reference in use": lambda: self.sets["m"].add_indicator(RSI(periods=5, ref="r")),
            "rsi per quantity": lambda: self.sets["t"].add_indicator(RSI(periods=2, ref="c")),
            "rsi of another frame set": lambda: self.sets["m"].add_indicator(self.far_rsi),
            "crossed tick": lambda: self.epic.on_new_tick(make_tick(self.now, 103, 102)),
            "late tick": lambda: self.epic.on_new_tick(make_tick(self.now - 1, 100, 102)) if self.n else self.epic.add_frame_set(self.sets["m"]),
        }
        before = self.snapshot()
        self.calls.clear()
        try:
            ops[what]()
        except EstradeException:
            pass
        except Exception as e:
            if not what.startswith("rsi") and not what.startswith("zone none"):
                raise Mismatch(f"{what}: refused with {e!r}")
        else:
            raise Mismatch(f"{what}: accepted")
        eq(self.calls, [], what, "callbacks")
        after = self.snapshot()
        expect(before == after, what, "was refused but changed", lambda: diff(before, after))
        # the refused frame set, strategy or indicator still works where it is registered
        expect(self.far_set.epic is self.far and self.far.frame_sets["m"] is self.far_set, "frame set of another instrument moved")

    # ---- events
    def other(self, letter):
        op = letter[0]
        if op == "refuse":
            self.refuse(letter[1])
        elif op == "raise":  # ["raise", strategy, callback, error(, "after trading")]: at that strategy's next such callback
            self.acting[(letter[1], letter[2])] = letter[3:]
        elif op == "far":  # a tick of the other instrument
            self.far.on_new_tick(make_tick(self.now, 900, 950))
            if self.far_trade is None:
                self.far_trade = self.far_strategy.open_trade(self.far, direction=BUY, quantity=1)
        else:
            super().other(letter)

    def callback(self, strategy, kind, epic):
        super().callback(strategy, kind, epic)
        act = self.acting.pop((strategy.ref, kind), None)
        if act and self.raised is None:
            if len(act) > 1:
                self.trade(strategy.ref, BUY if strategy.ref == "a" else SELL, 2)
            self.raised = ERRORS[act[0]]("told to")
            self.raised_at = (strategy.ref, kind)
            raise self.raised

    def key(self):
        return super().key(), str(self.acting), self.far_trade is None


class Picky(BaseIndicatorValue):
    """A user-defined value that raises when its indicator was told to."""

    def __init__(self, indicator, frame):
        super().__init__(indicator, frame)
        indicator.system.called()

    def on_new_tick(self, tick, market_open):
        super().on_new_tick(tick, market_open)
        self.indicator.system.called()


class FAILING(System):
    """An indicator that raises at a given one of its calls, on the second of two frame sets (one hour, UTC, market open from 9:30 to 17:30)."""

    def __init__(self, cfg):
        self.epic = Epic(ref="e")
        self.sets = {}
        for name in ("x", "m"):
            fs = self.sets[name] = FrameSet(unit=Unit.HOUR, unit_quantity=1, ref=name, max_frames_in_memory=cfg.get("max", 40))
            self.epic.add_frame_set(fs)
            for k, gated in enumerate((True, False)):
                if name == "m" and k == cfg["at"]:
                    self.picky = BaseIndicator(value_class=Picky, ref="picky", market_open_only=cfg.get("gated", False))
                    self.picky.system = self
                    fs.add_indicator(self.picky)
                fs.add_indicator(CandleSet(ref="gated" if gated else "all", market_open_only=gated))
        self.left = None  # calls until the failure
        self.raised = None
        self.now = None
        self.given = []  # [period, tick, open, raised at]
        self.tainted = None  # last period concerned by a failure

    def called(self):
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                self.left, self.raised = None, Boom("told to")
                raise self.raised

    def step(self, letter):
        if letter[0] == "fail":
            self.left = letter[1]
            return
        at = ref.at("2020-01-06 09:00:00") + letter[2] if self.now is None else self.now - self.now % H + letter[1] * H + letter[2]
        self.now = max(at, self.now or 0)
        tick = make_tick(self.now, letter[3], letter[3])
        self.raised, got = None, None
        try:
            self.epic.on_new_tick(tick)
        except Boom as e:
            got = e
        expect(got is self.raised, "the error of the indicator", self.raised, "is not the one the feeder got:", got)
        time = self.now % (24 * H)
        is_open = self.now // (24 * H) % 7 not in (2, 3) and 9.5 * H <= time <= 17.5 * H
        expect(self.epic.last_tick is tick and self.epic.market_open is is_open, "the instrument is not up to date after an indicator raised")
        self.given.append((self.now // H, tick, is_open))
        if got is not None:
            self.tainted = self.now // H
        self.compare()

    def compare(self):
        if not self.given:
            return
        period, tick, is_open = self.given[-1]
        for name, fs in self.sets.items():
            for f, g in zip(fs.frames, fs.frames[1:]):
                expect(f.next_frame is g and g.previous_frame is f and f.period_end == g.period_start, name, "frames are not linked")
            if name == "m" and self.tainted == period:
                continue  # what the frame of the failure holds is left unspecified
            expect(ref.to_us(fs.current.period_start) == period * H and not fs.current.closed, name, "is not up to date")
            # every frame begun after the last failure holds exactly its ticks, or repeats the last one before it
            for f in reversed(fs.frames):
                p = ref.to_us(f.period_start) // H
                if name == "m" and self.tainted is not None and p <= self.tainted:
                    break
                ticks = [(t, o) for q, t, o in self.given if q == p]
                if not ticks:
                    q, t, o = [g for g in self.given if g[0] < p][-1]
                    if name == "m" and self.tainted is not None and q <= self.tainted:
                        continue
                    ticks = [(t, o)]
                expect(f.nb_ticks == len(ticks) and f.first_tick is ticks[0][0] and f.last_tick is ticks[-1][0], name, "frame of period", p, "does not hold its ticks")
                for r, of in (("all", [t for t, _ in ticks]), ("gated", [t for t, o in ticks if o])):
                    v = f[r]
                    expect((v is not None) == bool(of), name, "frame of period", p, "has a value of", r, ":", v is not None)
                    if of:
                        expect(v.first_tick is of[0] and v.last_tick is of[-1], name, "frame of period", p, r, "does not hold its ticks")
                        eq((v.open, v.high, v.low, v.last), (of[0].value, max(t.value for t in of), min(t.value for t in of), of[-1].value), name, "frame of period", p, r)

    def key(self):
        return self.now, self.left, self.tainted, tuple((n, len(f.frames)) for n, f in self.sets.items())


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    # user-defined indicators that raise
    for k, kw in enumerate((dict(at=0), dict(at=1), dict(at=0, gated=True), dict(at=0, max=2))):
        ev = [["t", 0, 35 * 60 * S, 104], ["t", 1, 0, 97], ["t", 3, 10, 101], ["t", 16, 40 * 60 * S, 120], ["fail", 0], ["fail", 1], ["fail", 2]]
        out.append(Scen(f"indicator-raises-{k}", kw, ev, 5 + deep, system=FAILING))
    cfg = dict(base=ref.at("2020-01-06 09:00:00"), cal={}, tz="UTC")
    ticks = [["t", 20 * 60 * S, 100, 102], ["next", 1, 0, 97, 99], ["t", 5 * H, 110, 112]]
    refused = ["frame set twice", "other frame set, same reference", "frame set of another instrument", "strategy twice", "other strategy, same reference",
               "strategy of another instrument", "zone", "zone none", "zone case", "zone of a new instrument", "direction of a strategy's order",
               "direction of an instrument's order", "direction of an order for nobody", "direction of a trade", "direction number", "hours", "minutes",
               "seconds", "days", "weeks", "months", "rsi", "rsi, reference in use", "rsi per quantity", "rsi of another frame set", "crossed tick", "late tick"]
    ev = ticks + [["open", "a", 2], ["open", "b", -3], ["far"]]
    before = [list(w) for n in range(4 if deep else 3) for w in itertools.product(ev, repeat=n)]
    out.append(Scen("refused-all", cfg, words=[w + [["refuse", r], t] for w in before for r in refused for t in ev[:4:2]], system=SYSTEM))
    out.append(Scen("refused-pairs", cfg, words=[[ev[0], ["refuse", a], ev[3], ["refuse", b], ev[1]] for a in refused for b in refused], system=SYSTEM))
    out.append(Scen("refused-deep", cfg, ticks + [["open", "a", 2]] + [["refuse", refused[k]] for k in (2, 5, 6, 10, 22)], 4 + deep, system=SYSTEM))
    zone = dict(cfg, tz="America/New_York", base=ref.at("2020-01-06 14:00:00"))
    out.append(Scen("refused-zone", zone, ticks + [["close", 1], ["open", "a", 2]] + [["refuse", refused[k]] for k in (6, 11, 21, 26)], 4 + deep, system=SYSTEM))
    # callbacks that raise; every kind of callback of every strategy; every kind of error
    for kind in ("on_every_tick", "on_every_tick_market_open", "on_market_open", "on_market_close"):
        acts = [["raise", "a", kind, "boom"], ["raise", "b", kind, "value"], ["raise", "a", kind, "estrade", "trade"], ["raise", "b", "on_every_tick", "index"]]
        out.append(Scen(f"raise-{kind}", cfg, ticks + [["clock", "09:30:00", 0, 105, 107]] + acts, 4 + deep, system=SYSTEM))
    out.append(Scen("raise-errors", cfg, ticks[:2] + [["raise", "a", "on_every_tick", e] for e in ERRORS] + [["open", "b", -1]], 3 + deep, system=SYSTEM))
    out.append(Scen("raise-and-trade", cfg, ticks[:2] + [["raise", "a", "on_every_tick", "boom", "trade"], ["raise", "b", "on_every_tick", "key", "trade"], ["close", 1], ["open", "a", 1]],
                    5 + deep, system=SYSTEM))
    out.append(Scen("raise-gap", dict(cfg, sets=[dict(ref="m", unit="HOUR", q=1, max=5, inds=INDS), dict(ref="t", unit="TICK", q=1, max=4, inds=INDS[:2])]),
                    [["next", 3, 5, 90, 91], ["t", 0, 120, 125], ["clock", "17:30:00", 0, 101, 103], ["clock", "09:30:00", 1, 99, 99],
                     ["raise", "b", "on_every_tick", "boom"], ["raise", "a", "on_market_open", "type"]], 5 + deep, system=SYSTEM))
    return out
