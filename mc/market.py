"""Instruments with recording strategies, on top of the frame systems."""
import arrow

from mc import ref
from mc.core import Mismatch
from mc.frames import ALWAYS, RT, FrameSystem, cents, eq, expect, make_epic, make_tick, see_tick

from estrade import BaseStrategy
from estrade.enums import TradeDirection

KINDS = ("on_market_open", "on_market_close", "on_every_tick_market_open", "on_every_tick")


class Recorder(BaseStrategy):
    """Records every callback and lets the system act inside it."""

    def __init__(self, system, ref):
        super().__init__(ref=ref)
        self.system = system

    def on_market_open(self, epic):
        self.system.callback(self, "on_market_open", epic)

    def on_market_close(self, epic):
        self.system.callback(self, "on_market_close", epic)

    def on_every_tick_market_open(self, epic):
        self.system.callback(self, "on_every_tick_market_open", epic)

    def on_every_tick(self, epic):
        self.system.callback(self, "on_every_tick", epic)


def see_trade(t):
    return (t.ref, t.direction.name, t.open_quantity, t.opened_quantities, t.closed_quantities, t.closed, t.open_value, t.current_close_value,
            t.result, t.result_avg, t.opened_result, t.opened_result_avg, t.closed_result, t.closed_result_avg, t.max_result, t.min_result,
            ref.to_us(t.datetime), tuple((c.ref, c.quantity, c.close_value, ref.to_us(c.datetime), c.result, c.result_avg) for c in t.closes))


def see_epic(epic):
    """Everything public about an instrument, as comparable data (identities included)."""
    t = epic.last_tick
    out = [("last_tick", id(t), see_tick(t, "last tick"), t.datetime.isoformat()), ("market", epic.market_open, epic.is_market_open()),
           ("strategies", tuple((k, id(v)) for k, v in epic.strategies.items())),
           ("frame sets", tuple((k, id(v)) for k, v in epic.frame_sets.items()))]
    for name, fs in epic.frame_sets.items():
        for f in fs.frames:
            d = [id(f), id(f.previous_frame), id(f.next_frame), ref.to_us(f.period_start), f.nb_ticks,
                 id(f.first_tick), id(f.last_tick), id(f.high_tick), id(f.low_tick), f.closed, f.period_end and ref.to_us(f.period_end)]
            for k, v in f.indicators.items():
                d.append((k, id(v)))
                if v is not None:
                    for a in ("first_tick", "last_tick", "high_tick", "low_tick"):
                        d.append(id(getattr(v, a)))
                    for a in ("open", "high", "low", "last", "close", "color", "body", "head", "tail", "height", "value", "pivot", "support1",
                              "resistance3"):
                        if hasattr(v, a):
                            d.append((a, getattr(v, a)))
                    if hasattr(v, "get_value"):
                        d.append([v.get_value(p) for p in (1, 2, 3)])
            out.append((name, tuple(map(repr, d))))
    return out


def see_strategy(s):
    return (s.ref, s.stopped, None if s.paused_until is None else ref.to_us(s.paused_until), tuple(map(see_trade, s.trades)),
            tuple(map(id, s.trades)), tuple(s.epics))


def diff(a, b):
    return [(x, y) for x, y in zip(a, b) if x != y] or (len(a), len(b))


BUY, SELL = TradeDirection.BUY, TradeDirection.SELL


class World(FrameSystem):
    """One instrument with frame sets, indicators, recording strategies and trades, all compared with the reference."""

    def __init__(self, cfg):
        super().__init__(dict(cfg, aspects=["frames", "links", "indicators"]))
        self.calls, self.trades, self.raised, self.open = [], [], None, False
        self.names = cfg.get("strategies", ["a", "b"])
        self.strategies = {n: Recorder(self, n) for n in self.names}
        for s in self.strategies.values():
            self.epic.add_strategy(s)

    def other(self, letter):
        op = letter[0]
        if op == "open" and self.n:
            self.trade(letter[1], BUY if letter[2] > 0 else SELL, abs(letter[2]))
        elif op == "close" and self.trades:
            x = self.trades[-1]
            self.epic.close_trade(x["impl"], quantity=letter[1])
            x["open"] -= min(letter[1], x["open"])

    def trade(self, owner, direction, qty):
        """Only one direction per strategy (netting is C21's subject)."""
        if any(x["owner"] == owner and x["dir"] is not direction for x in self.trades):
            return
        impl = self.strategies[owner].open_trade(self.epic, direction=direction, quantity=qty)
        t = self.rtick
        self.trades.append(dict(impl=impl, owner=owner, dir=direction, qty=qty, open=qty, at=t.ask if direction is BUY else t.bid,
                                price=t.bid if direction is BUY else t.ask, us=t.us))

    def callback(self, strategy, kind, epic):
        expect(epic is self.epic, "callback with another instrument")
        self.calls.append((strategy.ref, kind))

    def tick(self, us, bid, ask, tz="UTC", style="datetime"):
        self.take(make_tick(us, bid, ask, tz, style), us, bid, ask)

    def take(self, tick, us, bid, ask):
        self.now = us
        rt = RT(us, bid, ask, self.rcal.is_open(us), self.n)
        self.n += 1
        rt.c = cents(tick.value, "tick value")
        for r in self.rsets.values():
            r.feed(rt)
        self.rtick = rt
        for x in self.trades:
            if x["open"]:
                x["price"] = bid if x["dir"] is BUY else ask
        self.calls.clear()
        self.raised = got = None
        try:
            self.epic.on_new_tick(tick)
        except Mismatch:
            raise
        except Exception as e:
            if self.raised is None:
                raise
            got = e
        expect(got is self.raised, "the callback raised", lambda: repr(self.raised), ", the feeder got", lambda: repr(got))
        kinds = []
        if rt.open != self.open:
            kinds.append("on_market_open" if rt.open else "on_market_close")
        if rt.open:
            kinds.append("on_every_tick_market_open")
        kinds.append("on_every_tick")
        self.open = rt.open
        want = [(n, k) for n in self.names for k in kinds]
        w = f"tick at {ref.local(us, self.tz)}: callbacks"
        if self.raised is None:
            eq(self.calls, want, w)
        else:
            n = want.index(self.raised_at) + 1
            eq(self.calls[:n], want[:n], w, "up to the one that raised")

    def compare(self, final=False):
        if self.n:
            super().compare(final)
            eq(see_tick(self.epic.last_tick, "last tick"), (self.rtick.us, self.rtick.bid, self.rtick.ask), "last tick")
            expect(bool(self.epic.market_open) == self.rtick.open == bool(self.epic.is_market_open()), "market state", self.epic.market_open)
        p = self.epic.trade_provider
        mine = [t for t in p.trades if t.epic is self.epic]
        expect(len(mine) == len(self.trades) and all(a is b["impl"] for a, b in zip(mine, self.trades)), "registered trades", len(mine), "expected", len(self.trades))
        for n, s in self.strategies.items():
            own = [x["impl"] for x in self.trades if x["owner"] == n]
            expect(len(own) == len(s.trades) and all(a is b for a, b in zip(s.trades, own)), "trades of", n)
        for k, x in enumerate(self.trades):
            t = x["impl"]
            eq((cents(t.open_value), t.open_quantity, t.opened_quantities, ref.to_us(t.datetime)), (x["at"], x["qty"], x["open"], x["us"]),
               f"trade {k}: opened at, quantity, still open, time")
            if x["open"]:
                eq(cents(t.current_close_value), x["price"], f"trade {k}: value")

    def key(self):
        return (super().key() if self.n else None), tuple((x["at"], x["open"], x["us"]) for x in self.trades)
