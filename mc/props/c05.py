from mc import ref
from mc.core import Mismatch, Scen, System, pumped
from mc.frames import RT, FrameSystem, cents, eq, expect, make_tick, see_tick
from mc.market import Recorder

from estrade.enums import TradeDirection

S = 1_000_000
H = 3600 * S
RULE = ("every sequence of ticks (same frame, next frame, gaps, market opening and closing) with trading actions executed inside the callbacks of two or "
        "three strategies, to the stated depth; last tick, market state, every frame, indicator value and open trade compared with the reference "
        "inside every callback, then again after the tick")
ASSUMPTIONS = ["a strategy trades in one direction only (netting is C21's subject)"]
INDS = [dict(ref="c", kind="candle"), dict(ref="co", kind="candle", gated=True), dict(ref="h", kind="ha"), dict(ref="s", kind="sma", n=2),
        dict(ref="r", kind="rsi", n=1), dict(ref="p", kind="pivot")]


class SYSTEM(FrameSystem):
    def __init__(self, cfg):
        super().__init__(dict(cfg, aspects=["frames", "indicators"]))
        self.names = cfg.get("strategies", ["buyer", "seller"])
        self.strategies = {n: Recorder(self, n) for n in self.names}
        for s in self.strategies.values():
            self.epic.add_strategy(s)
        self.trades = []  # dict(trade, owner, sign, qty, closed, price, us)
        self.plan = {}
        self.error = None
        self.inside = 0

    def other(self, letter):
        # ["do", strategy, callback, action...]: to be done in that callback at the next tick it happens
        self.plan[(letter[1], letter[2])] = letter[3:]

    def tick(self, us, bid, ask, tz="UTC", style="datetime"):
        tick = make_tick(us, bid, ask, tz, style)
        self.now = us
        rt = RT(us, bid, ask, self.rcal.is_open(us), self.n)
        self.n += 1
        rt.c = cents(tick.value)
        for r in self.rsets.values():
            r.feed(rt)
        self.rtick, self.given, self.inside = rt, tick, 0
        self.epic.on_new_tick(tick)
        if self.error:
            raise self.error
        expect(self.inside >= len(self.names), "strategies were not called")

    def callback(self, strategy, kind, epic):
        self.inside += 1
        try:
            w = f"inside {kind} of {strategy.ref}:"
            expect(epic is self.epic and epic.last_tick is self.given, w, "last tick is", lambda: epic.last_tick)
            eq(see_tick(epic.last_tick, w), (self.rtick.us, self.rtick.bid, self.rtick.ask), w, "last tick")
            expect(bool(epic.market_open) == self.rtick.open == bool(epic.is_market_open()), w, "market state", epic.market_open)
            try:
                FrameSystem.compare(self)
                self.see_trades()
                act = self.plan.pop((strategy.ref, kind), None)
                if act:
                    self.act(strategy, *act)
                    self.see_trades()
            except Mismatch as e:
                raise Mismatch(f"{w} {e}")
        except Mismatch as e:
            self.error = self.error or e
            raise

    def act(self, strategy, op, *args):
        t = self.rtick
        mine = [x for x in self.trades if x["owner"] == strategy.ref and x["closed"] < x["qty"]]
        sign = -1 if strategy.ref.startswith("s") else 1
        if op == "open":
            trade = strategy.open_trade(self.epic, direction=TradeDirection.BUY if sign > 0 else TradeDirection.SELL, quantity=args[0])
            self.trades.append(dict(trade=trade, owner=strategy.ref, sign=sign, qty=args[0], closed=0, price=t.ask if sign > 0 else t.bid, us=t.us,
                                    closes=[]))
        elif op == "close" and mine:
            x = mine[-1]
            close = strategy.close_trade(x["trade"], quantity=args[0])
            q = min(args[0], x["qty"] - x["closed"])
            x["closed"] += q
            x["closes"].append((q, t.bid if x["sign"] > 0 else t.ask, t.us))
        elif op == "closeall":
            strategy.close_opened_trades()
            for x in mine:
                x["closes"].append((x["qty"] - x["closed"], t.bid if x["sign"] > 0 else t.ask, t.us))
                x["closed"] = x["qty"]

    def see_trades(self):
        want = [x for x in reversed(self.trades) if x["closed"] < x["qty"]]
        got = self.epic.trade_provider.opened_trades
        expect(len(got) == len(want) and all(a is b["trade"] for a, b in zip(got, want)), f"{len(got)} open trades, expected {len(want)}")
        for n, s in self.strategies.items():
            mine = [x for x in self.trades if x["owner"] == n]
            seen = list(s.get_trades())
            expect(len(seen) == len(mine) and all(a is b["trade"] for a, b in zip(reversed(seen), mine)), "trades of", n)
        for k, x in enumerate(self.trades):
            t = x["trade"]
            w = f"trade {k}"
            eq((cents(t.open_value), ref.to_us(t.datetime)), (x["price"], x["us"]), w, "open price and time")
            eq([(c.quantity, cents(c.close_value), ref.to_us(c.datetime)) for c in t.closes], x["closes"], w, "closes")
            if x["closed"] < x["qty"]:
                v = self.rtick.bid if x["sign"] > 0 else self.rtick.ask
                eq(cents(t.current_close_value), v, w, "value")
                eq(cents(t.opened_result), x["sign"] * (v - x["price"]) * (x["qty"] - x["closed"]), w, "open result")

    def compare(self, final=False):
        if self.n:
            super().compare(final)
            self.see_trades()

    def key(self):
        return (super().key(), str(self.plan), tuple((x["price"], x["closed"], x["us"]) for x in self.trades)) if self.n else str(self.plan)


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    cfg = dict(base=ref.at("2020-01-06 09:00:00"), cal={}, tz="UTC",
               sets=[dict(ref="m", unit="HOUR", q=1, max=3, inds=INDS), dict(ref="t", unit="TICK", q=2, max=3, inds=INDS[:2])])
    ticks = [["t", H // 8, 100, 102], ["next", 1, 0, 97, 99], ["clock", "09:30:00", 0, 110, 112], ["clock", "18:00:00", 0, 108, 114],
             ["clock", "17:30:00", 0, 130, 130]]
    out.append(Scen("observe", cfg, ticks + [["t", 0, 104, 105], ["next", 3, 1, 90, 93]], 4 + deep, system=SYSTEM))
    cfg = dict(cfg, sets=[dict(ref="m", unit="HOUR", q=1, max=2, inds=INDS[:1]), dict(ref="t", unit="TICK", q=2, max=2)])
    acts = [["do", "buyer", "on_every_tick", "open", 2], ["do", "seller", "on_every_tick", "open", 3], ["do", "buyer", "on_every_tick", "close", 1],
            ["do", "seller", "on_every_tick", "closeall"]]
    out.append(Scen("trade-every-tick", cfg, ticks[:3] + [["t", 0, 104, 105]] + acts, 5 if deep else 4, system=SYSTEM))
    for kind in ("on_market_open", "on_every_tick_market_open", "on_market_close"):
        a = [["do", "buyer", kind, "open", 2], ["do", "buyer", kind, "close", 5], ["do", "seller", "on_every_tick", "open", 1]]
        out.append(Scen(kind, cfg, ticks[1:4] + a, 5 if deep or "every" not in kind else 4, system=SYSTEM))
    out.append(Scen("three", dict(cfg, strategies=["buyer", "seller", "b3"]), ticks[1:3] + [
        ["do", "buyer", "on_every_tick", "open", 2], ["do", "b3", "on_every_tick", "open", 1], ["do", "seller", "on_every_tick_market_open", "open", 4],
        ["do", "b3", "on_every_tick_market_open", "closeall"]], 5, system=SYSTEM))
    out.append(Scen("pumped", cfg, words=pumped(ticks[:3] + [acts[0], acts[2], acts[3]], 2, 90), system=SYSTEM))
    return out
