import time

from mc.core import Scen
from mc.frames import eq, expect, near
from mc.trades import TradeSystem, many

from estrade.enums import TransactionStatus

RULE = ("every sequence of orders and closes (through the strategy, the instrument, the trade, close-all or a hand-made trade; with and without "
        "reference, metadata, status), of notes left in their metadata and of ticks, to the stated depth, with backtest and live providers and with "
        "strategies and providers that are falsy; everything each trade and close carries compared with what it was given after every event")
ASSUMPTIONS = ["one metadata dictionary is not given to several orders"]


class SYSTEM(TradeSystem):
    def do_note(self, which, what):
        """Leave a note in the metadata of a trade and of its last close."""
        t = self.pick(which)
        if t is None:
            return
        t.impl.meta["note"] = what
        t.given = dict(t.given, meta=dict(t.given.get("meta", {}), note=what))
        closes = [c for c in t.impl.closes if c.quantity]
        if closes:
            closes[-1].meta["seen"] = what
            t.given_closes[-1] = dict(t.given_closes[-1], meta=dict(t.given_closes[-1].get("meta", {}), seen=what))

    def cmp_orders(self):
        for p in self.providers.values():
            while p.is_alive:
                time.sleep(0)
        for e, now in self.market.items():
            eq(self.epics[e].last_tick.meta, {"feed": now[2]}, f"metadata of the last tick of {e}")
        registered = {id(t) for t in self.ledger}
        for t in self.all:
            w = f"trade {t.n}"
            self.cmp_given(t.impl, t.given, w, id(t) in registered)
            closes = [c for c in t.impl.closes if c.quantity]
            eq(len(closes), len(t.given_closes), w, "closes")
            for k, (c, given) in enumerate(zip(closes, t.given_closes)):
                expect(c.trade is t.impl, w, "close of another trade")
                self.cmp_given(c, given, f"{w} close {k}", True)
            expect(t.impl.epic is self.epics[t.epic] and t.impl.strategy is self.strategies.get(t.owner), w, "instrument, strategy")
            d = t.impl.asdict()
            eq((d["ref"], d["epic"], d["strategy"], d["status"]),
               (t.impl.ref, self.epics[t.epic].ref, self.strategies[t.owner].ref if t.owner else "undefined", t.impl.status), w, "asdict")
            if t.open_qty:
                near(t.impl.result, t.result, w, "result")

    def cmp_given(self, x, given, w, requested):
        if given.get("ref"):
            eq(x.ref, given["ref"], w, "ref")
        else:
            expect(isinstance(x.ref, str) and x.ref, w, "ref", repr(x.ref))
            expect(self.autos.setdefault(id(x), x.ref) == x.ref, w, "its reference changed")
        eq(x.meta, given.get("meta", {}), w, "meta")
        if requested and self.cfg.get("base") is None and id(x) not in self.direct:
            eq(x.status, TransactionStatus.CONFIRMED, w, "status")
        else:
            eq(x.status, TransactionStatus[given.get("status", "CREATED")], w, "status")

    def __init__(self, cfg):
        self.autos = {}
        self.direct = set()  # closes made on the trade, never requested from the provider
        super().__init__(cfg)

    def do_close(self, which, qty, via="epic", given=None):
        t = self.pick(which)
        before = len(t.impl.closes) if t else 0
        super().do_close(which, qty, via, given)
        if t and via == "trade":
            self.direct |= {id(c) for c in t.impl.closes[before:]}


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    g1 = dict(ref="mine", meta={"k": [1]}, status="PENDING")
    g2 = dict(meta={"id": 7})
    g3 = dict(ref="c", status="REQUIRED")
    o = lambda s, e, d, q, via="strategy", given=None: ["open", s, e, d, q, via, {} if given is None else given]
    ticks = [["t", "A", 107, 109], ["t", "B", 190, 195]]
    opens = [o("s", "A", "BUY", 3, "strategy", g1), o("s", "B", "SELL", 2), o("r", "A", "SELL", 2, "epic", g2), o(None, "A", "BUY", 1, "epic", g3), o("s", "A", "SELL", 1, "manual", g2)]
    closes = [["close", "new", 1, "epic", g1], ["close", "old", None, "strategy", g2], ["close", "old", 1, "trade", g3], ["closeall", "s", 1, g3], ["closeall", "s", None, {}],
              ["note", "new", "hello"]]
    for base in (None, "base"):
        for soft in (False, True):
            name = f"{base or 'backtest'}{'-falsy' if soft else ''}"
            cfg = dict(epics={"A": "P", "B": "Q"}, strategies=["s", "r"], aspects=["orders", "lists", "quantities"], falsy=soft,
                       lead=[["t", "A", 100, 102], ["t", "B", 200, 202]])
            if base:
                cfg["base"] = base
            ev = opens + closes + ([] if soft else ticks[:1])
            if soft:  # no notes: the closes of one close-all share the metadata they were given
                ev = opens + closes[:-1] + [["closeall", "s", 2, g2]]
            out.append(Scen(name, cfg, ev, (3 if soft else 4) + deep, system=SYSTEM))
    # one strategy on instruments of two brokers that have the same reference
    cfg = dict(epics={"A": "P", "B": "Q"}, strategies=["s", "r"], aspects=["orders", "requests"], lead=[["t", "A", 100, 102], ["t", "B", 200, 202]],
               refs={"A": "E", "B": "E", "P": "X", "Q": "X", "s": "S", "r": "S"})
    out.append(Scen("same-references", cfg, [o("s", "A", "BUY", 3), o("s", "B", "BUY", 2), o("r", "B", "SELL", 1, "epic", g2)] + closes[:2] + closes[3:5], 4 + deep, system=SYSTEM))
    out.append(many(dict(epics={"A": "P"}, strategies=["s"], aspects=["orders", "lists"]), SYSTEM, deep=deep))
    return out
