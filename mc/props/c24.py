from fractions import Fraction

import arrow

from mc import ref
from mc.core import Mismatch, Scen, pumped
from mc.frames import cents, eq, expect, near, rounded
from mc.trades import S, TradeSystem, many

LOOKS = (1, 0)
RULE = ("every sequence of ticks, orders and closes on one or two instruments by one or two strategies, to the stated depth; after every event every "
        "combination of filters (no / each / all / no instrument x open only x after no instant / every instant around every opening, in several "
        "zones) is listed, and result and profit factor of every list (also as generator, empty, and by default) compared with the ledger")
ASSUMPTIONS = ["prices are amounts to the cent", "the instant filter is compared only for trades opened in chronological order (as in the statement)"]


class SYSTEM(TradeSystem):
    def cmp_stats(self):
        for s, strategy in self.strategies.items():
            mine = [t for t in reversed(self.ledger) if t.owner == s]
            self.sums(strategy, None, mine, f"{s}, all trades")
            self.sums(strategy, [], [], f"{s}, no trade")
            names = list(self.epics)
            chrono = all(a.us >= b.us for a, b in zip(mine, mine[1:]))
            instants = [None]
            if chrono:
                for us in sorted({t.us for t in mine}):
                    instants += [us - 1, us, us + 1]
            for sel in [None, []] + [[e] for e in names] + ([names, names[::-1]] if len(names) > 1 else []):
                epics = None if sel is None else [self.epics[e] for e in sel]
                for open_only in (False, True):
                    for k, us in enumerate(instants):
                        want = [t for t in mine if (sel is None or t.epic in sel) and (not open_only or t.open_qty) and (us is None or t.us >= us)]
                        kw = {}
                        if epics is not None:
                            kw["epics"] = epics
                        if open_only or k % 2:
                            kw["open_only"] = open_only
                        if us is not None:
                            kw["only_after"] = arrow.get(ref.from_us(us)).to(("UTC", "Asia/Tokyo", "America/New_York")[k % 3])
                        w = f"{s}: trades of {sel}, open only {open_only}, after {us and ref.from_us(us)}"
                        got = list(strategy.get_trades(**kw))
                        expect(len(got) == len(want) and all(a is b.impl for a, b in zip(got, want)), w,
                               lambda: f": {[g.ref for g in got]}, expected {['T%d' % t.n for t in want]}")
                        if k < 2 or k + 1 == len(instants):
                            self.sums(strategy, got, want, w)
                            self.sums(strategy, lambda: strategy.get_trades(**kw), want, w + " (generator)")

    def sums(self, strategy, trades, want, w):
        args = lambda: () if trades is None else (trades() if callable(trades) else list(trades),)
        near(strategy.result(*args()), sum(t.result for t in want), w, "result")
        gains = sum(t.result for t in want if t.result > 0)
        losses = -sum(t.result for t in want if t.result < 0)
        got = strategy.profit_factor(*args())
        if losses == 0:
            near(got, gains, w, "profit factor")
        else:
            rounded(got, Fraction(gains, max(losses, 100)) * 100, w, "profit factor")


def scenarios(tier):
    deep = tier == "thorough"
    out = []

    def add(name, lead, letters, depth, epics=None, strategies=("s",), tz=None, **kw):
        cfg = dict(epics=epics or {"A": "P"}, strategies=list(strategies), aspects=["stats"], lead=lead, tz=tz or {}, **kw)
        out.append(Scen(name, cfg, letters, depth + deep, system=SYSTEM))

    a, b = ["t", "A", 100, 100], ["t", "B", 50, 50]
    o = lambda s, e, d, q: ["open", s, e, d, q]
    add("one", [a], [["t", "A", 130, 131], ["t", "A", 60, 61, 0], ["t", "A", 700, 702], o("s", "A", "BUY", 1), o("s", "A", "BUY", 3), ["close", "new", 1], ["close", "old", None],
                     o("s", "A", "SELL", 2)], 4)
    add("one-long", [a], [["t", "A", 130, 131], ["t", "A", 60, 61], o("s", "A", "BUY", 2), ["close", "old", None, "strategy"]], 6)
    add("two-instruments", [a, b], [["t", "A", 145, 146], ["t", "B", 20, 21], o("s", "A", "BUY", 1), o("s", "B", "SELL", 2), ["close", "new", None], ["close", "old", 1]], 5,
        epics={"A": "P", "B": "P"})
    add("two-strategies", [a, b], [["t", "A", 145, 146], o("s", "A", "BUY", 1), o("r", "A", "SELL", 2), o("r", "B", "BUY", 1), o(None, "A", "BUY", 1), ["closeall", "r"]], 4,
        epics={"A": "P", "B": "Q"}, strategies=("s", "r"))
    add("same-references", [a, b], [["t", "A", 145, 146], o("s", "A", "BUY", 1), o("r", "A", "SELL", 2), o("s", "B", "SELL", 1), o("r", "B", "BUY", 1), ["close", "old", None]], 4,
        epics={"A": "P", "B": "Q"}, strategies=("s", "r"), refs={"A": "E", "B": "E", "s": "S", "r": "S"}, trade_ref="T")
    for names in ([], ["r"], ["s@A", "r@B"]):
        add(f"unattached-{len(names)}", [a, b], [["t", "A", 145, 146], o("s", "A", "BUY", 1), o("r", "B", "SELL", 2), ["close", "new", None], ["closeall", "s"]], 4,
            epics={"A": "P", "B": "P"}, strategies=("s", "r"), attached=names)
    add("repeated-hour", [["t", "A", 100, 100, ref.at("2020-11-01 05:40:00") - ref.at("2020-01-06 10:00:00")]],
        [["t", "A", 145, 146, 1800 * S], ["t", "A", 90, 92, 3600 * S], o("s", "A", "BUY", 1), ["close", "new", None]], 6, tz={"A": "America/New_York"})
    out.append(many(dict(epics={"A": "P"}, strategies=["s"], aspects=["stats"]), SYSTEM, looks=(43, 0)))
    return out
