from mc.core import Scen, pumped
from mc.trades import TradeSystem as SYSTEM, many

LOOKS = (1, 0)
RULE = ("every sequence of orders in both directions and several quantities by two strategies and by none, on one or two instruments with a shared or "
        "own backtest provider, with closes and ticks in between, to the stated depth; registered trades, quantities, closes and signed position "
        "compared after every event")
ASSUMPTIONS = ["positive integer quantities", "orders without a strategy count as one strategy's"]


def scenarios(tier):
    deep = tier == "thorough"
    out = []

    def add(name, lead, letters, depth, epics=None, strategies=("s",), **kw):
        out.append(Scen(name, dict(epics=epics or {"A": "P"}, strategies=list(strategies), aspects=["netting"], lead=lead, **kw), letters, depth + deep, system=SYSTEM))

    a, b = ["t", "A", 99, 101], ["t", "B", 50, 52]
    o = lambda s, e, d, q, *via: ["open", s, e, d, q, *via]
    add("one", [a], [o("s", "A", "BUY", 1), o("s", "A", "BUY", 3), o("s", "A", "SELL", 1), o("s", "A", "SELL", 2, "epic"), o("s", "A", "SELL", 5), ["t", "A", 105, 106]], 6)
    add("one-closes", [a], [o("s", "A", "BUY", 2), o("s", "A", "SELL", 3), ["close", "new", 1], ["close", "old", None, "strategy"], ["close", "new", 9],
                            ["t", "A", 105, 106], ["closeall", "s"]], 5)
    add("two-strategies", [a], [o("s", "A", "BUY", 2), o("s", "A", "SELL", 3), o("r", "A", "BUY", 1), o("r", "A", "SELL", 2), o(None, "A", "BUY", 1), o(None, "A", "SELL", 2),
                                ["close", "new", 1]], 5, strategies=("s", "r"))
    two = [o("s", "A", "BUY", 2), o("s", "A", "SELL", 3), o("s", "B", "BUY", 1), o("s", "B", "SELL", 4), ["close", "new", 1], ["t", "A", 105, 106], ["t", "B", 40, 49]]
    add("two-instruments", [a, b], two, 5, epics={"A": "P", "B": "P"})
    add("two-providers", [a, b], two, 4, epics={"A": "P", "B": "Q"})
    add("two-by-two", [a, b], [o("s", "A", "BUY", 2), o("s", "B", "SELL", 3), o("r", "A", "SELL", 3), o("r", "B", "BUY", 1), o("s", "A", "SELL", 1), o("r", "A", "BUY", 5), ["closeall", "s"]],
        5, epics={"A": "P", "B": "P"}, strategies=("s", "r"))
    # instruments, strategies and trades that happen to have the same references
    same = dict(refs={"A": "E", "B": "E", "s": "S", "r": "S"}, trade_ref="T")
    for k, epics in enumerate(({"A": "P", "B": "P"}, {"A": "P", "B": "Q"})):
        add(f"same-references-{k}", [a, b], [o("s", "A", "BUY", 2), o("s", "B", "SELL", 3), o("r", "A", "SELL", 3), o("r", "B", "BUY", 1), o("s", "A", "SELL", 1), ["close", "old", 1], ["closeall", "s", 1]],
            4, epics=epics, strategies=("s", "r"), **same)
    out.append(Scen("market-hours", dict(epics={"A": "P"}, strategies=["s"], aspects=["netting"], cal={}, lead=[["clock", "A", "10:00:00", 99, 101]]),
                    [["clock", "A", "12:00:00", 104, 106], ["clock", "A", "20:00:00", 93, 95], ["clock", "A", "21:00:00", 110, 115], o("s", "A", "BUY", 2), o("s", "A", "SELL", 3),
                     ["close", "new", 1]], 5, system=SYSTEM))
    pump = [o("s", "A", "BUY", 1), o("s", "A", "SELL", 1), o("s", "A", "SELL", 7), o("s", "A", "BUY", 3), ["close", "old", 1]]
    cfg = dict(epics={"A": "P"}, strategies=["s"], aspects=["netting"], lead=[a])
    out.append(Scen("pumped", cfg, words=pumped(pump, 3 if deep else 2, 60), system=SYSTEM))
    out.append(many(dict(epics={"A": "P"}, strategies=["s"], aspects=["netting"]), deep=deep))
    return out
