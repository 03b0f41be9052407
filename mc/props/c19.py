from mc.core import Scen, pumped
from mc.trades import TradeSystem as SYSTEM, many as many_orders

LOOKS = (1, 0)
RULE = ("every sequence of close requests (no quantity, 0, 1, 2, exactly all, too much; through trade, instrument or strategy; on open and closed "
        "trades), orders and ticks, to the stated depth; quantities, closed flags and every list of trades compared after every event")
ASSUMPTIONS = ["quantities asked are not negative"]


def scenarios(tier):
    deep = tier == "thorough"
    out = []

    def add(name, lead, letters, depth, strategies=("s",), epics=None):
        out.append(Scen(name, dict(epics=epics or {"A": "P"}, strategies=list(strategies), aspects=["quantities"], lead=lead), letters, depth + deep, system=SYSTEM))

    t0 = ["t", "A", 99, 101]
    reqs = [["close", w, q, via] for w, q, via in (
        (0, None, "epic"), (0, 0, "strategy"), (0, 1, "trade"), (0, 2, "epic"), (0, 3, "strategy"), (0, 99, "trade"), (0, 0, "epic"), (0, None, [104, 0]), (0, 1, [0, 0]),
    )]
    for d in ("BUY", "SELL"):
        add(f"one-{d}", [t0, ["open", "s", "A", d, 3]], reqs + [["t", "A", 104, 105]], 4)
    add("one-unit", [t0, ["open", "s", "A", "BUY", 1]], reqs, 4)
    many = [["open", "s", "A", "BUY", 2], ["open", "s", "A", "SELL", 3], ["open", "r", "A", "SELL", 1], ["close", "new", 1], ["close", "old", None, "strategy"], ["close", "done", 1],
            ["close", "done", None, "strategy"], ["closeall", "s"], ["t", "A", 110, 111]]
    add("several", [t0], many, 5, ["s", "r"])
    add("two-instruments", [t0, ["t", "B", 50, 50]], [["open", "s", "A", "BUY", 2], ["open", "s", "B", "SELL", 2], ["close", "old", 1], ["close", "new", 0], ["close", "new", 5],
                                                     ["closeall", "s"], ["closeall", "s", 1], ["t", "B", 3, 3]], 5, epics={"A": "P", "B": "P"})
    add("two-providers", [t0, ["t", "B", 50, 50]], [["open", "s", "A", "BUY", 2], ["open", "s", "B", "SELL", 2], ["close", "old", 1], ["close", "new", None, "strategy"],
                                                   ["closeall", "s"], ["open", None, "B", "BUY", 1]], 5, epics={"A": "P", "B": "Q"})
    cfg = dict(epics={"A": "P"}, strategies=["s"], aspects=["quantities"], lead=[t0, ["open", "s", "A", "BUY", 100]])
    out.append(Scen("pumped", cfg, words=pumped([["close", 0, 1], ["close", 0, 7, "strategy"], ["close", 0, 0], ["t", "A", 97, 98]], 3 if deep else 2, 130), system=SYSTEM))
    out.append(many_orders(dict(epics={"A": "P"}, strategies=["s"], aspects=["quantities"]), deep=deep))
    return out
