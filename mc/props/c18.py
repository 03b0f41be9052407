from mc.core import Scen, pumped
from mc.trades import TradeSystem as SYSTEM, many

LOOKS = (1, 0)
RULE = ("every sequence of ticks (zero, negative, positive prices, with and without spread), orders, partial / full / excessive closes at market or at a "
        "given price, and direct revaluations, to the stated depth; every figure of every trade and close and asdict() compared with integer "
        "cents after every event")
ASSUMPTIONS = ["prices are amounts to the cent, quantities are positive integers", "the price of a close of nothing is left unspecified"]


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    one = dict(epics={"A": "P"}, strategies=["s"], aspects=["figures"])

    def add(name, lead, letters, depth, **kw):
        out.append(Scen(name, dict(one, lead=lead, **kw), letters, depth + deep, system=SYSTEM))

    tie = ["t", "A", 120, 121, 0]  # at the same instant as the tick before
    ticks = [["t", "A", 100, 102], ["t", "A", 0, 0], ["t", "A", -305, -300], ["t", "A", 107, 107]]
    closes = [["close", "new", 1], ["close", "new", None, "strategy"], ["close", "old", 2, "trade"]]
    for d in ("BUY", "SELL"):
        for lead in (["t", "A", 99, 101], ["t", "A", -1, 0], ["t", "A", 0, 2]):
            add(f"one-{d}-{lead[2]}", [lead, ["open", "s", "A", d, 4]], ticks + closes + [["close", "done", 1]], 5 if lead[2] == 99 else 4)
    add("orders", [["t", "A", 99, 101]],
        [["t", "A", 100, 102], ["t", "A", -4, 0], ["open", "s", "A", "BUY", 3], ["open", "s", "A", "SELL", 2], ["open", None, "A", "SELL", 1], closes[0], closes[2], tie], 5)
    add("direct", [["t", "A", 99, 101], ["open", "s", "A", "BUY", 5]],
        [["close", "new", 2, [333, 5_000_000]], ["close", "new", None, [-40, 1]], ["close", "new", 1, [0, 0]], ["update", "new", 150], ["update", 0, 0],
         ["t", "A", 103, 107], ["close", "new", 1], ["close", 0, 9, [55, 0]]], 5)
    add("direct-sell", [["t", "A", 99, 101], ["open", "s", "A", "SELL", 5]],
        [["close", "new", 2, [333, 5_000_000]], ["close", "new", 1, [0, 0]], ["update", "new", 150], ["update", 0, 0], ["t", "A", 103, 107], ["close", "new", None]], 5)
    for k, (d, r) in enumerate((("BUY", "SELL"), ("SELL", "BUY"))):
        add(f"given-{d}", [["t", "A", 99, 101]],
            [["open", "s", "A", d, 3, [88 + 30 * k]], ["open", "s", "A", d, 2, [100, 120]], ["open", "s", "A", r, 1, [-10, 0]], ["close", "new", 1, ["tick", 55, 58, 3]],
             ["close", "old", None, ["tick", 130, 133, 0]], ["refresh", "new"], ["refresh", 0], ["t", "A", 103, 107], ["update", "new", 3]], 4)
    add("odd-amounts", [["t", "A", 99, 101]], [["t", "A", 1234567, 1234569], ["t", "A", 3333, 3337], ["open", "s", "A", "BUY", 7], ["open", "s", "A", "SELL", 1000003],
                                               ["close", "new", 3], ["close", "new", None]], 5)
    add("zone", [["t", "A", 99, 101, 50_000_000_000]], [["t", "A", 100, 102, 86_400_000_000 * 100 + 17], ["open", "s", "A", "BUY", 3], ["close", "new", 1],
                                                     ["open", "s", "A", "SELL", 2]], 5, tz={"A": "America/New_York"})
    hours = [["clock", "A", "12:00:00", 104, 106], ["clock", "A", "20:00:00", 93, 95], ["clock", "A", "21:00:00", 110, 115]]
    for d in ("BUY", "SELL"):
        add(f"market-hours-{d}", [["clock", "A", "10:00:00", 99, 101], ["open", "s", "A", d, 3]], hours + [["close", "new", 1], ["open", "s", "A", d, 2]], 5, cal={})
    letters = [["t", "A", 103, 105], ["t", "A", 95, 98], ["close", "new", 1], ["close", "new", 3, "strategy"]]
    for d in ("BUY", "SELL"):
        out.append(Scen(f"pumped-{d}", dict(one, lead=[["t", "A", 99, 101], ["open", "s", "A", d, 150]]), words=pumped(letters, 3 if deep else 2, 120),
                        system=SYSTEM))
    out.append(many(dict(epics={"A": "P"}, strategies=["s"], aspects=["figures", "lists"]), deep=deep))
    return out
