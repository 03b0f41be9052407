from mc.core import Scen, pumped
from mc.trades import TradeSystem as SYSTEM, many

LOOKS = (1, 0)
RULE = ("every sequence of ticks (rising, falling, crossing the open price), orders in both directions (so that trades are opened, reduced and closed by "
        "netting), partial and full closes at market, to the stated depth; maximum and minimum result compared with the extremes of every result "
        "shown so far, after every event")
ASSUMPTIONS = ["nothing but market ticks and closes at market (as in the statement)"]


def scenarios(tier):
    deep = tier == "thorough"
    out = []

    def add(name, lead, letters, depth, epics=None, strategies=("s",)):
        out.append(Scen(name, dict(epics=epics or {"A": "P"}, strategies=list(strategies), aspects=["extremes"], lead=lead), letters, depth + deep, system=SYSTEM))

    t0 = ["t", "A", 99, 101]
    ticks = [["t", "A", 107, 109], ["t", "A", 90, 92], ["t", "A", 100, 100], ["t", "A", -20, -20]]
    tie = ["t", "A", 120, 121, 0]  # at the same instant as the tick before
    for d in ("BUY", "SELL"):
        add(f"one-{d}", [t0, ["open", "s", "A", d, 4]], ticks + [tie, ["close", "new", 1], ["close", "new", 2, "strategy"], ["close", "new", None]], 5)
    orders = [["open", "s", "A", "BUY", 3], ["open", "s", "A", "SELL", 2], ["open", "s", "A", "SELL", 4]]
    add("netting", [t0], ticks[:3] + orders + [["close", "new", 1]], 5)
    add("netting-zero-spread", [["t", "A", 0, 0]], [ticks[0], ticks[3], ["t", "A", 0, 0]] + orders, 5)
    add("two-strategies", [t0], ticks[:2] + orders[:2] + [["open", "r", "A", "BUY", 1], ["open", None, "A", "SELL", 2], ["closeall", "s"]], 5, strategies=("s", "r"))
    add("two-instruments", [t0, ["t", "B", 999, 1001]], ticks[:2] + [["t", "B", 1005, 1010], ["t", "B", 900, 901]] + orders[:2] + [["open", "s", "B", "BUY", 1]], 5,
        epics={"A": "P", "B": "P"})
    cfg = dict(epics={"A": "P"}, strategies=["s"], aspects=["extremes"])
    hours = [["clock", "A", "12:00:00", 104, 106], ["clock", "A", "20:00:00", 93, 95], ["clock", "A", "21:00:00", 110, 115], ["clock", "A", "22:00:00", 80, 81]]
    for d in ("BUY", "SELL"):
        out.append(Scen(f"market-hours-{d}", dict(cfg, cal={}, lead=[["clock", "A", "10:00:00", 99, 101], ["open", "s", "A", d, 3]]),
                        hours + [["close", "new", 1]], 5 + deep, system=SYSTEM))
    for d in ("BUY", "SELL"):
        out.append(Scen(f"pumped-{d}", dict(cfg, lead=[t0, ["open", "s", "A", d, 60]]), words=pumped(ticks[:3] + [["close", 0, 1]], 3 if deep else 2, 70), system=SYSTEM))
    out.append(many(dict(epics={"A": "P"}, strategies=["s"], aspects=["extremes"]), deep=deep))
    return out
