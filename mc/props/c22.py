from mc.core import Scen
from mc.trades import TradeSystem as SYSTEM, many

LOOKS = (1, 0)
RULE = ("every interleaving of ticks, orders and closes on two or three instruments sharing a provider, a strategy, both or neither, to the stated "
        "depth; each trade's open, current and close prices, times and results compared with a ledger that only knows its own instrument")
ASSUMPTIONS = ["prices are amounts to the cent"]


def scenarios(tier):
    deep = tier == "thorough"
    out = []

    def add(name, letters, depth, epics, strategies=("s",), lead=None, tz=None, aspects=[], **kw):
        lead = lead or [["t", e, 100 * (k + 1), 100 * (k + 1) + 2] for k, e in enumerate(epics)]
        cfg = dict(epics=epics, strategies=list(strategies), aspects=["figures"] + aspects, lead=lead, tz=tz or {}, **kw)
        out.append(Scen(name, cfg, letters, depth + deep, system=SYSTEM))

    o = lambda s, e, d, q, *via: ["open", s, e, d, q, *via]
    ticks = [["t", "A", 107, 109], ["t", "B", 190, 195], ["t", "B", 0, 0], ["t", "B", -5, 0]]
    ev = ticks + [o("s", "A", "BUY", 2), o("s", "B", "SELL", 3), o("s", "A", "SELL", 1), ["close", "new", 1], ["closeall", "s"]]
    add("shared-provider", ev, 5, {"A": "P", "B": "P"})
    ev.append(["t", "A", 90, 95, 0])
    add("own-providers", ev, 4, {"A": "P", "B": "Q"})
    add("two-strategies", ticks[:2] + [o("s", "A", "BUY", 2), o("r", "B", "BUY", 3), o("r", "A", "SELL", 1, "epic"), o(None, "B", "SELL", 2), ["close", "old", None, "strategy"]], 5,
        {"A": "P", "B": "P"}, ("s", "r"))
    add("three", ticks[:2] + [["t", "C", -5, 5], o("s", "A", "BUY", 1), o("s", "B", "BUY", 1), o("s", "C", "SELL", 1), ["close", "old", 1, "trade"]], 5,
        {"A": "P", "B": "P", "C": "P"})
    ev = ticks[:2] + [o("s", "A", "BUY", 2), o("s", "B", "SELL", 3), o("r", "A", "SELL", 1), ["close", "new", 1, "other"], ["close", "old", None, "other"], ["refresh", "new"], ["update", "old", 77]]
    add("through-another", ev, 4, {"A": "P", "B": "P"}, ("s", "r"))
    for names in ([], ["s"], ["s@A", "r@B"]):
        add(f"unattached-{len(names)}", ev[:-1], 4, {"A": "P", "B": "Q"}, ("s", "r"), attached=names)
    add("zones", ticks[:2] + [o("s", "A", "BUY", 2), o("s", "B", "SELL", 2), ["close", "new", 1]], 5, {"A": "P", "B": "P"}, tz={"A": "America/New_York", "B": "Asia/Tokyo"})
    hours = [["clock", "A", "12:00:00", 104, 106], ["clock", "A", "20:00:00", 93, 95], ["clock", "B", "12:00:00", 204, 206], ["clock", "B", "20:00:00", 193, 195]]
    add("market-hours", hours + [o("s", "A", "BUY", 2), o("s", "B", "SELL", 2), ["close", "new", 1]], 5, {"A": "P", "B": "P"}, cal={})
    add("late-instrument", ticks[:2] + [o("s", "A", "BUY", 2), o("s", "B", "SELL", 2), ["close", "new", 1]], 5, {"A": "P", "B": "P"}, lead=[["t", "A", 100, 102]])
    # instruments (of two brokers), strategies and trades that happen to have the same references
    same = dict(refs={"A": "E", "B": "E", "s": "S", "r": "S"}, trade_ref="T")
    ev = ticks[:2] + [o("s", "A", "BUY", 2), o("s", "B", "SELL", 2), o("r", "B", "BUY", 1), o("r", "A", "SELL", 3, "epic"), ["close", "old", 1, "strategy"], ["closeall", "s"]]
    for k, epics in enumerate(({"A": "P", "B": "P"}, {"A": "P", "B": "Q"})):
        add(f"same-references-{k}", ev, 4, epics, ("s", "r"), aspects=["requests"][:k], **same)
    letters = [["open", "s", "A", "BUY", 1], ["open", "s", "B", "SELL", 2], ["close", "old", None], ["t", "B", 190, 195], ["t", "A", 104, 106]]
    out.append(many(dict(epics={"A": "P", "B": "P"}, strategies=["s"], aspects=["figures"]), letters=letters, deep=deep))
    return out
