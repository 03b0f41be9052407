from mc import ref
from mc.core import Scen, pumped
from mc.frames import FrameSystem as SYSTEM

S = 1_000_000
LOOKS = (1, 2, 0)
RULE = ("every sequence of the alphabet (same frame, next frame, gap; rising, falling, zero and negative prices) to the stated depth, declared "
        "maxima 1-5 and 30/99/130 (pumped), frame memories of 2, 3, 50, 100; the average over every period length from 1 to beyond the maximum "
        "of every kept frame compared after every tick")
ASSUMPTIONS = ["a mean exactly between two cents may be rounded either way"]


def sma(*ns):
    return [dict(ref=f"s{n}", kind="sma", n=n) for n in ns]


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    same = [["t", S, a, b] for a, b in ((100, 102), (-310, -308), (0, 0), (555, 555))]
    nxt = [["next", 1, 0, a, b] for a, b in ((0, 0), (120, 160), (903, 905))]
    gap = [["next", 3, 1, 50, 52]]

    def add(name, letters, depth, unit="MINUTE", q=1, base="2020-01-06 09:58:30", inds=(), max=50, **kw):
        cfg = dict(sets=[dict(ref="fs", unit=unit, q=q, max=max, inds=list(inds))], base=ref.at(base), tz="UTC", aspects=["indicators"], **kw)
        out.append(Scen(name, cfg, letters, depth + deep, system=SYSTEM))

    add("minute", same + nxt + gap, 4, inds=sma(1, 2, 3, 4))
    add("long", [same[0], nxt[0], nxt[1], gap[0]], 6, inds=sma(1, 3, 5))
    for m in (2, 3):
        add(f"window-{m}", [same[0], same[1], nxt[0], nxt[2], gap[0]], 5, inds=sma(1, 2, 4, 6), max=m)
    add("ticks-1", same, 6, "TICK", max=2, inds=sma(2, 3, 4))
    add("ticks-2", same, 6, "TICK", 2, max=3, inds=sma(2, 3))
    hours = [["clock", "09:00:00", 0, -100, -98], ["clock", "10:00:00", 0, 0, 0], ["clock", "12:00:00", 0, 50, 52],
             ["clock", "18:00:00", 0, 90, 92], ["clock", "12:00:00", 2, 300, 310]]
    add("market-hours", hours, 5, "DAY", cal=dict(), base="2020-01-06 05:00:00",
        inds=[dict(i, ref=i["ref"] + "o", gated=True) for i in sma(1, 2, 3)] + sma(2, 3))
    # indicators added between two ticks
    adds = [["add", "fs", i] for i in sma(1, 3, 4)]
    add("added", [same[0], same[3], nxt[0], gap[0]] + adds, 5)
    add("added-window-2", [same[1], nxt[1], gap[0]] + adds[1:], 6, max=2, inds=sma(2))
    add("added-hours", hours[1:] + [["add", "fs", dict(i[2], gated=True)] for i in adds[1:2]], 5, "DAY", cal=dict(), base="2020-01-06 05:00:00")
    for m, n, total in ((2, 30, 90), (100, 99, 230), (100, 130, 330)):
        cfg = dict(sets=[dict(ref="fs", unit="MINUTE", q=1, max=m, inds=sma(n, 2))], base=ref.at("2020-01-06 09:58:30"), tz="UTC",
                   aspects=["indicators"], sparse=True)
        out.append(Scen(f"pumped-{m}-{n}", cfg, words=pumped([same[0], nxt[0], nxt[2], ["next", 2, 1, 50, 52]], 3 if deep else 2, total),
                        system=SYSTEM))
    return out
