from mc import ref
from mc.core import Scen, pumped
from mc.frames import FrameSystem

S = 1_000_000
LOOKS = (1, 2, 0)
RULE = ("every sequence of the alphabet (same frame, next frame, gap; rising, falling, zero and negative prices) to the stated depth for "
        "frame memories of 2, 3, 5, 50 and 100 (pumped beyond the memory); every kept candle compared with the recurrence after every tick")
ASSUMPTIONS = ["a mean exactly between two cents may be rounded either way"]
HA = dict(ref="h", kind="ha")


SYSTEM = FrameSystem


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    same = [["t", S, a, b] for a, b in ((100, 102), (-310, -308), (0, 0), (555, 555), (80, 110))]
    nxt = [["next", 1, 0, a, b] for a, b in ((0, 0), (120, 160), (903, 905))]
    gap = [["next", 3, 1, 50, 52]]

    def add(name, letters, depth, unit="MINUTE", q=1, base="2020-01-06 09:58:30", inds=(HA,), max=50, **kw):
        cfg = dict(sets=[dict(ref="fs", unit=unit, q=q, max=max, inds=list(inds))], base=ref.at(base), tz="UTC", aspects=["indicators"], **kw)
        out.append(Scen(name, cfg, letters, depth + deep, system=SYSTEM))

    add("minute", same + nxt + gap, 4)
    add("two-prices", [same[0], same[1]] + nxt[:2], 6)
    for m in (2, 3, 5):
        add(f"window-{m}", [same[0], same[1], nxt[0], nxt[2], gap[0]], 6 if m == 2 else 5, max=m)
    add("ticks-1", same, 5, "TICK", max=2)
    add("ticks-2", same, 5, "TICK", 2, max=2)
    add("two-types", [same[0], same[1], nxt[0], nxt[2]], 5, inds=[dict(ref="c", kind="candle"), HA, dict(ref="h2", kind="ha")], max=2)
    hours = [["clock", "09:00:00", 0, -100, -98], ["clock", "10:00:00", 0, 0, 0], ["clock", "12:00:00", 0, 50, 52],
             ["clock", "18:00:00", 0, 90, 92], ["clock", "12:00:00", 2, 300, 310]]
    add("market-hours", hours, 5, "DAY", cal=dict(), base="2020-01-06 05:00:00", inds=[dict(HA, gated=True), dict(HA, ref="h2")])
    # indicators added between two ticks
    for m in (2, 50):
        add(f"added-{m}", [same[0], same[3], nxt[0], nxt[2], gap[0], ["add", "fs", HA]], 5, inds=[dict(ref="c", kind="candle")], max=m)
    add("added-hours", hours + [["add", "fs", dict(HA, gated=True)]], 5, "DAY", cal=dict(), base="2020-01-06 05:00:00", inds=[])
    for m in (2, 4, 100):
        cfg = dict(sets=[dict(ref="fs", unit="MINUTE", q=1, max=m, inds=[HA])], base=ref.at("2020-01-06 09:58:30"), tz="UTC",
                   aspects=["indicators"], sparse=True)
        out.append(Scen(f"pumped-{m}", cfg, words=pumped([same[0], same[1], nxt[0], nxt[2], gap[0]], 3 if deep else 2, 160 if m > 4 else 60),
                        system=SYSTEM))
    return out
