from mc import ref
from mc.core import Scen, pumped
from mc.frames import FrameSystem

S = 1_000_000
LOOKS = (1, 2, 0)
RULE = ("every sequence of the alphabet (ticks inside a period, at the next period, after gaps; rising, falling, zero and negative prices) to "
        "the stated depth; all seven levels of both pivot types of every kept frame compared with the formulas after every tick, and required "
        "to be the same after every later tick while the previous period is kept")
ASSUMPTIONS = ["a mean exactly between two cents may be rounded either way; supports and resistances follow from the rounded pivot"]
INDS = [dict(ref="classic", kind="pivot"), dict(ref="olhc", kind="pivot", type="OLHC"), dict(ref="open", kind="pivot", gated=True),
        dict(ref="olhc-open", kind="pivot", type="OLHC", gated=True)]


class SYSTEM(FrameSystem):
    def __init__(self, cfg):
        super().__init__(cfg)
        self.levels = {}

    def ind_pivot(self, i, v, f, r, ch, pos, oldest, w, _):
        super().ind_pivot(i, v, f, r, ch, pos, oldest, w, _)
        now = tuple(getattr(v, a) for a in ("pivot",) + self.LEVELS)
        if pos and ch[pos - 1][0].index < oldest:
            return
        old = self.levels.setdefault((i["ref"], r.index), now)
        if old != now:
            from mc.core import Mismatch
            raise Mismatch(f"{w}: levels moved from {old} to {now}")


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    same = [["t", S, a, b] for a, b in ((100, 102), (-310, -308), (0, 0), (80, 110))]
    nxt = [["next", 1, 0, a, b] for a, b in ((0, 0), (120, 160), (-903, -900))]
    gap = [["next", 3, 1, 50, 52]]

    def add(name, letters, depth, unit="DAY", q=1, base="2020-01-06 09:58:30", max=50, **kw):
        cfg = dict(sets=[dict(ref="fs", unit=unit, q=q, max=max, inds=kw.pop("inds", INDS))], base=ref.at(base), tz=kw.pop("tz", "UTC"),
                   aspects=["indicators"], **kw)
        out.append(Scen(name, cfg, letters, depth + deep, system=SYSTEM))

    add("day", same + nxt + gap, 4)
    add("day-long", [same[0], same[1], nxt[0], nxt[1]], 6)
    add("minute", [same[0], same[2], same[3], nxt[2], gap[0]], 5, "MINUTE", 15)
    for m in (2, 3):
        add(f"window-{m}", [same[0], same[1], nxt[0], nxt[1], gap[0]], 5, max=m)
    add("ticks-2", same, 5, "TICK", 2)
    zero = [["t", S, a, b] for a, b in ((0, 0), (-2, 2), (-6, -4), (4, 6))] + [["next", 1, 0, -4, -2], ["next", 1, 0, 0, 0]]
    add("around-zero", zero, 5)
    hours = [["clock", "09:00:00", 0, -100, -98], ["clock", "10:00:00", 0, 0, 0], ["clock", "12:00:00", 0, 50, 52],
             ["clock", "18:00:00", 0, 90, 92], ["clock", "12:00:00", 2, 300, 310]]
    add("market-hours", hours, 5, cal=dict(), base="2020-01-06 05:00:00")
    # indicators added between two ticks
    adds = [["add", "fs", i] for i in INDS]
    for m in (2, 50):
        add(f"added-{m}", [same[0], same[1], nxt[0], gap[0]] + adds[:2], 5, max=m, inds=[])
    add("added-hours", hours + adds[2:], 4, cal=dict(), base="2020-01-06 05:00:00", inds=[])
    cfg = dict(sets=[dict(ref="fs", unit="DAY", q=1, inds=INDS)], base=ref.at("2000-01-06 09:58:30"), tz="UTC", aspects=["indicators"],
               sparse=True)
    out.append(Scen("pumped", cfg, words=pumped([same[0], nxt[0], nxt[2], gap[0]], 3 if deep else 2, 130), system=SYSTEM))
    return out
