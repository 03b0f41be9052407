from mc import ref
from mc.core import Scen, pumped
from mc.frames import FrameSystem

S = 1_000_000
LOOKS = (1, 2, 0)
RULE = ("every sequence of the alphabet (prices zero, negative, positive, half-cent midpoints, repeated; same frame, next frame, gap) to "
        "the stated depth; open, high, low, last, close, colour, body, head, tail and height of every kept candle compared after every tick")
ASSUMPTIONS = ["a midpoint exactly between two cents may be rounded either way"]
INDS = [dict(ref="c", kind="candle"), dict(ref="co", kind="candle", gated=True), dict(ref="h", kind="ha")]


class SYSTEM(FrameSystem):
    def ind_ha(self, i, v, f, r, ch, pos, oldest, w, expected):
        self.derived(v, f, w)  # open, high, low and last: C13


def scenarios(tier):
    deep = tier == "thorough"
    out = []

    def add(name, unit, q, letters, depth, base="2020-01-06 09:58:30", **kw):
        cfg = dict(sets=[dict(ref="fs", unit=unit, q=q, max=kw.pop("max", 50), inds=kw.pop("inds", INDS))], base=ref.at(base), tz=kw.pop("tz", "UTC"),
                   aspects=["indicators"], **kw)
        out.append(Scen(name, cfg, letters, depth + deep, system=SYSTEM))

    prices = [(0, 0), (-5, 2), (-310, -308), (100, 102), (99, 100), (251, 251)]
    same = [["t", S, a, b] for a, b in prices]
    nxt = [["next", 1, 0, a, b] for a, b in ((0, 0), (-2, 0), (120, 121), (100, 102))]
    add("minute", "MINUTE", 1, same + nxt + [["next", 3, 1, 50, 52]], 4)
    add("minute-long", "MINUTE", 1, [same[0], same[2], same[3]] + nxt[:2], 6)
    add("ticks-3", "TICK", 3, same, 5)
    add("ticks-1", "TICK", 1, same, 4)
    add("window-1", "MINUTE", 1, same[:4] + nxt[:2], 4, max=1)
    add("window-2", "MINUTE", 1, same[:4] + nxt[:2], 5, max=2)
    hours = [["clock", "09:00:00", 0, -100, -98], ["clock", "10:00:00", 0, 0, 0], ["clock", "12:00:00", 0, 50, 52],
             ["clock", "17:30:00", 0, -20, -20], ["clock", "18:00:00", 0, 90, 92]]
    add("market-hours", "DAY", 1, hours, 5, cal=dict(), base="2020-01-06 05:00:00")
    add("big-prices", "MINUTE", 5, [["t", S, a, b] for a, b in ((1234567890, 1234567891), (1234567800, 1234567803), (9, 11))] +
        [["next", 1, 0, 1234567999, 1234567999]], 5)
    # indicators added between two ticks
    adds = [["add", "fs", i] for i in INDS]
    add("added", "MINUTE", 1, same[1:4] + nxt[:2] + adds[::2], 5, inds=[])
    add("added-hours", "DAY", 1, hours[:2] + hours[3:] + adds[1:], 5, cal=dict(), base="2020-01-06 05:00:00", inds=[], max=2)
    cfg = dict(sets=[dict(ref="fs", unit="MINUTE", q=1, inds=INDS)], base=ref.at("2020-01-06 09:58:30"), tz="UTC", aspects=["indicators"],
               sparse=True)
    out.append(Scen("pumped", cfg, words=pumped([same[0], same[3], nxt[0], nxt[1], nxt[2]], 3 if deep else 2, 120), system=SYSTEM))
    return out
