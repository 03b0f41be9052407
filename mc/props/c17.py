from mc import ref
from mc.core import Scen, pumped
from mc.frames import FrameSystem as SYSTEM

S = 1_000_000
LOOKS = (1, 2)
RULE = ("every sequence of the alphabet (same frame, next frame, gaps) to the stated depth on one instrument with one frame set per memory "
        "limit (2, 3, 5, 9, unlimited); every observable value of every closed frame compared with the one it had when first seen closed, and "
        "every retained frame of every limit compared with the unlimited frame set, after every tick")
ASSUMPTIONS = ["the limit keeps at least the previous frame and covers the indicators' needs (RSI: its N frames)",
               "pivot levels are not part of the comparison (they need the previous period: C16)"]
INDS = [dict(ref="c", kind="candle"), dict(ref="h", kind="ha"), dict(ref="s1", kind="sma", n=1), dict(ref="s3", kind="sma", n=3),
        dict(ref="s7", kind="sma", n=7), dict(ref="r2", kind="rsi", n=2), dict(ref="b", kind="base")]


def sets(unit, q, limits, inds=INDS, big=400):
    out = [dict(ref="big", unit=unit, q=q, max=big, inds=inds)]
    for m in limits:
        out.append(dict(ref=f"m{m}", unit=unit, q=q, max=m, inds=[i for i in inds if i["kind"] != "rsi" or i["n"] * q <= m]))
    return out


class Fair(SYSTEM):
    """A frame set whose memory cannot hold the RSI does not carry it; leave the RSI out of that comparison."""

    def observe(self, name, f):
        out = super().observe(name, f)
        if self.drop_rsi:
            out = [x for x in out if not x[0].startswith("r")]
        return out

    drop_rsi = False

    def cmp_windows(self, name, fs, rfs, full):
        self.drop_rsi = not any(i["kind"] == "rsi" for i in self.inds[name])
        super().cmp_windows(name, fs, rfs, full)
        self.drop_rsi = False


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    same = [["t", S, a, b] for a, b in ((100, 102), (-310, -308), (0, 0))]
    nxt = [["next", 1, 0, a, b] for a, b in ((0, 0), (120, 160), (-903, -900))]
    gap = [["next", 3, 1, 50, 52]]

    def add(name, letters, depth, unit="MINUTE", q=1, limits=(2, 3, 5), base="2020-01-06 09:58:30", **kw):
        cfg = dict(sets=sets(unit, q, limits, kw.pop("inds", INDS)), base=ref.at(base), tz="UTC", aspects=["immutable", "windows"], **kw)
        out.append(Scen(name, cfg, letters, depth + deep, system=Fair))

    add("minute", same + nxt + gap, 4)
    add("long", [same[1], nxt[0], nxt[1], gap[0]], 6, limits=(2, 3))
    add("hours", [same[1], nxt[0], nxt[1], ["next", 9, 1, 77, 79]], 5, "HOUR", 4)
    add("ticks-1", same, 6, "TICK", 1, limits=(2, 3))
    add("ticks-2", same + [["clock", "00:00:00", 0, 99, 101]], 5, "TICK", 2, limits=(2, 4))
    hours = [["clock", "09:00:00", 0, -100, -98], ["clock", "10:00:00", 0, 0, 0], ["clock", "12:00:00", 0, 50, 52],
             ["clock", "18:00:00", 0, 90, 92], ["clock", "12:00:00", 2, 300, 310]]
    gated = [dict(i, ref=i["ref"] + "o", gated=True) for i in INDS if i["kind"] != "rsi"]
    # indicators added between two ticks: what is closed stays as it is
    late = [dict(ref="c2", kind="candle"), dict(ref="h2", kind="ha", gated=True), dict(ref="s2", kind="sma", n=2), dict(ref="p2", kind="pivot")]
    for m in (2, 60):
        cfg = dict(sets=[dict(ref="fs", unit="HOUR", q=6, max=m, inds=INDS[:2])], base=ref.at("2020-01-06 05:00:00"), tz="UTC", cal=dict(),
                   aspects=["immutable"])
        out.append(Scen(f"added-{m}", cfg, hours[1:] + [["add", "fs", i] for i in late], 4 + deep, system=Fair))
    # market-hours values can be many frames apart: only immutability, with a memory that keeps them
    cfg = dict(sets=[dict(ref="fs", unit="HOUR", q=6, max=60, inds=gated + INDS)], base=ref.at("2020-01-06 05:00:00"), tz="UTC", cal=dict(),
               aspects=["immutable"])
    out.append(Scen("market-hours", cfg, hours, 5 + deep, system=Fair))
    cfg = dict(sets=[dict(ref="fs", unit="DAY", q=1, max=3, inds=gated + INDS)], base=ref.at("2020-01-06 05:00:00"), tz="UTC", cal=dict(),
               aspects=["immutable"])
    out.append(Scen("market-hours-window-3", cfg, hours, 5 + deep, system=Fair))
    cfg = dict(sets=sets("MINUTE", 1, (2, 9, 100)), base=ref.at("2020-01-06 09:58:30"), tz="UTC", aspects=["immutable", "windows"], sparse=True)
    out.append(Scen("pumped", cfg, words=pumped([same[0], nxt[0], nxt[2], ["next", 2, 1, 50, 52]], 3 if deep else 2, 130), system=Fair))
    return out


SYSTEM = Fair
