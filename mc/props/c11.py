from mc import ref
from mc.core import Mismatch, Scen, pumped
from mc.frames import FrameSystem, RT

S = 1_000_000
H = 3600 * S
LOOKS = (1, 2, 0)
RULE = ("every sequence of ticks inside and outside market hours (within a frame, across frames, across empty periods and closed days) to "
        "the stated depth, all indicator types with and without the market-hours limit; values, presence and previous value compared "
        "after every tick")
ASSUMPTIONS = ["market-hours RSI: in histories with ticks outside market hours, the value of the known finding is accepted as well as the right one"]


class SYSTEM(FrameSystem):
    pass


class StrictRSI(FrameSystem):
    """Also decides market-hours RSI when closed ticks are around (only used to replay the known finding)."""

    def rsi_decided(self, ch, pos, r):
        return True


KINDS = dict(
    base=dict(kind="base"), candle=dict(kind="candle"), ha=dict(kind="ha"), sma=dict(kind="sma", n=3), rsi=dict(kind="rsi", n=2),
    pivot=dict(kind="pivot"), olhc=dict(kind="pivot", type="OLHC"),
)
INDS = [dict(v, ref=k + g, gated=bool(g)) for k, v in KINDS.items() for g in ("", "-open")]
LETTERS = [
    ["clock", "10:00:00", 0, 100, 102], ["clock", "18:00:00", 0, 110, 112], ["clock", "09:00:00", 0, 90, 92],
    ["clock", "17:30:00", 0, 92, 121], ["clock", "12:00:00", 1, 95, 97], ["clock", "23:00:00", 1, 120, 120],
]


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    small = INDS

    def add(name, unit, q, base, letters, depth, inds=small, tz="UTC", cal=None, limit=400, **kw):
        cfg = dict(sets=[dict(ref="fs", unit=unit, q=q, max=limit, inds=[dict(i) for i in inds])], base=ref.at(base), tz=tz,
                   cal=cal or {}, aspects=["indicators"], **kw)
        if letters is not None:
            out.append(Scen(name, cfg, letters, depth + deep, system=SYSTEM))
        return cfg

    add("day", "DAY", 1, "2020-01-06 05:00:00", LETTERS, 4)
    add("day-base", "DAY", 1, "2020-01-06 05:00:00", LETTERS, 5, [i for i in INDS if i["kind"] in ("base", "sma")])
    add("hour-4", "HOUR", 4, "2020-01-06 05:00:00", LETTERS, 4)
    add("week", "WEEK", 1, "2020-01-06 05:00:00", LETTERS + [["clock", "12:00:00", 9, 80, 82]], 4,
        [i for i in INDS if i["kind"] in ("base", "sma", "ha")])
    around = [["t", 1, 100, 102], ["clock", "09:29:59.999999", 0, 91, 91], ["clock", "09:30:00", 0, 104, 104], ["clock", "17:30:00", 0, 97, 99],
              ["clock", "17:30:00.000001", 0, 88, 88], ["next", 1, 0, 93, 93]]
    add("minute-boundaries", "MINUTE", 15, "2020-01-06 09:20:00", around, 4, [i for i in INDS if i["kind"] in ("base", "candle", "sma")])
    add("hour-holiday", "HOUR", 12, "2020-01-06 05:00:00", LETTERS, 4, [i for i in INDS if i["kind"] in ("base", "ha", "pivot")],
        tz="America/New_York", cal=dict(holidays=["2020-01-07"], days=[0, 1, 2, 3]))
    add("tick-2", "TICK", 2, "2020-01-06 05:00:00", LETTERS, 4, [i for i in INDS if i["kind"] in ("base", "candle", "sma", "ha")])
    # the whole indicator set including market-hours RSI, while the market is open
    for unit, q in (("DAY", 1), ("HOUR", 1), ("TICK", 2)):
        add(f"rsi-{unit}", unit, q, "2020-01-06 05:00:00", LETTERS, 4, [dict(kind="rsi", n=1, ref="rsi1", gated=True), dict(kind="rsi", n=2, ref="rsi2", gated=True)])
    add("rsi-open", "MINUTE", 1, "2020-01-06 10:00:30",
        [["next", 1, 0, 101, 103], ["t", S, 99, 101], ["next", 2, 1, 105, 105], ["t", 0, 97, 97]], 5, [i for i in INDS if i["kind"] == "rsi"])
    # indicators added between two ticks
    adds = [["add", "fs", dict(i)] for i in INDS if i["kind"] != "rsi"]
    for k in (0, 2, 4, 6, 8, 10):
        add(f"added-{adds[k][2]['ref']}", "DAY" if k % 4 else "HOUR", 1 if k % 4 else 6, "2020-01-06 05:00:00", LETTERS[:3] + LETTERS[4:5] + adds[k:k + 2], 4, [])
    cfg = add("x", "HOUR", 6, "2020-01-06 05:00:00", None, 0, [i for i in INDS if i["kind"] in ("base", "sma", "ha", "candle")], sparse=True, limit=60)
    out.append(Scen("pumped", cfg, words=pumped(LETTERS, 2, 60), system=SYSTEM))
    return out
