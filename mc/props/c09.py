from mc import ref
from mc.core import Scen, pumped
from mc.frames import FrameSystem as SYSTEM

S = 1_000_000
H = 3600 * S
LOOKS = (1, 2, 0)
RULE = ("every sequence of the alphabet (ties, same day, last microsecond of the local day, local midnight, UTC midnight, later days, "
        "prices up/down/equal) to the stated depth; frames compared after every tick")
ASSUMPTIONS = ["prices with an exact midpoint to the cent"]


def letters(tz_utc):
    return [
        ["t", S, 101, 103], ["clock", "00:00:00", 0, 99, 101], ["t", 0, 103, 105], ["clock", "23:59:59.999999", 0, 98, 98],
        ["t", 25 * H, 101, 101],
    ]


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for q, depth in ((1, 4), (2, 6), (3, 7), (4, 6)):
        for tz, base in (("America/New_York", "2020-02-28 22:00:00"), ("Asia/Tokyo", "2020-12-31 14:59:30"), ("UTC", "2020-01-31 23:00:00")):
            if tz != "America/New_York":
                depth_ = min(depth, 5)
            else:
                depth_ = depth
            cfg = dict(sets=[dict(ref="fs", unit="TICK", q=q, max=50)], base=ref.at(base), tz=tz, aspects=["frames"])
            out.append(Scen(f"tick-{q}-{tz}", cfg, letters(tz), min(depth_ + deep, 8), system=SYSTEM))
        # dates that differ between UTC and the instrument's timezone, step by step through a day change
        cfg = dict(sets=[dict(ref="fs", unit="TICK", q=q, max=50)], base=ref.at("2020-06-01 20:00:00"), tz="America/Los_Angeles",
                   aspects=["frames"])
        out.append(Scen(f"tick-{q}-two-dates", cfg, [["t", 2 * H, 100, 102], ["t", 5 * H, 98, 100], ["t", 30 * S, 103, 103],
                                                     ["t", 24 * H, 90, 90]], (6 if q > 2 else 5) + deep, system=SYSTEM))
        # ticks given in other time zones than the instrument's
        out.append(Scen(f"tick-{q}-foreign-zones", cfg, [["t", 2 * H, 100, 102, "Asia/Tokyo", "arrow"], ["t", 5 * H, 98, 100, "Europe/Paris"],
                                                         ["t", 30 * S, 103, 103, "Asia/Tokyo"]], 5 + deep, system=SYSTEM))
        # later dates on the same weekday, day of the month or of the year, at the same, an earlier or a later time
        if q > 1:
            cfg = dict(sets=[dict(ref="fs", unit="TICK", q=q, max=50)], base=ref.at("2020-01-06 20:00:00"), tz="America/New_York", aspects=["frames"])
            out.append(Scen(f"tick-{q}-far", cfg, [["t", 1800 * S, 100, 102], ["t", 7 * 24 * H, 98, 100], ["t", 31 * 24 * H - H, 103, 103], ["t", 29 * 24 * H, 90, 90],
                                                   ["t", 366 * 24 * H + H, 95, 97], ["t", 365 * 24 * H, 90, 91]], 4 + deep, system=SYSTEM))
        # the same Tick object more than once
        cfg = dict(sets=[dict(ref="fs", unit="TICK", q=q, max=50)], base=ref.at("2020-01-06 20:00:00"), tz="America/New_York", aspects=["frames"])
        out.append(Scen(f"tick-{q}-again", cfg, [["t", S, 100, 102], ["again"], ["t", 0, 100, 102], ["t", 25 * H, 90, 90]], 5 + deep, system=SYSTEM))
        if q > 1:
            cfg = dict(sets=[dict(ref="fs", unit="TICK", q=q)], base=ref.at("2020-02-28 22:00:00"), tz="America/New_York",
                       aspects=["frames"], sparse=True)
            out.append(Scen(f"pumped-{q}", cfg, words=pumped(letters(None)[:4], 3 if deep else 2, 420), system=SYSTEM))
    for q in (10, 33):
        cfg = dict(sets=[dict(ref="fs", unit="TICK", q=q)], base=ref.at("2020-02-28 22:00:00"), tz="America/New_York",
                   aspects=["frames"], sparse=True)
        out.append(Scen(f"pumped-{q}", cfg, words=pumped(letters(None)[:4], 2, 120), system=SYSTEM))
    # clocks going back over midnight: the date never goes back
    for tz, base in (("America/Havana", "2020-11-01 02:40:00"), ("America/Sao_Paulo", "2018-02-18 00:40:00")):
        cfg = dict(sets=[dict(ref="fs", unit="TICK", q=3, max=50)], base=ref.at(base), tz=tz, aspects=["frames"])
        out.append(Scen(f"tick-3-{tz}", cfg, [["t", 1800 * S, 100, 102], ["t", H, 98, 100], ["t", 600 * S, 103, 103]], 5 + deep, system=SYSTEM))
    return out
