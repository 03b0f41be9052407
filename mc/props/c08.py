from mc import ref
from mc.core import Scen, pumped
from mc.frames import FrameSystem

S = 1_000_000
MIN, H = 60 * S, 3600 * S
LOOKS = (1, 2, 0)
RULE = ("every sequence of the scenario's alphabet (ticks at ties, just before/at/after period ends, after multi-period gaps, "
        "prices up/down/equal) to the stated depth, plus pumped words; all frames compared with the reference after every tick")
ASSUMPTIONS = ["prices with an exact midpoint to the cent", "time zones whose offset changes by whole hours"]


class SYSTEM(FrameSystem):
    def feed(self, tick):
        if self.cfg.get("direct"):
            for fs in self.sets.values():
                fs.on_new_tick(tick)
        else:
            super().feed(tick)


def grid(tiny=S, gap=4):
    return [
        ["next", 1, 0, 101, 103], ["t", 0, 99, 101], ["t", tiny, 103, 105], ["next", 1, -1, 98, 100],
        ["next", 2, 1, 101, 101], ["next", gap, tiny, 97, 107], ["t", 0, 110, 110],
    ]


def dst():
    return [
        ["t", 10 * MIN, 101, 103], ["t", 40 * MIN, 99, 101], ["t", H, 103, 105], ["next", 1, 0, 98, 100],
        ["next", 1, -1, 101, 101], ["t", 3 * H, 97, 107],
    ]


def calm():
    d = 24 * H
    return [["t", 0, 99, 101], ["t", 5 * H, 101, 101], ["t", d, 102, 104], ["next", 1, 0, 98, 100],
            ["next", 1, -1, 90, 100], ["t", 9 * d, 97, 107], ["t", 40 * d, 100, 130]]


def cfg(unit, q, base, tz="UTC", limit=None, **kw):
    s = dict(ref="fs", unit=unit, q=q)
    if limit:
        s["max"] = limit
    return dict(sets=[s], base=ref.at(base), tz=tz, aspects=["frames"], **kw)


def scenarios(tier):
    deep = tier == "thorough"
    out = []

    def add(name, c, letters, depth):
        out.append(Scen(name, c, letters, depth + deep, system=SYSTEM))

    add("minute-1", cfg("MINUTE", 1, "2020-01-06 10:00:30"), grid(), 5)
    add("minute-1-nogap-prices", cfg("MINUTE", 1, "2020-01-06 10:00:30"),
        [["t", S, a, b] for a, b in ((100, 100), (98, 104), (102, 102), (-3, 1))] + [["next", 1, 0, 101, 101]], 6)
    add("minute-1-again", cfg("MINUTE", 1, "2020-01-06 10:00:30"), [["again"]] + grid()[:5], 4)
    add("minute-1-direct", cfg("MINUTE", 1, "2020-01-06 10:00:30", direct=True), grid(), 4)
    add("minute-5-kolkata", cfg("MINUTE", 5, "2020-01-06 18:23:30", "Asia/Kolkata"), grid(), 4)
    add("minute-60", cfg("MINUTE", 60, "2020-02-29 22:50:30", "Asia/Kolkata"), grid(), 4)
    add("second-10", cfg("SECOND", 10, "2020-12-31 23:59:31.5", "America/New_York"), grid(300_000), 4)
    add("second-1", cfg("SECOND", 1, "2020-12-31 23:59:58.5"), grid(300_000), 4)
    add("hour-1", cfg("HOUR", 1, "2020-02-28 22:30:00"), grid(600 * S), 4)
    add("hour-4-ny", cfg("HOUR", 4, "2020-01-31 20:10:00", "America/New_York"), grid(600 * S), 4)
    add("hour-12", cfg("HOUR", 12, "2020-01-31 20:10:00", "Asia/Tokyo"), grid(600 * S), 4)
    add("day-1-paris", cfg("DAY", 1, "2020-02-27 22:30:00", "Europe/Paris"), grid(H), 4)
    add("day-7", cfg("DAY", 7, "2020-12-26 22:30:00"), grid(20 * H), 4)
    add("week-1", cfg("WEEK", 1, "2019-12-27 10:00:00", "Asia/Tokyo"), grid(50 * H), 4)
    add("month-1", cfg("MONTH", 1, "2020-01-30 10:00:00"), grid(30 * H, 14), 4)
    add("month-1-calm", cfg("MONTH", 1, "2019-12-31 20:00:00", "Australia/Sydney"), calm(), 4)
    add("month-3", cfg("MONTH", 3, "2019-12-30 10:00:00", "America/New_York"), grid(30 * H), 4)
    add("month-12", cfg("MONTH", 12, "2019-12-30 10:00:00"), grid(30 * H), 3)
    add("year-1", cfg("YEAR", 1, "2019-12-30 10:00:00"), grid(30 * H), 4)
    add("year-5", cfg("YEAR", 5, "2019-12-30 10:00:00"), grid(30 * H), 3)
    add("long-gaps", cfg("MINUTE", 1, "2020-01-06 10:00:30", limit=5),
        [["next", 1, 0, 101, 103], ["t", S, 99, 101], ["t", 600 * MIN, 97, 99], ["t", 90 * MIN + 1, 103, 103]], 3)
    words = [[["t", 0, 101, 103], ["t", gap * MIN + S, 99, 101], ["t", S, 103, 105], ["next", 1, 0, 97, 99], ["next", 2, -1, 100, 100]]
             for gap in (50, 99, 100, 101, 999, 1000, 1001, 1440, 3780, 5220, 10080)]
    for limit in (None, 3):  # a night, a weekend, a week without a tick
        out.append(Scen(f"weekend-{limit}", cfg("MINUTE", 1, "2020-01-03 20:00:30", limit=limit), words=words, system=SYSTEM))
    # clock changes: repeated hour, skipped hour, skipped or repeated midnight
    for where, base, tz in (
        ("paris-back", "2020-10-24 23:20:00", "Europe/Paris"), ("paris-forth", "2020-03-29 00:10:00", "Europe/Paris"),
        ("ny-back", "2020-11-01 05:10:00", "America/New_York"), ("ny-forth", "2020-03-08 06:10:00", "America/New_York"),
        ("saopaulo-forth", "2017-10-15 01:40:00", "America/Sao_Paulo"), ("saopaulo-back", "2018-02-18 00:40:00", "America/Sao_Paulo"),
        ("havana-back", "2020-11-01 03:40:00", "America/Havana"),
    ):
        for unit, q in (("SECOND", 30), ("MINUTE", 1), ("MINUTE", 30), ("HOUR", 1), ("HOUR", 2), ("HOUR", 4), ("DAY", 1), ("MONTH", 1)):
            if unit == "SECOND" and not deep:
                continue
            depth = 4 if unit in ("MINUTE", "HOUR") and q in (30, 1, 2) and where in ("paris-back", "paris-forth", "ny-back") else 3
            if unit in ("SECOND", "MINUTE") and q in (1, 30) and unit + str(q) != "MINUTE30":
                depth = 3 if not deep else 2
            add(f"{where}-{unit}-{q}", cfg(unit, q, base, tz), dst(), depth)
    # ticks given in zones that show the same time as the instrument's, until one of the clocks changes
    same = [["t", 0, 101, 103, "UTC"], ["t", 20 * H, 99, 101, "Europe/London"], ["t", 9 * 24 * H, 103, 105, "Europe/London"], ["next", 1, -1, 98, 100, "Africa/Abidjan"],
            ["next", 1, 0, 97, 99, "Europe/Lisbon"]]
    for tz in ("UTC", "Europe/London"):
        for base, unit, q in (("2020-03-25 10:00:00", "MONTH", 1), ("2020-03-25 10:00:00", "WEEK", 1), ("2020-03-28 10:00:00", "DAY", 1), ("2020-01-30 10:00:00", "MONTH", 6),
                              ("2020-03-28 22:00:00", "HOUR", 12)):
            add(f"foreign-{tz}-{unit}-{q}", cfg(unit, q, base, tz), same, 4)
    pump = [["next", 1, 0, 101, 103], ["t", S, 99, 101], ["next", 1, -1, 105, 105], ["next", 3, 1, 96, 98]]
    for unit, q in (("MINUTE", 5), ("DAY", 1), ("MONTH", 1)):
        out.append(Scen(f"pumped-{unit}", cfg(unit, q, "1985-12-31 10:00:30", "Europe/Paris", sparse=True),
                        words=pumped(pump, 3 if deep else 2, 160), system=SYSTEM))
    return out
