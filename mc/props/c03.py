import datetime as D

from mc import ref
from mc.core import Scen, System
from mc.frames import Epic, eq, expect, make_epic, make_tick

S = 1_000_000
H = 3600 * S
RULE = ("for every calendar of the list (zones, opening hours incl. whole day / single instant / never, trading days, holidays, defaults): every "
        "boundary instant of every day of two weeks in order, and every ordered sequence of 2-3 of the boundary instants of a few days (so that "
        "the state after a tick is compared after different pasts); and walks over several years day by day (and by strides of months and years) at an "
        "instant before, inside and after the opening hours; every sequence of ticks and changes of zone, hours, days and holidays to depth 4 (5); market state and is_market_open() compared after every tick")
ASSUMPTIONS = []


class SYSTEM(System):
    def __init__(self, cfg):
        super().__init__(cfg)
        self.tz = cfg.get("tz", "UTC")
        cal = cfg["cal"]
        if cal is None:
            self.epic, self.cal = Epic(), ref.Calendar()
        elif cfg.get("late"):  # attributes set after the construction
            self.epic = Epic(timezone=self.tz)
            self.cal = ref.Calendar(self.tz, **cal)
            self.epic.open_time, self.epic.close_time = self.cal.open, self.cal.close
            self.epic.trade_days, self.epic.holidays = sorted(self.cal.days), sorted(self.cal.holidays)
        else:
            kw = dict(cal)
            self.cal = ref.Calendar(self.tz, **kw)
            self.epic = Epic(timezone=self.tz, open_time=self.cal.open, close_time=self.cal.close,
                             trade_days=sorted(self.cal.days), holidays=sorted(self.cal.holidays))
        self.now = None
        self.given = dict(cal or {})
        expect(self.epic.market_open is False, "market open before any tick")

    def change(self, zone=None, **cal):
        """Another zone, or other hours, trading days or holidays, from the next tick on."""
        if zone is not None:
            self.epic.timezone = self.tz = zone
        if "holiday" in cal or "day" in cal:  # one more in the instrument's own list
            for name, rest in (("holiday", "holidays"), ("day", "days")):
                if name in cal:
                    old = self.given.get(rest, [] if rest == "holidays" else [0, 1, 2, 3, 4])
                    self.given[rest] = [*old, cal[name]]
                    attr = "holidays" if rest == "holidays" else "trade_days"
                    item = D.date.fromisoformat(cal[name]) if rest == "holidays" else cal[name]
                    own = getattr(self.epic, attr)
                    if isinstance(own, list):
                        own.append(item)
                    if item not in getattr(self.epic, attr):  # kept as a copy or not as a list
                        setattr(self.epic, attr, [*own, item])
            self.cal = ref.Calendar(self.tz, **self.given)
            return
        self.given = dict(self.given, **cal)
        self.cal = ref.Calendar(self.tz, **self.given)
        for key, value in cal.items():
            if key == "open_time":
                self.epic.open_time = self.cal.open
            elif key == "close_time":
                self.epic.close_time = self.cal.close
            elif key == "days":
                self.epic.trade_days = sorted(self.cal.days)
            else:
                self.epic.holidays = sorted(self.cal.holidays)

    def step(self, letter):
        if letter[0] == "change":
            return self.change(**letter[1])
        us = letter[1]
        if letter[0] == "+":
            us += self.now[0] if self.now else ref.at("2020-10-30 09:00:00")
        self.epic.on_new_tick(make_tick(us, 100, 101, letter[2] if len(letter) > 2 else "UTC"))
        want = self.cal.is_open(us)
        w = f"{self.cfg['cal']} at {ref.local(us, self.tz).strftime('%a %F %T.%f %z')}:"
        for got in (self.epic.market_open, self.epic.is_market_open()):
            expect(bool(got) == want, w, f"market {'open' if got else 'closed'}")
        self.now = (us, want)

    def key(self):
        return self.now, self.tz, str(self.given)


def boundaries(cal, tz, days, start):
    """Boundary instants of the days from a local date."""
    c = ref.Calendar(tz, **(cal or {}))
    out = set()
    for k in range(days):
        day = D.datetime.combine(D.date.fromisoformat(start) + D.timedelta(days=k), D.time())
        for t in {c.open, c.close, D.time(0), D.time(12), D.time(23, 59, 59, 999999)}:
            b = ref._wall(D.datetime.combine(day.date(), t), tz)
            out |= {b - 1, b, b + 1, b + S}
    return sorted(out)


def walk(cal, tz, start, end, stride):
    """Instants before, inside and after the opening hours of each day from start to end."""
    c = ref.Calendar(tz, **(cal or {}))
    mid = D.time(*divmod((c.open.hour + c.close.hour) * 30 + (c.open.minute + c.close.minute) // 2, 60))
    day, last, out = D.date.fromisoformat(start), D.date.fromisoformat(end), []
    while day <= last:
        for t in (c.open, mid, c.close):
            b = ref._wall(D.datetime.combine(day, t), tz)
            out.append(b if t == mid else b - S if t == c.open else b + S)
        day += D.timedelta(days=stride)
    return sorted(out)


CALS = [
    None, {}, dict(open_time="00:00:00", close_time="23:59:59.999999", days=[0, 1, 2, 3, 4, 5, 6]),
    dict(open_time="09:00:00", close_time="17:30:59"), dict(open_time="09:30:15.000250", close_time="16:00:00.5", days=[5, 6]),
    dict(open_time="12:00:00", close_time="12:00:00"), dict(open_time="22:00:00", close_time="02:00:00"),
    dict(holidays=["2020-10-26", "2020-10-30", "2020-11-01", "2020-11-02"]), dict(days=[0], holidays=["2020-10-26"]),
    dict(open_time="00:00:00", close_time="23:59:59", days=[0, 1, 2, 3, 4, 5, 6], holidays=["2020-10-31", "2020-11-01"]),
    dict(open_time="01:00:00", close_time="02:30:00", days=[6]),
    dict(days=[]), dict(open_time="00:00:00", close_time="23:59:59.999999", days=[]),
]


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    zones = ["UTC", "America/New_York", "Asia/Tokyo", "Europe/Paris", "Asia/Kolkata"] + (["Pacific/Auckland", "America/Sao_Paulo"] if deep else [])
    for ci, cal in enumerate(CALS):
        for tz in zones if cal is not None else ["UTC"]:
            for late in (False, True) if cal else (False,):
                cfg = dict(cal=cal, tz=tz, late=late)
                name = f"cal{ci}-{tz}{'-late' if late else ''}"
                line = boundaries(cal, tz, 60 if deep else 15, "2020-10-22")
                out.append(Scen(name + "-all", cfg, words=[[["t", us] for us in line], [["t", us, "Asia/Tokyo"] for us in line[::3]]], system=SYSTEM))
                if not late:
                    last = "2034-01-15" if deep else "2024-03-01"
                    strides = (1, 7, 28, 29, 30, 31, 61, 365, 366) if deep or ci in (0, 1, 7, 8) else (1, 365)
                    out.append(Scen(name + "-years", cfg, words=[[["t", us] for us in walk(cal, tz, "2017-12-30", last, k)] for k in strides], system=SYSTEM))
                some = boundaries(cal, tz, 1, "2020-10-30") + boundaries(cal, tz, 1, "2020-11-01")[::2] + boundaries(cal, tz, 1, "2020-11-02")[::3]
                some = sorted(set(some))
                if not late:
                    words = [[["t", a], ["t", b]] for i, a in enumerate(some) for b in some[i:]]
                    words += [[["t", some[i]], ["t", some[j]], ["t", some[k]]] for i in range(0, len(some), 2) for j in range(i, len(some), 3)
                              for k in range(j, len(some), 3)]
                    out.append(Scen(name + "-histories", cfg, words=words, system=SYSTEM))
    # calendars that change between two ticks
    plus = [["+", 1800 * S], ["+", 8 * H - S], ["+", 24 * H]]
    changes = [["change", c] for c in (dict(zone="Asia/Tokyo"), dict(zone="America/New_York"), dict(open_time="12:00:00"), dict(close_time="12:00:00"), dict(days=[4, 5]), dict(days=[]),
                                       dict(holidays=["2020-10-30"]), dict(holidays=[]), dict(holiday="2020-10-30"), dict(day=5))]
    for k, cal in enumerate(({}, dict(holidays=["2020-10-30", "2020-11-02"]), dict(holidays=["2020-11-02"]))):
        out.append(Scen(f"changing-{k}", dict(cal=cal, tz="UTC"), plus + changes, 4 + deep, system=SYSTEM))
    return out
