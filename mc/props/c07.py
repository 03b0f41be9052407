import datetime as D

import arrow

from mc import ref
from mc.core import Scen, System
from mc.frames import FrameSet, Unit, expect

S = 1_000_000
MIN, H, DAY = 60 * S, 3600 * S, 86400 * S
RULE = ("for every unit and dividing quantity: every second of an hour, every minute of two days, every day of five years, every half hour and the "
        "adjacent microseconds around every clock change of the listed zones, the instants around every month change; on each instant the "
        "period is compared with the reference calendar, as are the first and last microsecond of the period and the period that follows; "
        "every quantity from 0 to 400 is offered to every unit")
ASSUMPTIONS = ["time zones whose offset changes by whole hours, on the hour (St. John's: from 2012 on), dates before 2037"]


def arr(us, tz):
    return arrow.get(ref.from_us(us)).to(tz)


class SYSTEM(System):
    def __init__(self, cfg):
        super().__init__(cfg)
        self.fs = FrameSet(unit=Unit[cfg["unit"]], unit_quantity=cfg["q"]) if "q" in cfg else None
        self.last = None

    def bounds(self, us):
        tz = self.cfg["tz"]
        start = self.fs.get_frame_start(arr(us, tz))
        end = self.fs.get_frame_end(start)
        return ref.to_us(start), ref.to_us(end), start, end

    def step(self, letter):
        if letter[0] == "q":
            return self.quantity(letter[1], letter[2])
        tz, unit, q = self.cfg["tz"], self.cfg["unit"], self.cfg["q"]
        us = letter[1]
        want = ref.period(us, unit, q, tz)
        s, e, start, end = self.bounds(us)
        show = lambda x: ref.local(x, tz).isoformat()
        w = f"{q} {unit} {tz} at {show(us)}:"
        expect((s, e) == want, w, lambda: f"period {show(s)} - {show(e)}, expected {show(want[0])} - {show(want[1])}")
        expect(s <= us < e, w, "instant outside its period")
        loc = ref.local(s, tz)
        expect((start.year, start.month, start.day, start.hour, start.minute, start.second, start.microsecond) ==
               (loc.year, loc.month, loc.day, loc.hour, loc.minute, loc.second, loc.microsecond), w, "start is not in the instant's timezone", start)
        if s != self.last:  # once per period
            self.last = s
            for inside in {s, e - 1, (s + e) // 2}:
                a, b = self.bounds(inside)[:2]
                expect((a, b) == (s, e), w, lambda: f"{show(inside)}, inside the period, has the period {show(a)} - {show(b)}")
            a, b = ref.to_us(self.fs.get_frame_start(end)), ref.to_us(self.fs.get_frame_end(self.fs.get_frame_start(end)))
            expect(a == e, w, lambda: f"the next period starts at {show(a)}, this one ends at {show(e)}")
            expect((a, b) == ref.period(e, unit, q, tz), w, "following period")

    def quantity(self, unit, q):
        try:
            FrameSet(unit=Unit[unit], unit_quantity=q)
            ok = True
        except Exception:
            ok = False
        expect(ok == (q > 0 and ref.accepted(unit, q)) or (q == 0 and unit in ("TICK", "YEAR")), f"{q} {unit} is {'accepted' if ok else 'refused'}")

    def key(self):
        return (self.cfg.get("q"), self.last)


ZONES = ["UTC", "America/New_York", "Europe/Paris", "Asia/Kolkata", "Asia/Kathmandu", "Asia/Tokyo", "Australia/Sydney", "America/Sao_Paulo",
         "America/Havana", "Pacific/Auckland", "America/St_Johns", "Pacific/Apia"]
QS = dict(SECOND=[1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60], MINUTE=[1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60], HOUR=[1, 2, 3, 4, 6, 12],
          DAY=[1, 7], WEEK=[1], MONTH=[1, 2, 3, 4, 6, 12], YEAR=[1, 2, 5, 7, 10])


def changes(tz, y0, y1):
    """Instants at which the offset of the zone changes."""
    out, us = [], ref.at(f"{y0}-01-01 00:00:00")
    end = ref.at(f"{y1}-01-01 00:00:00")
    off = lambda x: ref.local(x, tz).utcoffset()
    while us < end:
        if off(us) != off(us + DAY):
            lo, hi = us, us + DAY
            while hi - lo > 1:
                mid = (lo + hi) // 2
                lo, hi = (mid, hi) if off(mid) == off(lo) else (lo, mid)
            out.append(hi)
        us += DAY
    return out


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def scenarios(tier):
    deep = tier == "thorough"
    out = []

    def add(name, unit, q, tz, instants):
        instants = sorted(set(instants))
        words = [[["at", x] for x in c] for c in chunks(instants, 60)]
        out.append(Scen(name, dict(unit=unit, q=q, tz=tz), words=words, system=SYSTEM))

    t0 = ref.at("2020-02-28 23:00:00")
    for q in QS["SECOND"]:
        step = S if deep or q in (1, 2, 5, 12, 15, 60) else 7 * S
        add(f"SECOND-{q}-all", "SECOND", q, "Asia/Kolkata", [t0 + k * step + (k % 3) * 499_999 for k in range(3600 * S // step)])
    for unit in ("MINUTE", "HOUR"):
        for q in QS[unit]:
            add(f"{unit}-{q}-all", unit, q, "America/New_York" if q % 2 else "Asia/Kathmandu",
                [t0 + k * MIN + (k % 2) * 59_999_999 for k in range(2880 if deep else 1500)])
    for unit in ("DAY", "WEEK", "MONTH", "YEAR"):
        for q in QS[unit]:
            for tz in ("America/New_York", "Australia/Sydney") if q < 10 else ("America/New_York",):
                add(f"{unit}-{q}-{tz}-all", unit, q, tz, [ref.at("2019-12-25 12:00:00") + k * DAY + (k * 7 % 24) * H for k in range(365 * (9 if deep else 6))])
    months = [(y, m) for y in (range(2018, 2023) if not deep else range(1999, 2028)) for m in range(1, 13)]
    for tz in ZONES:
        around = []
        for c in changes(tz, (2012 if tz == "America/St_Johns" else 1998 if deep else 2010), 2024):
            around += [c + k * 30 * MIN for k in range(-6, 9)] + [c - 1, c + 1, c + H - 1, c - H, c - H - 1, c + 12 * H, c - 12 * H, c + 26 * H]
        edge = []
        for y, m in months:
            if tz == "America/St_Johns" and y < 2012:
                continue
            for z in {tz, "UTC"}:
                b = ref.at(f"{y}-{m:02}-01 00:00:00|{z}")
                edge += [b - 1, b, b + 1, b - 5 * H]
        if not deep and tz not in ("UTC", "America/New_York", "Europe/Paris", "Australia/Sydney"):
            around, edge = around[::2] + around[:46], edge[::3]
        for unit, qs in QS.items():
            for q in qs:
                if unit in ("SECOND", "MINUTE") and q not in (1, 15, 60) and not deep:
                    continue
                if (unit, q) == ("YEAR", 10) and tz in ("Australia/Sydney", "Pacific/Auckland"):
                    continue  # 2040: see ASSUMPTIONS
                add(f"{unit}-{q}-{tz}-changes", unit, q, tz, around + (edge if unit not in ("SECOND", "MINUTE") else []))
    out.append(Scen("quantities", dict(unit="any"), words=[[["q", u, q] for q in range(0, 401)] for u in list(QS) + ["TICK"]], system=SYSTEM))
    return out
