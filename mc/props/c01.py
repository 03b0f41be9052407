import datetime as D
from decimal import Decimal
from fractions import Fraction

import arrow
import dateutil.tz
import pytz

from mc import ref
from mc.core import Mismatch, Scen, System
from mc.frames import Epic, Tick, expect, make_epic

RULE = ("every pair of a grid of bid/ask values (ints, floats, below the cent, zero, negative, huge, and non numbers) and every datetime of a list "
        "(naive and aware, every way of giving a timezone, both occurrences of a repeated hour, skipped hours, microseconds, wrong types) "
        "crossed with a set of prices; every observable of the tick compared with exact arithmetic; then reassigned by the setters and moved to other zones")
ASSUMPTIONS = ["booleans, nan and infinities are left unspecified; an amount exactly between two cents may be rounded either way"]

GOOD = ["0", "1", "-1", "100", "99.99", "100.01", "0.01", "-0.01", "0.5", "1.005", "1.001", "1.006", "1.10531", "1.10537", "2.675", "-2.675",
        "12345678.91", "1000000000", "1e-07", "0.1", "0.2", "0.3", "33.33", "66.67"]
BAD = ["'12'", "None", "[]", "{}", "'abc'", "object", "b'1'", "(1,)"]


def value(text):
    if text in BAD:
        return object() if text == "object" else eval(text)
    return int(text) if "." not in text and "e" not in text else float(text)


def exact(text):
    return Fraction(Decimal(text)) if text not in BAD else None


ZN = ref.zone


class NoOffset(D.tzinfo):
    """A zone that knows no offset: the datetime is naive by Python's definition."""

    def utcoffset(self, dt):
        return None

    dst = tzname = utcoffset


def dts():
    """name -> (datetime object, instant or None when it must be refused)."""
    out = {}

    def ok(name, dt, us):
        out[name] = (dt, us)

    def no(name, dt):
        out[name] = (dt, None)

    u = ref.at
    utc = D.timezone.utc
    ok("utc", D.datetime(2020, 1, 1, 12, 0, tzinfo=utc), u("2020-01-01 12:00:00"))
    ok("utc-us", D.datetime(2020, 1, 1, 12, 34, 56, 789012, tzinfo=utc), u("2020-01-01 12:34:56.789012"))
    ok("arrow", arrow.get("2020-01-01 12:00:00"), u("2020-01-01 12:00:00"))
    ok("arrow-zone", arrow.get("2020-06-01 12:00:00").replace(tzinfo="America/Toronto"), u("2020-06-01 12:00:00|America/Toronto"))
    ok("pytz-utc", D.datetime(2020, 1, 1, 12, 0, tzinfo=pytz.utc), u("2020-01-01 12:00:00"))
    ok("dateutil-utc", D.datetime(2020, 1, 1, 12, 0, tzinfo=dateutil.tz.UTC), u("2020-01-01 12:00:00"))
    for h, m in ((5, 45), (-3, -30), (14, 0), (-12, 0), (0, 1)):
        tz = D.timezone(D.timedelta(hours=h, minutes=m))
        ok(f"fixed{h}:{m}", D.datetime(2020, 2, 29, 23, 59, 59, 999999, tzinfo=tz), u("2020-02-29 23:59:59.999999") - (h * 60 + m) * 60 * ref.US)
    for zone, local in (
        ("America/New_York", "2020-11-01 01:30:00"), ("Europe/Paris", "2020-10-25 02:00:00"), ("Europe/Paris", "2020-10-25 02:59:59.999999"),
        ("Australia/Sydney", "2020-04-05 02:30:00"), ("America/Sao_Paulo", "2018-02-17 23:30:00"), ("Europe/London", "2020-10-25 01:15:00"),
        ("America/New_York", "2020-07-01 09:30:00"), ("America/New_York", "2020-03-08 02:30:00"), ("Europe/Paris", "2020-03-29 02:30:00"),
        ("Asia/Kolkata", "2020-07-01 09:30:00"), ("Pacific/Apia", "2020-07-01 09:30:00"), ("Asia/Tokyo", "1999-12-31 23:59:59"),
    ):
        naive = D.datetime.fromisoformat(local)
        for fold in (0, 1):
            # the instant a datetime stands for is defined by Python: local time minus utcoffset()
            for lib, tz in (("zoneinfo", ZN(zone)), ("dateutil", dateutil.tz.gettz(zone))):
                dt = naive.replace(tzinfo=tz, fold=fold)
                ok(f"{lib} {zone} {local} {fold}", dt, ref.to_us(dt))
            dt = pytz.timezone(zone).localize(naive, is_dst=not fold)
            ok(f"pytz {zone} {local} {fold}", dt, ref.to_us(dt))
            dt = pytz.timezone(zone).normalize(dt)
            ok(f"pytz normalized {zone} {local} {fold}", dt, ref.to_us(dt))
            a = arrow.get(ref.from_us(ref.to_us(naive.replace(tzinfo=ZN(zone), fold=fold)))).to(zone)
            ok(f"arrow {zone} {local} {fold}", a, ref.to_us(naive.replace(tzinfo=ZN(zone), fold=fold)))
    no("naive", D.datetime(2020, 1, 1, 12, 0))
    no("naive-now-like", D.datetime(2020, 1, 1, 12, 0, 0, 1, fold=1))
    no("zone without offset", D.datetime(2020, 1, 1, 12, 0, tzinfo=NoOffset()))
    no("text", "2020-01-01 12:00:00")
    no("text-zoned", "2020-01-01T12:00:00+00:00")
    no("number", 1577880000)
    no("float", 1577880000.5)
    no("none", None)
    no("date", D.date(2020, 1, 1))
    no("time", D.time(12, 0))
    no("time-zoned", D.time(12, 0, tzinfo=utc))
    no("timedelta", D.timedelta(1))
    return out


DTS = dts()
TZS = ("UTC", "America/New_York", "Asia/Tokyo", "Europe/Paris", "Asia/Kathmandu")


def cent_ok(got, exact_units):
    """got is exact_units rounded to the cent."""
    return isinstance(got, (int, float)) and abs(got * 100 - round(got * 100)) < 1e-4 and \
        abs(Fraction(got) - exact_units) <= Fraction(5, 1000) + Fraction(1, 10 ** 7)


class SYSTEM(System):
    def __init__(self, cfg):
        super().__init__(cfg)
        self.made = []

    def build(self, dt, bid, ask, **kw):
        try:
            return Tick(datetime=dt, bid=value(bid), ask=value(ask), **kw)
        except Exception:
            return None

    def check(self, tick, us, bid, ask, w):
        expect(ref.to_us(tick.datetime) == us, w, lambda: f"instant {ref.from_us(ref.to_us(tick.datetime))} instead of {ref.from_us(us)}")
        expect(ref.to_us(tick.datetime_utc) == us and not tick.datetime_utc.utcoffset(), w, "datetime_utc", lambda: tick.datetime_utc)
        expect(tick.bid == value(bid) and tick.ask == value(ask), w, f"bid/ask {tick.bid}/{tick.ask}")
        b, a = exact(bid), exact(ask)
        expect(cent_ok(tick.spread, a - b), w, f"spread {tick.spread}, expected {float(a - b)}")
        expect(cent_ok(tick.value, (a + b) / 2), w, f"value {tick.value}, expected {float((a + b) / 2)}")
        d = tick.asdict()
        expect(ref.to_us(d["datetime"]) == us and (d["bid"], d["ask"], d["spread"], d["value"]) == (tick.bid, tick.ask, tick.spread, tick.value),
               w, "asdict")
        expect(d["datetime"].utcoffset() == tick.datetime.utcoffset(), w, "asdict is in another zone")
        loc = tick.datetime
        text = f"{loc.year:04}-{loc.month:02}-{loc.day:02} {loc.hour:02}:{loc.minute:02}:{loc.second:02}"
        expect(tick.asdict(datetime_to_str=True)["datetime"] == text, w, "asdict as text")

    def step(self, letter):
        op, name, bid, ask = letter
        self.seen = (name, bid, ask)
        dt, us = DTS[name]
        w = f"Tick({name}, bid={bid}, ask={ask})"
        valid = us is not None and exact(bid) is not None and exact(ask) is not None and exact(bid) <= exact(ask)
        tick = self.build(dt, bid, ask)
        expect((tick is not None) == valid, w, "is accepted" if tick is not None else "is refused")
        if tick is None:
            return
        self.check(tick, us, bid, ask, w)
        for tz in TZS:  # expressed in another timezone it is still the same instant
            tick.datetime = tick.datetime.to(tz)
            self.check(tick, us, bid, ask, w + " in " + tz)
        if op == "epic":
            for tz in TZS:
                epic = make_epic({}, tz, ref=tz)
                other = self.build(dt, bid, ask)
                epic.on_new_tick(other)
                expect(epic.last_tick is other, w, "last tick")
                self.check(other, us, bid, ask, w + " on an instrument in " + tz)
        if op == "epic":  # given another instant, or refusing one
            for other_name in ("utc-us", "arrow-zone", "fixed5:45", "naive", "text"):
                odt, ous = DTS[other_name]
                other = self.build(dt, bid, ask)
                self.check(other, us, bid, ask, w)
                try:
                    other.datetime = odt
                except Exception:
                    expect(ous is None, w, other_name, "is refused as new datetime")
                else:
                    expect(ous is not None, w, other_name, "is accepted as new datetime")
                self.check(other, us if ous is None else ous, bid, ask, f"{w} given {other_name}")
        # metadata
        expect(tick.meta == {}, w, "metadata of a new tick", tick.meta)
        tick.meta["seen"] = len(self.made)
        self.made.append(tick)
        again = self.build(dt, bid, ask)
        expect(again.meta == {}, w, "shares its metadata with another tick", again.meta)
        own = {"a": 1}
        other = self.build(dt, bid, ask, meta=own)
        expect(other.meta == {"a": 1} and tick.meta == {"seen": len(self.made) - 1}, w, "metadata given", other.meta)
        for wrong in BAD:  # values are checked when they are changed too
            for attr in ("bid", "ask"):
                try:
                    setattr(again, attr, value(wrong))
                except Exception:
                    pass
                else:
                    raise Mismatch(f"{w}: {attr} = {wrong} is accepted")
        self.check(again, us, bid, ask, w)
        for b, a in ((bid, "12345678.91"), ("-2.675", "12345678.91"), ("-2.675", ask), (bid, ask)):  # a corrected tick reports its new values
            if exact(b) <= exact(bid) and exact(a) >= exact(ask):
                again.bid, again.ask = value(b), value(a)
                self.check(again, us, b, a, f"{w} corrected to {b}/{a}")

    def end(self):
        for k, t in enumerate(self.made):
            expect(t.meta == {"seen": k}, "metadata of tick", k, "became", t.meta)

    def key(self):
        return self.seen


def scenarios(tier):
    vals = GOOD + BAD
    out = [Scen("values", {}, words=[[["tick", n, b, a] for a in vals] for b in vals for n in ("utc", "arrow-zone", "naive", "time-zoned")], system=SYSTEM)]
    pairs = [("100", "102"), ("-2.675", "0"), ("1.10531", "1.10537"), ("5", "5"), ("102", "100"), ("None", "1"), ("1", "'12'")]
    pairs = [p for p in pairs if all(x in vals or x == "5" or x == "102" for x in p)]
    out.append(Scen("datetimes", {}, words=[[["epic", n, b, a] for b, a in pairs] for n in DTS], system=SYSTEM))
    grid = [f"{k / 100:.2f}" for k in (range(-130, 131) if tier == "thorough" else range(-30, 31))] + [f"{k / 1000:.3f}" for k in range(985, 1026)]
    out.append(Scen("cents", {}, words=[[["tick", "utc", b, a] for a in grid] for b in grid], system=SYSTEM))
    return out
