"""Reference model: plain Python, no estrade, no arrow, no dateutil.

Instants are integer microseconds since the epoch; prices integer cents (tick values: integer half cents).
"""
import datetime as D
from fractions import Fraction
from zoneinfo import ZoneInfo

UTC = D.timezone.utc
EPOCH = D.datetime(1970, 1, 1, tzinfo=UTC)
US = 1_000_000
_ZONES = {}


def zone(name):
    z = _ZONES.get(name)
    if z is None:
        z = _ZONES[name] = ZoneInfo(name)
    return z


def to_us(dt):
    """Instant of an aware datetime (or Arrow) as integer microseconds."""
    off = dt.utcoffset()
    naive = D.datetime(dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, dt.microsecond)
    delta = (naive - off) - D.datetime(1970, 1, 1)
    return (delta.days * 86400 + delta.seconds) * US + delta.microseconds


def from_us(us, tz=UTC):
    dt = EPOCH + D.timedelta(microseconds=us)
    return dt if tz is UTC else dt.astimezone(tz)


def at(text):
    """'2020-01-06 09:30:00' (UTC) -> microseconds; an optional '|Zone' gives local time, '|Zone|1' fold."""
    parts = text.split("|")
    dt = D.datetime.fromisoformat(parts[0])
    tz = zone(parts[1]) if len(parts) > 1 else UTC
    fold = int(parts[2]) if len(parts) > 2 else 0
    return to_us(dt.replace(tzinfo=tz, fold=fold))


def local(us, tzname):
    return from_us(us, zone(tzname))


CYCLES = {"SECOND": 60, "MINUTE": 60, "HOUR": 12, "DAY": 7, "WEEK": 1, "MONTH": 12}


def accepted(unit, q):
    return unit in ("TICK", "YEAR") or CYCLES[unit] % q == 0


def _wall(naive, tzname):
    """Instant of a wall clock time (first occurrence; the moment clocks jump for a skipped one)."""
    return to_us(naive.replace(tzinfo=zone(tzname), fold=0))


def period(us, unit, q, tzname):
    """(start, end) of the calendar period the instant belongs to."""
    loc = local(us, tzname)
    if unit == "SECOND":
        start = us - us % US - (loc.second % q) * US
        return start, start + q * US
    if unit == "MINUTE":
        start = us - loc.microsecond - loc.second * US - (loc.minute % q) * 60 * US
        return start, start + q * 60 * US
    naive = loc.replace(tzinfo=None)
    day = naive.replace(hour=0, minute=0, second=0, microsecond=0)
    if unit == "HOUR":
        s = day + D.timedelta(hours=naive.hour - naive.hour % q)
        e = s + D.timedelta(hours=q)
    elif unit == "DAY":
        s = day - D.timedelta(days=day.weekday() % q)
        e = s + D.timedelta(days=q)
    elif unit == "WEEK":
        s = day - D.timedelta(days=day.weekday())
        e = s + D.timedelta(days=7)
    elif unit == "MONTH":
        s = day.replace(month=naive.month - (naive.month - 1) % q, day=1)
        m = s.month - 1 + q
        e = s.replace(year=s.year + m // 12, month=m % 12 + 1)
    elif unit == "YEAR":
        s = day.replace(year=naive.year - naive.year % q, month=1, day=1)
        e = s.replace(year=s.year + q)
    else:
        raise AssertionError(unit)
    return _wall(s, tzname), _wall(e, tzname)


class Calendar:
    def __init__(self, tz="UTC", open_time="09:30:00", close_time="17:30:00", days=(0, 1, 2, 3, 4), holidays=()):
        self.tz = tz
        self.open = D.time.fromisoformat(open_time)
        self.close = D.time.fromisoformat(close_time)
        self.days = set(days)
        self.holidays = {D.date.fromisoformat(h) for h in holidays}

    def is_open(self, us):
        loc = local(us, self.tz)
        t = loc.replace(tzinfo=None).time()
        return self.open <= t <= self.close and loc.weekday() in self.days and loc.date() not in self.holidays


class RTick:
    __slots__ = ("us", "bid", "ask", "open", "n")

    def __init__(self, us, bid, ask, open_, n):
        self.us, self.bid, self.ask, self.open, self.n = us, bid, ask, open_, n

    @property
    def value2(self):
        """Midpoint in half cents."""
        return self.bid + self.ask

    def __repr__(self):
        return f"tick#{self.n}({from_us(self.us)}, {self.bid}/{self.ask}c, {'open' if self.open else 'closed'})"


class RFrame:
    """Reference frame: the ticks it holds; a gap frame holds the repeated tick."""
    __slots__ = ("start", "end", "ticks", "gap", "index")

    def __init__(self, index, start, end, tick, gap):
        self.index, self.start, self.end, self.ticks, self.gap = index, start, end, [tick], gap

    def key(self):
        return (self.start, self.end, self.gap, tuple(t.n for t in self.ticks))


class RFrameSet:
    def __init__(self, unit, q, tz, limit):
        self.unit, self.q, self.tz, self.limit = unit, q, tz, limit
        self.frames = []  # every frame ever made
        self.last = None
        self.kept = self.counted = None

    def feed(self, tick):
        if self.unit == "TICK":
            cur = self.frames[-1] if self.frames else None
            if (
                cur is None
                or len(cur.ticks) >= self.q
                or local(tick.us, self.tz).date() > local(self.last.us, self.tz).date()
            ):
                self.frames.append(RFrame(len(self.frames), tick.us, None, tick, False))
            else:
                cur.ticks.append(tick)
        else:
            start, end = period(tick.us, self.unit, self.q, self.tz)
            if self.frames and start == self.frames[-1].start:
                self.frames[-1].ticks.append(tick)
            else:
                while self.frames and self.frames[-1].end < start:
                    prev = self.frames[-1]
                    s, e = period(prev.end, self.unit, self.q, self.tz)
                    assert s == prev.end and e > s, (s, prev.end, e)
                    self.frames.append(RFrame(len(self.frames), s, e, prev.ticks[-1], True))
                assert not self.frames or self.frames[-1].end == start
                self.frames.append(RFrame(len(self.frames), start, end, tick, False))
        self.last = tick

    def set_limit(self, limit):
        """From the next frame on."""
        self.kept, self.counted = len(self.retained()), len(self.frames)
        self.limit = limit

    def retained(self):
        if self.counted is None:
            return self.frames[-self.limit:]
        for _ in range(len(self.frames) - self.counted):
            self.kept = min(self.kept + 1, self.limit)
        self.counted = len(self.frames)
        return self.frames[len(self.frames) - self.kept:]


def half_cent_close(value, exact):
    """Is the float `value` the exact amount (Fraction, in units) rounded to the cent (ties either way)?"""
    cents = value * 100
    return abs(cents - round(cents)) < 1e-6 and abs(Fraction(value) - exact) <= Fraction(5, 1000) + Fraction(1, 10**8)
