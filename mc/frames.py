"""Lock-step systems for instruments, frame sets and indicators."""
import datetime as D
from fractions import Fraction

from mc import ref
from mc.core import Mismatch, System

import arrow
import estrade
from estrade import Epic, Tick
from estrade.enums import CandleColor, CandleType, PivotType, Unit
from estrade.graph.base_indicator import BaseIndicator, BaseIndicatorValue
from estrade.graph.frame_set import FrameSet
from estrade.graph.indicators.candle_set import CandleSet
from estrade.graph.indicators.pivot import Pivot
from estrade.graph.indicators.rsi import RSI
from estrade.graph.indicators.simple_moving_average import SimpleMovingAverage

assert estrade.__file__.startswith("/repo") or "ESTRADE_REPO" in __import__("os").environ, estrade.__file__

ALWAYS = dict(open_time="00:00:00", close_time="23:59:59.999999", days=[0, 1, 2, 3, 4, 5, 6])


def expect(ok, *what):
    if not ok:
        raise Mismatch(" ".join(str(w() if callable(w) else w) for w in what))


def eq(got, want, *what):
    if got != want or type(got) is bool and type(want) is not bool:
        raise Mismatch(" ".join(str(w) for w in what) + f": got {got!r}, expected {want!r}")


def cents(v, *what):
    """A float that must lie on the cent grid -> integer cents."""
    expect(isinstance(v, (int, float)) and not isinstance(v, bool), *what, f"is not a number: {v!r}")
    c = round(v * 100)
    expect(abs(v * 100 - c) < 1e-4, *what, f"is not an amount to the cent: {v!r}")
    return c


def near(v, exact_cents, *what):
    """v is exact_cents (Fraction of cents), with nothing but float noise."""
    expect(isinstance(v, (int, float)) and not isinstance(v, bool), *what, f"is not a number: {v!r}")
    expect(abs(v * 100 - exact_cents) < 1e-4 + abs(float(exact_cents)) * 1e-14, *what, lambda: f": got {v!r}, expected {float(exact_cents) / 100}")


def rounded(v, exact_cents, *what):
    """v is exact_cents rounded to the cent (either way on a tie)."""
    c = cents(v, *what)
    expect(abs(c - exact_cents) <= Fraction(1, 2) + Fraction(1, 10 ** 6), *what,
           lambda: f": got {v!r}, expected {float(exact_cents) / 100} to the cent")


def round_options(x):
    """Integers x (Fraction) may be rounded to."""
    lo = x.numerator // x.denominator
    r = x - lo
    if r < Fraction(1, 2):
        return {lo}
    if r > Fraction(1, 2):
        return {lo + 1}
    return {lo, lo + 1}


def make_epic(cal, tz, **kw):
    return Epic(
        timezone=tz,
        open_time=D.time.fromisoformat(cal.get("open_time", "09:30:00")),
        close_time=D.time.fromisoformat(cal.get("close_time", "17:30:00")),
        trade_days=list(cal.get("days", [0, 1, 2, 3, 4])),
        holidays=[D.date.fromisoformat(h) for h in cal.get("holidays", [])],
        **kw,
    )


def ref_calendar(cal, tz):
    return ref.Calendar(
        tz, cal.get("open_time", "09:30:00"), cal.get("close_time", "17:30:00"),
        cal.get("days", [0, 1, 2, 3, 4]), cal.get("holidays", []),
    )


def make_indicator(i):
    kw = dict(ref=i["ref"], market_open_only=i.get("gated", False))
    k = i["kind"]
    if k == "base":
        return BaseIndicator(value_class=BaseIndicatorValue, **kw)
    if k == "candle":
        return CandleSet(**kw)
    if k == "ha":
        return CandleSet(candle_type=CandleType.HEIKIN_ASHI, **kw)
    if k == "sma":
        return SimpleMovingAverage(max_periods=i["n"], **kw)
    if k == "rsi":
        return RSI(periods=i["n"], **kw)
    if k == "pivot":
        return Pivot(pivot_type=PivotType[i.get("type", "CLASSIC")], **kw)
    raise AssertionError(k)


def make_tick(us, bid, ask, tz="UTC", style="datetime"):
    dt = ref.from_us(us, ref.zone(tz) if tz != "UTC" else ref.UTC)
    if style == "arrow":
        dt = arrow.get(ref.from_us(us)).to(tz)
    return Tick(datetime=dt, bid=bid / 100, ask=ask / 100)


class RT(ref.RTick):
    """Reference tick with the (validated) value the implementation gives it, in cents."""
    __slots__ = ("c",)


def see_tick(t, what):
    return (ref.to_us(t.datetime), cents(t.bid, what), cents(t.ask, what))


class FrameSystem(System):
    """One instrument with frame sets and indicators, fed tick by tick."""

    def __init__(self, cfg):
        super().__init__(cfg)
        self.tz = cfg.get("tz", "UTC")
        self.cal = cfg.get("cal", ALWAYS)
        self.aspects = cfg["aspects"]
        self.sparse = cfg.get("sparse", False)
        self.epic = make_epic(self.cal, self.tz, ref="E")
        self.rcal = ref_calendar(self.cal, self.tz)
        self.sets, self.rsets, self.inds = {}, {}, {}
        for s in cfg["sets"]:
            fs = FrameSet(unit=Unit[s["unit"]], unit_quantity=s["q"], ref=s["ref"],
                          **({"max_frames_in_memory": s["max"]} if "max" in s else {}))
            self.inds[s["ref"]] = list(s.get("inds", []))
            if cfg.get("attach_first", True):
                self.epic.add_frame_set(fs)
            for i in s.get("inds", []):
                fs.add_indicator(make_indicator(i))
            if not cfg.get("attach_first", True):
                self.epic.add_frame_set(fs)
            self.sets[s["ref"]] = fs
            self.rsets[s["ref"]] = ref.RFrameSet(s["unit"], s["q"], self.tz, s.get("max", 100))
        self.now = cfg["base"]
        self.n = 0
        self.steps = 0
        self.snap = {}
        self.last_sent = None

    # ---------------------------------------------------------------- events
    def step(self, letter):
        self.steps += 1
        op = letter[0]
        if op == "t":  # relative tick: ["t", advance_us, bid, ask(, tz)]
            self.tick(self.now + letter[1], letter[2], letter[3], *letter[4:])
        elif op == "T":  # absolute tick
            self.tick(letter[1], letter[2], letter[3], *letter[4:])
        elif op == "next":  # ["next", k, extra_us, bid, ask]: k-th next period boundary of the first set, plus extra
            us = self.boundary(letter[1]) + letter[2]
            self.tick(max(us, self.now), letter[3], letter[4], *letter[5:])
        elif op == "clock":  # ["clock", "HH:MM:SS", days, bid, ask]: next local occurrence of that time, plus days
            self.tick(self.clock(letter[1], letter[2]), letter[3], letter[4], *letter[5:])
        elif op == "again":  # the same Tick object once more
            if self.n:
                self.send(self.last_sent)
        elif op == "add":  # ["add", frame set, indicator]: from now on
            if all(i["ref"] != letter[2]["ref"] for i in self.has(letter[1])):
                frames = self.rsets[letter[1]].frames
                self.add(letter[1], dict(letter[2], since=(frames[-1].index if frames else -1, self.n)))
            if not self.n:
                return
        else:
            self.other(letter)
        self.compare()

    def has(self, name):
        return self.inds[name]

    def add(self, name, i):
        self.sets[name].add_indicator(make_indicator(i))
        self.inds[name].append(i)
        for (n, _), seen in self.snap.items():
            if n == name:
                seen.append((i["ref"], None))

    def other(self, letter):
        raise AssertionError(letter)

    def clock(self, text, days):
        loc = ref.local(self.now, self.tz).replace(tzinfo=None)
        t = D.datetime.combine(loc.date(), D.time.fromisoformat(text))
        us = ref._wall(t, self.tz)
        if us < self.now:
            days += 1
        return ref._wall(t + D.timedelta(days=days), self.tz)

    def boundary(self, k):
        s = next(x for x in self.cfg["sets"] if x["unit"] != "TICK")
        us = self.now
        for _ in range(k):
            us = ref.period(us, s["unit"], s["q"], self.tz)[1]
        return us

    def tick(self, us, bid, ask, tz="UTC", style="datetime"):
        self.send((make_tick(us, bid, ask, tz, style), us, bid, ask))

    def send(self, sent):
        self.last_sent = sent
        tick, us, bid, ask = sent
        self.now = us
        rt = RT(us, bid, ask, self.rcal.is_open(us), self.n)
        self.n += 1
        rt.c = cents(tick.value, "tick value")
        expect(abs(2 * rt.c - rt.value2) <= 1, "tick value", tick.value)
        self.feed(tick)
        for r in self.rsets.values():
            r.feed(rt)
        self.rtick = rt

    def feed(self, tick):
        self.epic.on_new_tick(tick)

    # ---------------------------------------------------------------- comparison
    def compare(self, final=False):
        full = final or not self.sparse or self.steps % 32 == 0
        for name, fs in self.sets.items():
            rfs = self.rsets[name]
            for aspect in self.aspects:
                getattr(self, "cmp_" + aspect)(name, fs, rfs, full)

    def end(self):
        if self.sparse and self.n:
            self.compare(final=True)

    def pairs(self, name, fs, rfs, full):
        """(position, implementation frame, reference frame), newest ones only when the comparison is partial."""
        want = rfs.retained()
        eq(len(fs.frames), len(want), f"number of frames kept by {name}")
        lo = 0 if full else max(0, len(want) - 3)
        return [(k, fs.frames[k], want[k]) for k in range(lo, len(want))]

    def cmp_frames(self, name, fs, rfs, full):
        for k, f, r in self.pairs(name, fs, rfs, full):
            w = f"{name} frame {r.index} (position {k}, {ref.from_us(r.start)})"
            if r.end is not None:
                eq(ref.from_us(ref.to_us(f.period_start)), ref.from_us(r.start), w, "period_start")
                eq(ref.from_us(ref.to_us(f.period_end)), ref.from_us(r.end), w, "period_end")
            eq(f.nb_ticks, len(r.ticks), w, "nb_ticks")
            self.cmp_ohlc(f, r.ticks, w)

    def cmp_ohlc(self, f, ticks, w):
        for attr, t in (("first_tick", ticks[0]), ("last_tick", ticks[-1])):
            eq(see_tick(getattr(f, attr), w), (t.us, t.bid, t.ask), w, attr)
        for attr, c in (("high_tick", max(t.c for t in ticks)), ("low_tick", min(t.c for t in ticks))):
            got = getattr(f, attr)
            eq(cents(got.value, w), c, w, attr, "value")
            expect(see_tick(got, w) in {(t.us, t.bid, t.ask) for t in ticks}, w, attr, "is not a tick of the frame")

    def cmp_links(self, name, fs, rfs, full):
        want = rfs.retained()
        eq(len(fs.frames), len(want), f"number of frames kept by {name}")
        expect(len(fs.frames) <= rfs.limit or rfs.kept, f"{name} keeps more than {rfs.limit} frames")
        n = len(want)
        for k in range(0 if full else max(0, n - 3), n):
            f, w = fs.frames[k], f"{name} position {k} of {n}"
            expect(f.previous_frame is (fs.frames[k - 1] if k else None), w, "previous_frame")
            expect(f.next_frame is (fs.frames[k + 1] if k + 1 < n else None), w, "next_frame")
            eq(f.closed, k + 1 < n, w, "closed")
        expect(fs.frames[0].previous_frame is None, name, "oldest frame is linked to a dropped one")
        expect(fs.current is fs.frames[-1], name, "current")
        for k in list(range(n if full else min(n, 3))) + [n - 1, n, n + 1, n + 2, 2 * n, 2 * n + 1]:
            f = fs.frames[n - 1 - k] if k < n else None
            expect(self.epic.get_frame(name, k) is f, name, f"get_frame(offset={k}) with {n} frames")
            expect(self.epic.get_frame(frame_set_ref=name, offset=k) is f, name, f"get_frame(offset={k})")
            for i in self.inds[name]:
                v = self.epic.get_indicator_value(name, i["ref"], k)
                expect(v is (f.indicators.get(i["ref"]) if f is not None else None), name, i["ref"],
                       f"get_indicator_value(offset={k}) with {n} frames")
                if v is not None:
                    expect(v.frame is f, name, i["ref"], f"value at offset {k} belongs to another frame")
        expect(self.epic.get_frame(name) is fs.frames[-1], name, "get_frame() is not the current frame")
        for i in self.inds[name]:
            expect(self.epic.get_indicator_value(name, i["ref"]) is fs.frames[-1].indicators.get(i["ref"]), "current value")
            expect(self.epic.get_indicator_value(name, "no such indicator") is None, "value of an unknown indicator")
            got = [f.indicators.get(i["ref"]) for f in fs.frames[0 if full else -3:]]
            for k, v in enumerate(got):
                if v is None:
                    continue
                w = f"{name} {i['ref']} position {k}"
                if full or k:
                    prev = next((x for x in reversed(got[:k]) if x is not None), None)
                    if full or prev is not None:
                        expect(v.previous is prev, w, "previous")
                expect(v.next is (got[k + 1] if k + 1 < len(got) else None), w, "next")
                eq(v.closed, k + 1 < len(got), w, "closed")

    # ---- indicators
    def value_ticks(self, r, gated, since=None):
        ticks = r.ticks
        if since is not None and r.index <= since[0]:  # the indicator was added while this frame was the current one, or later
            ticks = [t for t in ticks if t.n >= since[1]] if r.index == since[0] else []
        return [t for t in ticks if t.open] if gated else ticks

    def chain(self, rfs, gated, since=None):
        """[(reference frame, ticks it counts for the indicator)] of all frames having a value, oldest first."""
        out = []
        for r in rfs.frames:
            ts = self.value_ticks(r, gated, since)
            if ts:
                out.append((r, ts))
        return out

    def cmp_indicators(self, name, fs, rfs, full):
        pairs = self.pairs(name, fs, rfs, full)
        first = pairs[0][2].index if pairs else 0
        oldest = rfs.retained()[0].index if rfs.frames else 0
        chains = {}
        for i in self.inds[name]:
            gated, since = i.get("gated", False), i.get("since")
            if (gated, since) not in chains:
                ch = self.chain(rfs, gated, since)
                chains[gated, since] = (ch, {r.index: pos for pos, (r, _) in enumerate(ch)})
            ch, posof = chains[gated, since]
            expected = None
            for k, f, r in pairs:
                v = f[i["ref"]]
                w = f"{name}.{i['ref']} frame {r.index}"
                if r.index not in posof:
                    expect(v is None, w, "has a value although no tick counted for it")
                    continue
                expect(v is not None, w, "has no value")
                pos = posof[r.index]
                if expected is None and i["kind"] == "ha":
                    expected = self.ha_chain(ch)
                getattr(self, "ind_" + i["kind"])(i, v, f, r, ch, pos, oldest, w, expected)

    def ind_base(self, i, v, f, r, ch, pos, oldest, w, _):
        self.cmp_ohlc(v, ch[pos][1], w)
        expect(v.nb_ticks == f.nb_ticks, w, "nb_ticks")
        expect(v.frame is f, w, "frame")
        prev = ch[pos - 1][0] if pos else None
        got = v.previous
        if prev is not None and prev.index >= oldest:
            expect(got is not None and ref.to_us(got.first_tick.datetime) == ch[pos - 1][1][0].us, w, "previous")
        else:
            expect(got is None, w, "previous exists")

    def ind_candle(self, i, v, f, r, ch, pos, oldest, w, _):
        cs = [t.c for t in ch[pos][1]]
        eq(cents(v.open, w), cs[0], w, "open")
        eq(cents(v.last, w), cs[-1], w, "last")
        eq(cents(v.high, w), max(cs), w, "high")
        eq(cents(v.low, w), min(cs), w, "low")
        self.derived(v, f, w)

    def derived(self, v, f, w):
        o, h, l, x = (cents(getattr(v, a), w, a) for a in ("open", "high", "low", "last"))
        eq(v.close, v.last if f.closed else None, w, "close")
        eq(v.color, CandleColor.GREEN if x > o else CandleColor.RED if x < o else CandleColor.BLACK, w, "color")
        near(v.height, h - l, w, "height")
        eq(cents(v.body, w, "body"), abs(o - x), w, "body")
        eq(cents(v.head, w, "head"), h - max(o, x), w, "head")
        eq(cents(v.tail, w, "tail"), min(o, x) - l, w, "tail")

    def ha_chain(self, ch):
        """Possible (open, last) cents of every Heikin-Ashi candle (sets: ties may round either way)."""
        out = []
        for pos, (r, ts) in enumerate(ch):
            cs = [t.c for t in ts]
            last = round_options(Fraction(cs[0] + max(cs) + min(cs) + cs[-1], 4))
            if pos == 0:
                op = {cs[0]}
            else:
                po, pl = out[-1]
                op = set()
                for a in po:
                    for b in pl:
                        op |= round_options(Fraction(a + b, 2))
            out.append((op, last))
        return out

    def ind_ha(self, i, v, f, r, ch, pos, oldest, w, expected):
        cs = [t.c for t in ch[pos][1]]
        op, last = expected[pos]
        o, x = cents(v.open, w, "open"), cents(v.last, w, "last")
        expect(o in op, w, f"open: got {v.open}, expected {sorted(op)} cents")
        expect(x in last, w, f"last: got {v.last}, expected {sorted(last)} cents")
        eq(cents(v.high, w, "high"), max(o, max(cs), x), w, "high")
        eq(cents(v.low, w, "low"), min(o, min(cs), x), w, "low")
        self.derived(v, f, w)

    def ind_sma(self, i, v, f, r, ch, pos, oldest, w, _):
        n = i["n"]
        ps = range(1, n + 2) if n <= 6 else (1, 2, n // 2, n - 1, n, n + 1)
        for p in ps:
            got = v.get_value(p)
            if p > pos + 1 or p > n:
                expect(got is None, w, f"average over {p} of {pos + 1} frames is {got!r}")
            else:
                exact = Fraction(sum(ch[j][1][-1].c for j in range(pos - p + 1, pos + 1)), p)
                rounded(got, exact, w, f"average over {p} frames")

    def ind_rsi(self, i, v, f, r, ch, pos, oldest, w, _):
        periods = i["n"] * self.rsets_q(f)
        if i.get("gated") and not self.rsi_decided(ch, pos, r):
            return self.rsi_known(i, v, ch, pos, periods, self.rfs_of(r), w)
        if pos < periods:
            expect(v.value is None, w, f"RSI is {v.value!r} after {pos} changes, {periods} needed")
            return
        ch_ = [ch[j][1][-1].c - ch[j - 1][1][-1].c for j in range(pos - periods + 1, pos + 1)]
        up, down = sum(x for x in ch_ if x > 0), -sum(x for x in ch_ if x < 0)
        if down == 0:
            exact = Fraction(10000)
        else:
            exact = 10000 - Fraction(10000) / (1 + Fraction(up, down))
        rounded(v.value, exact, w, "RSI")
        expect(0 <= v.value <= 100, w, "RSI out of bounds")

    def rsi_known(self, i, v, ch, pos, periods, frames, w):
        """With ticks outside market hours: the right value, or the one of the known finding (changes between the last ticks, of any kind, of
        successive frames, over the frames having a value)."""
        right = [ch[j][1][-1].c - ch[j - 1][1][-1].c for j in range(1, pos + 1)][-periods:]
        known = [frames[k].ticks[-1].c - frames[k - 1].ticks[-1].c for k in (c[0].index for c in ch[: pos + 1]) if k][-periods:]
        for changes in (right, known):
            if len(changes) < periods:
                if v.value is None:
                    return
                continue
            up, down = sum(x for x in changes if x > 0), -sum(x for x in changes if x < 0)
            exact = 10000 - Fraction(10000) / (1 + Fraction(up, down)) if down else Fraction(10000)
            if v.value is not None and abs(Fraction(v.value) * 100 - exact) <= Fraction(1, 2) + Fraction(1, 10 ** 6):
                return
        raise Mismatch(f"{w}: RSI is {v.value!r} after the changes {right} (or, see known_findings.json, {known})")

    def rsets_q(self, f):
        return f.parent_frameset.unit_quantity

    def rsi_decided(self, ch, pos, r):
        """Market-hours RSI with ticks outside market hours: see known_findings.json (C11)."""
        return all(t.open for frame in self.rfs_of(r) for t in frame.ticks)

    def rfs_of(self, r):
        for rfs in self.rsets.values():
            if r.index < len(rfs.frames) and rfs.frames[r.index] is r:
                return rfs.frames[: r.index + 1]
        raise AssertionError

    LEVELS = ("support1", "support2", "support3", "resistance1", "resistance2", "resistance3")

    def ind_pivot(self, i, v, f, r, ch, pos, oldest, w, _):
        if pos == 0:
            for a in ("pivot",) + self.LEVELS:
                expect(getattr(v, a) is None, w, a, "without a previous period")
            return
        prev, ts = ch[pos - 1]
        if prev.index < oldest and v.pivot is None:
            return  # the previous period is no longer kept
        cs = [t.c for t in ts]
        h, l, c = max(cs), min(cs), cs[-1]
        if i.get("type", "CLASSIC") == "CLASSIC":
            rounded(v.pivot, Fraction(h + l + c, 3), w, "pivot")
        else:
            rounded(v.pivot, Fraction(h + l + c + ch[pos][1][0].c, 4), w, "pivot")
        p = cents(v.pivot, w, "pivot")
        want = dict(
            support1=2 * p - h, support2=p - (h - l), support3=l - 2 * (h - p),
            resistance1=2 * p - l, resistance2=p + (h - l), resistance3=h + 2 * (p - l),
        )
        for a, x in want.items():
            eq(cents(getattr(v, a), w, a), x, w, a)
        if i.get("type", "CLASSIC") == "CLASSIC":
            lv = [cents(getattr(v, a), w, a) for a in
                  ("support3", "support2", "support1", "pivot", "resistance1", "resistance2", "resistance3")]
            expect(all(b >= a - 2 for a, b in zip(lv, lv[1:])), w, f"levels out of order: {lv}")

    # ---- immutability
    def observe(self, name, f):
        """All observable values of a frame."""
        see = lambda t: see_tick(t, name)
        out = [("period_start", ref.to_us(f.period_start)), ("nb_ticks", f.nb_ticks),
               ("first", see(f.first_tick)), ("last", see(f.last_tick)), ("high", see(f.high_tick)), ("low", see(f.low_tick))]
        if f.period_end is not None:
            out.append(("period_end", ref.to_us(f.period_end)))
        for i in self.inds[name]:
            v = f[i["ref"]]
            if v is None:
                out.append((i["ref"], None))
                continue
            k = i["kind"]
            vals = [see(v.first_tick), see(v.last_tick), see(v.high_tick), see(v.low_tick)]
            if k in ("candle", "ha"):
                vals += [v.open, v.high, v.low, v.last, v.color.name, v.body, v.head, v.tail, v.height]
            elif k == "sma":
                vals += [v.get_value(p) for p in range(1, min(i["n"], 6) + 1)] + [v.get_value(i["n"])]
            elif k == "rsi":
                vals += [v.value]
            out.append((i["ref"], tuple(vals)))
        return out

    def cmp_immutable(self, name, fs, rfs, full):
        for k, f, r in self.pairs(name, fs, rfs, full):
            if k + 1 == len(fs.frames):
                continue
            key = (name, r.index)
            now = self.observe(name, f)
            old = self.snap.setdefault(key, now)
            if old != now:
                diff = [(a, b) for a, b in zip(old, now) if a != b]
                raise Mismatch(f"closed frame {r.index} of {name} changed: {diff}")
            expect(f.closed, name, r.index, "is no longer closed")

    def cmp_windows(self, name, fs, rfs, full):
        """Retained frames are the same as in the frame set with the largest memory (first one listed)."""
        base = self.cfg["sets"][0]["ref"]
        if name == base:
            return
        big = self.sets[base]
        n = len(fs.frames)
        expect(len(big.frames) >= n, "more frames with less memory")
        for j in range(1, (n if full else min(n, 3)) + 1):
            a, b = self.observe(base, big.frames[-j]), self.observe(name, fs.frames[-j])
            if a != b:
                diff = [(x, y) for x, y in zip(a, b) if x != y]
                raise Mismatch(f"offset {j - 1}: {base} and {name} (less memory) differ: {diff}")

    def key(self):
        out = [self.rtick.open if self.n else None]
        for rfs in self.rsets.values():
            out.append(tuple((r.start, r.gap, tuple((t.c, t.open) for t in r.ticks)) for r in rfs.retained()))
        return tuple(out)
