from mc import ref
from mc.core import Scen, pumped
from mc.frames import ALWAYS, FrameSystem
from mc.trades import TradeSystem

S = 1_000_000
MIN = 60 * S
RULE = ("every sequence of ticks (or orders and closes) and of looks - complete readings of everything public, or readings of one frame or one trade - to "
        "the stated depth, so that every result is looked at for the first time at every possible moment, repeatedly, or only at the end; whenever it is, it is compared "
        "with the reference")
ASSUMPTIONS = []
INDS = [dict(ref="c", kind="candle"), dict(ref="h", kind="ha"), dict(ref="s", kind="sma", n=3), dict(ref="r", kind="rsi", n=2), dict(ref="p", kind="pivot"),
        dict(ref="o", kind="pivot", type="OLHC"), dict(ref="g", kind="ha", gated=True), dict(ref="q", kind="sma", n=2, gated=True)]


def read_all(x):
    """Read every public attribute; one that cannot be read (yet) is not judged."""
    for n in dir(x):
        if not n.startswith("_"):
            try:
                getattr(x, n)
            except Exception:
                pass


class Frames(FrameSystem):
    looking = False

    def other(self, letter):
        op = letter[0]
        if op == "look":
            self.looking = True
        elif op == "peek" and self.n:  # read one frame only, or the oldest ones, without comparing
            for name in self.sets:
                for k in [letter[1]] if letter[1] >= 0 else range(len(self.sets[name].frames))[letter[1]:]:
                    f = self.epic.get_frame(name, k)
                    if f is None:
                        continue
                    self.observe(name, f)
                    for i in self.inds[name]:
                        v = self.epic.get_indicator_value(name, i["ref"], k)
                        read_all(v)
                    read_all(f)
                read_all(self.sets[name])
            read_all(self.epic)

    def compare(self, final=False):
        if self.n and (final or self.looking):
            self.looking = False
            super().compare(True)

    def end(self):
        self.compare(True)


class Trades(TradeSystem):
    looking = False

    def do_look(self):
        self.looking = True

    def do_peek(self, which):
        t = self.pick(which)
        if t is not None:
            i = t.impl
            read_all(i)
            i.asdict()
            for x in i.closes + [i.epic]:
                read_all(x)
            for s in self.strategies.values():
                read_all(s)
                s.result(), s.profit_factor(), list(s.get_trades(open_only=True))
            for p in self.providers.values():
                read_all(p)

    def compare(self):
        if self.looking:
            self.looking = False
            super().compare()

    def end(self):
        self.looking = True
        self.compare()


SYSTEM = Frames


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    base = ref.at("2020-01-06 09:00:00")
    letters = [["t", 20 * MIN, 101, 103], ["t", 0, 96, 98], ["next", 1, 0, 105, 107], ["next", 3, 1, 93, 99]]
    looks = [["look"], ["peek", 0], ["peek", -2]]
    for limit in (3, 100):
        cfg = dict(sets=[dict(ref="f", unit="HOUR", q=1, max=limit, inds=INDS)], base=base, cal={}, tz="UTC", aspects=["frames", "links", "indicators"])
        out.append(Scen(f"hour-{limit}", cfg, letters + looks, 5 + deep, system=Frames))
    cfg = dict(sets=[dict(ref="f", unit="TICK", q=2, max=4, inds=INDS), dict(ref="d", unit="DAY", q=1, inds=INDS[:3])], base=base, cal={}, tz="UTC",
               aspects=["frames", "links", "indicators"])
    out.append(Scen("tick", cfg, letters[:2] + [["clock", "10:00:00", 0, 104, 104], ["clock", "18:00:00", 0, 97, 103]] + looks[:2], 5 + deep, system=Frames))
    # long histories looked at only at the end, or once
    words = []
    for w in pumped(letters, 2, 24):
        words.append(w)
        for k in range(1, 24):
            words.append(w[:k] + [["look"]] + w[k:])
            if deep or k % 3 == 0:
                words.append(w[:k] + [["peek", -k % 2 * -2]] + w[k:])
    cfg = dict(sets=[dict(ref="f", unit="HOUR", q=1, max=12, inds=INDS[:-2]), dict(ref="m", unit="MINUTE", q=30, inds=INDS)], base=base, cal={}, tz="UTC", aspects=["frames", "links", "indicators"])
    out.append(Scen("long", cfg, words=words, system=Frames))

    o = lambda s, e, d, q, *via: ["open", s, e, d, q, *via]
    ticks = [["t", "A", 107, 109], ["t", "A", 93, 95], ["t", "B", 190, 195]]
    opens = [o("s", "A", "BUY", 3), o("s", "A", "SELL", 2), o("s", "B", "SELL", 2)]
    closes = [["close", "new", 1], ["close", "old", None, "strategy"], ["closeall", "s"]]
    tlooks = [["look"], ["peek", "new"], ["peek", "old"]]
    for name, prov in (("shared", "P"), ("own", "Q")):
        cfg = dict(epics={"A": "P", "B": prov}, strategies=["s"], aspects=["figures", "quantities", "extremes"], lead=[["t", "A", 100, 102], ["t", "B", 200, 202]])
        out.append(Scen(f"trades-{name}", cfg, (ticks[1:] + opens + closes[::2] + tlooks[::2] if name == "shared" else ticks + opens + closes + tlooks[:2]), (5 if name == "shared" else 4) + deep, system=Trades))
    return out
