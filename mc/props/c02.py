import arrow

from mc import ref
from mc.core import Scen, pumped
from mc.frames import FrameSystem, expect, eq, make_tick, see_tick
from mc.market import Recorder, diff, see_epic, see_strategy, see_trade

from estrade.enums import TradeDirection
from estrade.exceptions import EstradeException

S = 1_000_000
MIN, H = 60 * S, 3600 * S
RULE = ("every sequence of ticks drawn from a set of instants (around clock changes, midnight, ties, one microsecond apart), each given in several "
        "timezones, to the stated depth; acceptance, last tick and frames compared after every tick, the whole public state compared before and "
        "after every refused tick")
ASSUMPTIONS = ["instants after 1900"]
INDS = [dict(ref="c", kind="candle"), dict(ref="h", kind="ha"), dict(ref="s", kind="sma", n=3), dict(ref="p", kind="pivot"),
        dict(ref="r", kind="rsi", n=1)]


class SYSTEM(FrameSystem):
    def __init__(self, cfg):
        super().__init__(dict(cfg, sets=[dict(ref="m", unit="MINUTE", q=30, max=30, inds=INDS), dict(ref="t", unit="TICK", q=2, inds=INDS)],
                              base=0, aspects=["frames"]))
        self.calls = []
        self.strategies = [Recorder(self, "s1"), Recorder(self, "s2")]
        for s in self.strategies:
            self.epic.add_strategy(s)
        self.trade = None

    def callback(self, strategy, kind, epic):
        self.calls.append((strategy.ref, kind, id(epic.last_tick)))

    def snapshot(self):
        return see_epic(self.epic) + [see_strategy(s) for s in self.strategies] + list(self.calls) + \
            [see_trade(t) for t in self.epic.trade_provider.trades]

    def tick(self, us, bid, ask, tz="UTC", style="datetime"):
        if self.n and us < self.now:
            tick = make_tick(us, bid, ask, tz, style)
            before = self.snapshot()
            try:
                self.epic.on_new_tick(tick)
                refused = False
            except Exception as e:
                refused = True
                expect(isinstance(e, EstradeException), "refused with", repr(e))
            w = f"tick at {ref.local(us, self.tz)} after {ref.local(self.now, self.tz)}"
            expect(refused, w, "is accepted")
            after = self.snapshot()
            expect(before == after, w, "is refused but changes", lambda: diff(before, after))
            return
        super().tick(us, bid, ask, tz, style)
        t = self.epic.last_tick
        w = f"tick at {ref.local(us, self.tz)}, given in {tz}"
        expect(t is self.given, w, "is not the last tick")
        loc = ref.local(us, self.tz)
        eq((t.datetime.replace(tzinfo="UTC").naive, t.datetime.utcoffset()), (loc.replace(tzinfo=None, fold=0), loc.utcoffset()), w, "local time")
        eq(see_tick(t, w), (us, bid, ask), w)
        for month in (1, 7):  # it follows the clock of the instrument's zone, not one that happens to show the same time
            wall = loc.replace(month=month, day=15, hour=12, fold=0)
            eq(t.datetime.replace(month=month, day=15, hour=12).utcoffset(), wall.utcoffset(), w, "offset in month", month)
        if self.trade is None:
            self.trade = self.epic.open_trade(direction=TradeDirection.BUY, quantity=3, strategy=self.strategies[0], ref="t1")
            self.strategies[1].paused_until = arrow.get(ref.from_us(us + 1))

    def feed(self, tick):
        self.given = tick
        self.epic.on_new_tick(tick)

    def compare(self, final=False):
        if self.n:
            super().compare(final)

    def key(self):
        return (self.now, super().key()) if self.n else None


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    prices = [(100, 102), (99, 99), (103, 105)]

    def alphabet(instants, zones, style="datetime"):
        out = []
        for k, us in enumerate(instants):
            for j, z in enumerate(zones):
                out.append(["T", us, *prices[(k + j) % 3], z, "arrow" if (k + j) % 2 else style])
        return out

    for tz, change, depth in (("America/New_York", "2020-11-01 06:00:00", 3), ("Europe/Paris", "2020-10-25 01:00:00", 3),
                              ("America/New_York", "2020-03-08 07:00:00", 3), ("America/Sao_Paulo", "2018-02-18 02:00:00", 3)):
        c = ref.at(change)
        ins = [c - 30 * MIN, c - 1, c, c + 30 * MIN, c + H, c + 2 * H]
        name = f"{tz}-{change[:10]}"
        out.append(Scen(name + "-zones", dict(tz=tz), alphabet(ins, [tz, "UTC"]), depth + deep, system=SYSTEM))
        out.append(Scen(name + "-deep", dict(tz=tz), alphabet(ins[:5], [tz]), 5 + deep, system=SYSTEM))
        out.append(Scen(name + "-utc-instrument", dict(tz="UTC"), alphabet(ins[:4], [tz, "Asia/Tokyo"]), 3 + deep, system=SYSTEM))
    m = ref.at("2020-01-01 00:00:00")
    out.append(Scen("midnight", dict(tz="Asia/Tokyo"), alphabet([m - 9 * H - 1, m - 9 * H, m - 1, m, m + 1], ["Asia/Tokyo", "America/New_York"]), 4,
                    system=SYSTEM))
    out.append(Scen("ties", dict(tz="UTC"), alphabet([m, m + 1, m + 2], ["UTC", "Europe/London", "Asia/Kolkata"]), 4 + deep, system=SYSTEM))
    out.append(Scen("market-hours", dict(tz="Europe/Paris", cal={}), alphabet([m + 8 * H, m + 8 * H + 30 * MIN, m + 17 * H], ["Europe/Paris", "UTC"]), 4,
                    system=SYSTEM))
    # long feeds, then a late tick, one at the same instant and one after
    words = []
    for tz, zone in (("UTC", "UTC"), ("America/New_York", "Asia/Tokyo")):
        for step in (1, MIN, 7 * H):
            for n in (64, 101, 257):
                feed = [["T", m + k * step, *prices[k % 3], zone, "arrow" if k % 5 else "datetime"] for k in range(n)]
                last = feed[-1][1]
                words.append(feed + [["T", x, *prices[0], z, "arrow"] for x in (last - 1, m, last, last - step, last, last + 1) for z in ("UTC", zone)])
    out.append(Scen("long-feeds", dict(tz="America/New_York"), words=words, system=SYSTEM))
    return out
