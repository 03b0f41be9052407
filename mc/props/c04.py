import itertools

from mc import ref
from mc.core import Mismatch, Scen, System
from mc.frames import eq, expect, make_epic, make_tick, ref_calendar
from mc.market import Recorder

S = 1_000_000
H = 3600 * S
RULE = ("every sequence of ticks (open, closed, opening and closing instants, refused ones, ticks of another instrument) and of strategies being added, "
        "to the stated depth, with 0-3 strategies of which one belongs to two instruments; the exact list of callbacks compared after every tick")
ASSUMPTIONS = ["the market counts as closed before the first tick"]


class SYSTEM(System):
    def __init__(self, cfg):
        super().__init__(cfg)
        self.calls = []
        self.epics = {name: make_epic(cal, tz, ref=name) for name, cal, tz in cfg["epics"]}
        self.cals = {name: ref_calendar(cal, tz) for name, cal, tz in cfg["epics"]}
        self.open = {name: False for name in self.epics}
        self.last = {name: None for name in self.epics}
        self.subs = {name: [] for name in self.epics}
        self.strategies = {}
        for name, s in cfg["subs"]:
            self.add(name, s)

    def add(self, name, s):
        if s in self.subs[name]:
            return
        if s not in self.strategies:
            self.strategies[s] = Recorder(self, s)
        self.epics[name].add_strategy(self.strategies[s])
        self.subs[name].append(s)

    def callback(self, strategy, kind, epic):
        self.calls.append((strategy.ref, kind, epic.ref if self.epics.get(epic.ref) is epic else epic))

    def step(self, letter):
        if letter[0] == "add":
            self.calls.clear()
            self.add(letter[1], letter[2])
            eq(self.calls, [], "callbacks when a strategy is added")
            return
        _, name, us = letter
        epic, tick = self.epics[name], make_tick(us, 100, 102)
        self.calls.clear()
        w = f"callbacks for a tick of {name} at {ref.local(us, self.cals[name].tz)}"
        if self.last[name] is not None and us < self.last[name]:
            try:
                epic.on_new_tick(tick)
            except Exception:
                eq(self.calls, [], w, "(refused)")
                return
            raise Mismatch("tick out of order accepted")
        epic.on_new_tick(tick)
        self.last[name] = us
        before, now = self.open[name], self.cals[name].is_open(us)
        self.open[name] = now
        want = []
        for s in self.subs[name]:
            if before != now:
                want.append((s, "on_market_open" if now else "on_market_close", name))
            if now:
                want.append((s, "on_every_tick_market_open", name))
            want.append((s, "on_every_tick", name))
        eq(self.calls, want, w)

    def key(self):
        return (tuple(self.open.items()), tuple(map(tuple, self.subs.values())), tuple(self.last.items()))


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    m = ref.at("2020-01-06 00:00:00")
    ev = lambda name, *hours: [["t", name, m + int(h * H)] for h in hours]
    one = [["A", {}, "UTC"]]
    two = one + [["B", dict(open_time="12:00:00", close_time="20:00:00"), "UTC"]]
    hours = (9, 9.5, 12, 17.5, 18, 24 + 8, 24 + 10, 5 * 24 + 12, 15 * 24 + 12)
    for n in (1, 2, 3):
        subs = [["A", f"s{k}"] for k in range(n, 0, -1)]
        out.append(Scen(f"one-instrument-{n}", dict(epics=one, subs=subs), ev("A", *hours), (5 if n == 2 else 4) + deep, system=SYSTEM))
    out.append(Scen("boundaries", dict(epics=one, subs=[["A", "s"]]),
                    [["t", "A", m + 9 * H + 1800 * S - 1], ["t", "A", m + 9 * H + 1800 * S], ["t", "A", m + 17 * H + 1800 * S],
                     ["t", "A", m + 17 * H + 1800 * S + 1], ["t", "A", m + 24 * H + 10 * H]], 6, system=SYSTEM))
    out.append(Scen("two-instruments", dict(epics=two, subs=[["A", "x"], ["A", "both"], ["B", "both"], ["B", "y"]]),
                    ev("A", 9, 10, 18, 34) + ev("B", 10, 13, 21, 37), 5, system=SYSTEM))
    out.append(Scen("additions", dict(epics=two, subs=[]),
                    ev("A", 9, 10, 18) + ev("B", 11, 13) + [["add", "A", "x"], ["add", "A", "y"], ["add", "B", "x"]], 5 + deep, system=SYSTEM))
    out.append(Scen("zones", dict(epics=[["A", {}, "America/New_York"], ["B", {}, "Asia/Tokyo"]], subs=[["A", "x"], ["B", "x"]]),
                    ev("A", 14, 15, 23, 39) + ev("B", 0, 1, 9, 10, 33), 4 + deep, system=SYSTEM))
    ny = lambda *ts: [["t", "A", ref.at(t)] for t in ts]
    out.append(Scen("clock-change", dict(epics=[["A", dict(open_time="00:30:00", close_time="01:30:00", days=list(range(7))), "America/New_York"]],
                                         subs=[["A", "x"], ["A", "y"]]),
                    ny("2020-11-01 04:45:00", "2020-11-01 05:30:00", "2020-11-01 05:45:00", "2020-11-01 06:10:00", "2020-11-01 06:40:00",
                       "2020-11-02 06:00:00"), 5 + deep, system=SYSTEM))
    for k, cal in enumerate((dict(open_time="00:00:00", close_time="23:59:59.999999", days=list(range(7))), dict(open_time="00:00:00", close_time="12:00:00"),
                             dict(open_time="00:00:00", close_time="00:00:00", days=[0, 1]), dict(open_time="10:00:00", close_time="09:00:00"))):
        for tz in ("UTC", "Asia/Tokyo", "America/New_York"):
            out.append(Scen(f"calendar-{k}-{tz}", dict(epics=[["A", cal, tz]], subs=[["A", "y"], ["A", "x"]]),
                            [["t", "A", m + int(h * H)] for h in (0, 1, 5, 9, 12, 15, 24, 5 * 24 + 12)], 4, system=SYSTEM))
    out.append(Scen("no-strategy", dict(epics=one, subs=[]), ev("A", 9, 10, 18), 3, system=SYSTEM))
    # weeks of ticks at the same times of the day
    days = [d for n in (1, 2, 3) for d in itertools.combinations(hours[:5], n)]
    out.append(Scen("weeks", dict(epics=two, subs=[["A", "x"], ["B", "y"], ["A", "both"], ["B", "both"]]),
                    words=[[e for k in range(45) for e in ev("AB"[k % 3 == 2], *(24 * k + h for h in d))] for d in days], system=SYSTEM))
    return out
