import arrow

from mc import ref
from mc.core import Mismatch, Scen, System, pumped
from mc.frames import FrameSystem, eq, expect, make_epic, make_tick, ref_calendar
from mc.market import Recorder

from estrade.enums import TradeDirection

S = 1_000_000
H = 3600 * S
RULE = ("every sequence of ticks and of stop / restart / pause / unpause commands (given between ticks or executed inside a callback, on itself "
        "or on another strategy), pauses ending before, exactly at, one microsecond after later ticks and inside a repeated hour, to the stated "
        "depth; callbacks, pause state and trades compared after every tick, frames and indicators at the end of every history")
ASSUMPTIONS = ["what a strategy that pauses or stops itself inside a callback still receives for that same tick is left unspecified"]
INDS = [dict(ref="c", kind="candle"), dict(ref="s", kind="sma", n=2)]


class SYSTEM(FrameSystem):
    def __init__(self, cfg):
        super().__init__(dict(cfg, sets=[dict(ref="m", unit="HOUR", q=1, max=40, inds=INDS)], aspects=["frames", "indicators"]))
        self.calls = []
        self.names = cfg.get("strategies", ["a", "b"])
        self.strategies = {n: Recorder(self, n) for n in self.names}
        for s in self.strategies.values():
            self.epic.add_strategy(s)
        self.gate = {n: dict(stopped=False, until=None) for n in self.names}
        self.open = False
        self.pending = None
        self.trade = None

    def other(self, letter):
        if letter[0] == "in":  # ["in", strategy, kind, command]: executed at that strategy's next such callback
            self.pending = letter[1:]
        else:
            self.command(letter)

    def command(self, c):
        op, name = c[0], c[1]
        s, g = self.strategies[name], self.gate[name]
        if op == "stop":
            s.stopped = g["stopped"] = True
        elif op == "start":
            s.stopped = g["stopped"] = False
        elif op == "pause":  # ["pause", name, microseconds from now, zone]
            us = self.now + c[2]
            s.paused_until = arrow.get(ref.from_us(us)).to(c[3])
            g["until"] = us
        elif op == "unpause":
            s.paused_until = g["until"] = None

    def callback(self, strategy, kind, epic):
        expect(epic is self.epic, "callback with another instrument")
        self.calls.append((strategy.ref, kind))
        if self.pending and strategy.ref == self.pending[0] and kind == self.pending[1]:
            self.command(self.pending[2])
            self.acted.append((len(self.calls), self.pending[2]))
            self.pending = None

    def tick(self, us, bid, ask, tz="UTC", style="datetime"):
        self.calls.clear()
        self.acted = []
        gates = {n: dict(g) for n, g in self.gate.items()}
        pend = self.pending
        self.now = us
        super().tick(us, bid, ask, tz, style)
        now = self.rtick.open
        kinds = []
        if now != self.open:
            kinds.append("on_market_open" if now else "on_market_close")
        if now:
            kinds.append("on_every_tick_market_open")
        kinds.append("on_every_tick")
        self.open = now
        got = list(self.calls)
        w = f"tick at {ref.local(us, self.tz)}"
        for n in self.names:
            g = gates[n]
            active = not g["stopped"] and (g["until"] is None or us >= g["until"])
            mine = kinds if active else []
            if g["until"] is not None and us >= g["until"] and not g["stopped"]:
                g["until"] = None
                if self.gate[n]["until"] is not None and self.gate[n]["until"] <= us and not any(a[1][1] == n for a in self.acted):
                    self.gate[n]["until"] = None
            part = []
            while got and got[0][0] == n:
                part.append(got.pop(0)[1])
            # commands executed inside this strategy's callbacks
            if pend and pend[0] == n and pend[1] in mine:
                cmd = pend[2]
                i = mine.index(pend[1])
                if cmd[1] == n:
                    expect(part in [mine[:k] for k in range(i + 1, len(mine) + 1)], w, n, "callbacks", part, "expected", mine)
                else:
                    eq(part, mine, w, n, "callbacks")
                later = self.names.index(cmd[1]) > self.names.index(n)
                if later:  # takes effect for the strategies that were not called yet
                    gg = gates[cmd[1]]
                    if cmd[0] == "stop":
                        gg["stopped"] = True
                    elif cmd[0] == "start":
                        gg["stopped"] = False
                    elif cmd[0] == "pause":
                        gg["until"] = us + cmd[2]
                    else:
                        gg["until"] = None
            else:
                eq(part, mine, w, n, "callbacks")
        eq(got, [], w, "more callbacks (order)")
        for n in self.names:
            s, g = self.strategies[n], self.gate[n]
            expect(s.stopped == g["stopped"], w, n, "stopped", s.stopped)
            if g["stopped"]:
                continue
            if g["until"] is not None and us >= g["until"] and any(k[0] == n for k in self.calls) and not any(a[1][1] == n for a in self.acted):
                g["until"] = None
            if any(a[1][1] == n for a in self.acted):
                continue
            if g["until"] is None:
                expect(s.paused_until is None, w, n, "is still paused until", s.paused_until)
            else:
                expect(s.paused_until is not None and ref.to_us(s.paused_until) == g["until"], w, n, "pause became", s.paused_until)
        # trades are valued whoever is active
        if self.trade is None:
            self.trade = self.epic.open_trade(direction=TradeDirection.BUY, quantity=1, strategy=self.strategies["a"])
        eq(round(self.trade.current_close_value * 100), bid, w, "value of the open trade")

    def compare(self, final=False):
        if self.n and final:
            super().compare(True)

    def end(self):
        self.compare(True)

    def key(self):
        return (self.now, self.open, tuple((g["stopped"], g["until"]) for g in self.gate.values()), str(self.pending))


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    base = ref.at("2020-01-06 09:00:00")
    ticks = [["t", H, 100, 102], ["t", 0, 98, 100], ["t", 7 * H, 105, 105]]
    cfg = dict(base=base, cal={}, tz="UTC")
    pause = lambda d, who="a", zone="UTC": ["pause", who, d, zone]
    out.append(Scen("pauses", cfg, ticks + [pause(H), pause(H + 1), pause(H - 1, zone="Asia/Tokyo"), pause(0), ["unpause", "a"]], 5, system=SYSTEM))
    out.append(Scen("stops", cfg, ticks + [["stop", "a"], ["start", "a"], ["stop", "b"], pause(2 * H), pause(H, "b")], 5, system=SYSTEM))
    for kind in ("on_every_tick", "on_every_tick_market_open", "on_market_open", "on_market_close"):
        acts = [["in", w, kind, c] for w, c in (
            ("a", pause(H)), ("a", pause(H, "b")), ("a", ["stop", "b"]), ("b", ["stop", "a"]), ("b", pause(7 * H, "a")), ("a", pause(-1, "a")),
        )]
        out.append(Scen(f"in-{kind}", cfg, ticks + acts + [["start", "b"], ["unpause", "a"]], 4 + deep, system=SYSTEM))
    # ticks and ends of pauses within one second, minute, hour
    for k, u in enumerate((S // 1000, S, 13 * S, 11 * 60 * S)):
        out.append(Scen(f"close-{k}", dict(cfg, base=ref.at("2020-01-06 10:02:10.25")),
                        [["t", 2 * u, 100, 102], ["t", 0, 98, 100], ["t", u, 99, 99], pause(u), pause(2 * u, zone="Asia/Tokyo"), pause(3 * u, "b")], 4 + deep, system=SYSTEM))
    # repeated hour
    for tz, b in (("America/New_York", "2020-11-01 04:40:00"), ("Europe/Paris", "2020-10-24 23:40:00")):
        out.append(Scen(f"repeated-hour-{tz}", dict(base=ref.at(b), tz=tz, cal=dict(open_time="00:00:00", close_time="23:59:59.999999",
                                                                                    days=list(range(7)))),
                        [["t", H // 2, 100, 102], ["t", 0, 98, 100, tz], ["t", H, 105, 105], pause(H, zone=tz), pause(H // 2, zone=tz),
                         pause(H + 1), pause(2 * H, "b", tz)], 5 + deep, system=SYSTEM))
    out.append(Scen("zones", dict(base=ref.at("2020-01-06 20:00:00"), tz="Asia/Tokyo", cal={}),
                    [["t", H, 100, 102], ["t", 5 * H, 98, 100], pause(5 * H, zone="America/New_York"), pause(6 * H, zone="UTC"), pause(H, zone="Asia/Tokyo"),
                     pause(3 * H, "b", "Asia/Kolkata")], 5 + deep, system=SYSTEM))
    # three strategies
    out.append(Scen("three", dict(cfg, strategies=["a", "b", "c"]), ticks + [
        ["stop", "b"], pause(H, "c"), ["in", "a", "on_every_tick", ["stop", "c"]], ["in", "c", "on_every_tick", pause(H, "b")]], 5, system=SYSTEM))
    events = ticks + [pause(2 * H), ["in", "a", "on_every_tick", pause(3 * H, "b")], ["stop", "b"]]
    out.append(Scen("pumped", cfg, words=pumped(events, 3 if deep else 2, 120), system=SYSTEM))
    return out
