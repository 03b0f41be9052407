import _thread

from mc import ref, sched, schedules
from mc.core import Mismatch, Scen, System
from mc.frames import ALWAYS, cents, eq, expect, make_epic, make_tick
from mc.trades import DIR, RTrade, S, TradeSystem

from estrade import BaseStrategy, BaseTradeProvider
from estrade.enums import TransactionStatus
from estrade.trade_provider import TradeProviderBacktests

RULE = ("every schedule with at most N preemptions (or, for the long scripts, N departures from the default schedule) of the feeder, a second feeder, pollers "
        "and every thread the library starts, scheduling points before each executed source line (scenarios '-op': each bytecode of trade_provider.py) of the "
        "library and inside the request routines, which return at once, work in steps, wait for the feeder, raise, or place orders themselves; and every "
        "sequence of orders and closes on several instruments, providers and strategies, to the stated depth, with what each provider was asked")
ASSUMPTIONS = ["a poll overlapping the start or the end of a request may see either state", "threads are preempted at source lines (bytecodes in '-op' scenarios)",
               "two feeders use different instruments"]


def make_provider(system, base):
    class Provider(base):
        def open_trade_request(self, trade):
            return system.request("open", trade, super().open_trade_request)

        def close_trade_request(self, trade_close):
            return system.request("close", trade_close, super().close_trade_request)

    return Provider(ref="P")


class SYSTEM(System):
    """One letter: the list of choices of the schedule."""

    def step(self, prefix):
        self.execute(prefix)

    warm = set()

    def execute(self, prefix):
        cfg = self.cfg
        if cfg.get("opcodes") and cfg["name"] not in SYSTEM.warm:
            # the interpreter reports fewer bytecodes the first time a function runs in a process
            SYSTEM.warm.add(cfg["name"])
            for _ in range(2):
                try:
                    SYSTEM(cfg).execute([])
                except Mismatch:
                    pass
        self.s = sched.Scheduler(prefix, opcodes=("trade_provider.py",) if cfg.get("opcodes") else ())
        self.starts, self.ended, self.keep = [], [], []
        self.calls = 0  # order calls in progress
        self.orders = 0
        self.gate = False
        self.feeders = {}
        self.errors = []
        self.obs = []
        self.s.run(self.script)
        if self.s.verdict:
            raise Mismatch(self.errors[0] if self.errors else self.s.verdict)
        if self.errors:
            raise Mismatch(self.errors[0])
        expect(not self.s.timeouts, f"an order call or poll had to wait for a time limit (actor {self.s.timeouts[:1]})")
        self.final()
        return self.s

    def fail(self, *what):
        self.errors.append(" ".join(str(w) for w in what))

    # ---- the provider's side
    def request(self, kind, x, original):
        me = _thread.get_ident()
        plan = self.cfg["requests"]
        k = len(self.starts)
        self.starts.append((kind, x))
        w = f"request {k} ({kind})"
        if any(self.inside.get(me, ())):
            self.fail(w, "runs in the thread that called")
        trade = x if kind == "open" else x.trade
        if not any(t is trade for t in self.provider.trades):
            self.fail(w, "is made before its trade is registered")
        if trade.strategy and not any(t is trade for t in trade.strategy.trades):
            self.fail(w, "is made before its trade is registered with its strategy")
        if kind == "close" and not any(c is x for c in x.trade.closes):
            self.fail(w, "is made before its close is registered")
        what = plan[min(k, len(plan) - 1)] if isinstance(plan, list) else plan.get(trade.strategy and trade.strategy.ref, "ok")
        try:
            if self.cfg.get("ask"):  # the request itself asks
                self.poll(f"{w} asks")
            for _ in range({"ok": 1, "long": 3, "now": 0}.get(what, 1)):
                self.s.point()
            if what == "slow":
                self.s.block(lambda: self.gate)
            if what == "fail":
                raise ValueError("the provider is down")
            if what == "order" and kind == "open":  # the request places an order itself
                self.order(lambda: self.epics[trade.epic.ref].close_trade(trade, quantity=1))
            if self.cfg["base"] == "backtests":
                return original(x)
            x.status = TransactionStatus.CONFIRMED
            x.meta["request"] = k
            return x
        finally:
            self.ended.append((kind, x))

    # ---- the caller's side
    def order(self, call):
        me = _thread.get_ident()
        self.inside.setdefault(me, []).append(True)
        self.calls += 1
        try:
            out = call()
        except sched.Abort:
            raise
        except Exception as e:
            self.fail(f"the caller got {e!r}")
            raise Mismatch(f"the caller got {e!r}")
        finally:
            self.calls -= 1
            self.inside[me].pop()
        self.orders += 1
        self.poll("right after the order")
        return out

    def wanted(self):
        """Requests that must have been or be made, for what is registered."""
        out = []
        for t in list(self.provider.trades):
            out.append(("open", t))
            out += [("close", c) for c in t.closes if c.quantity]
        return out

    def missing(self):
        if self.cfg.get("plain"):
            return []  # nothing tells when its requests end
        return [x for x in self.wanted() if not self.over(x)]

    def over(self, x):
        return any(k == x[0] and o is x[1] for k, o in self.ended)

    def poll(self, w="poll"):
        quiet, n = self.calls == 0, self.orders
        due = self.missing() if quiet else []
        running = [x for x in self.starts if not self.over(x)]
        idle = quiet and not due and all(a.done for a in self.s.actors if a.n >= self.library_from)
        v = self.provider.is_alive
        self.obs.append(bool(v))
        still = [x for x in due if not self.over(x)]
        running = [x for x in running if not self.over(x)]
        if running and not v:
            self.fail(f"{w}: idle while {len(running)} request(s) are running, the first being {running[0][0]}")
        if still and not v:
            self.fail(f"{w}: idle although {len(still)} request(s) have not ended, the first being {still[0][0]}")
        if idle and self.calls == 0 and self.orders == n and v:
            self.fail(f"{w}: busy although every request has ended")

    def script(self):
        cfg = self.cfg
        self.inside = {}
        self.provider = make_provider(self, TradeProviderBacktests if cfg["base"] == "backtests" else BaseTradeProvider) if not cfg.get("plain") \
            else TradeProviderBacktests(ref="P")
        self.epics = {e: make_epic(ALWAYS, "UTC", ref=e, trade_provider=self.provider) for e in sorted({o[1] for s in cfg["scripts"] for o in s if o[0] == "t"})}
        self.strategies = {"s": BaseStrategy(ref="s"), "r": BaseStrategy(ref="r")}
        self.ledgers = [[] for _ in cfg["scripts"]]
        self.markets = [{} for _ in cfg["scripts"]]
        others = [lambda k=k: self.feed(k) for k in range(1, len(cfg["scripts"]))] + [self.poller] * cfg.get("pollers", 0)
        self.library_from = 1 + len(others)
        for fn in others:
            self.s.spawn(lambda fn=fn: self.guard(fn))
        self.feed(0)

    def guard(self, fn):
        try:
            fn()
        except Mismatch as e:
            self.fail(e)

    def poller(self):
        for _ in range(self.cfg.get("polls", 2)):
            self.poll()
            self.s.point()

    def feed(self, k):
        ledger, market = self.ledgers[k], self.markets[k]
        now = ref.at("2020-01-06 10:00:00")
        try:
            for op in self.cfg["scripts"][k]:
                if op[0] == "t":
                    now += S
                    _, e, bid, ask = op
                    market[e] = (bid, ask)
                    self.epics[e].on_new_tick(make_tick(now, bid, ask))
                    for t in ledger:
                        if t.epic == e and t.open_qty:
                            t.price = bid if t.sign > 0 else ask
                elif op[0] == "open":
                    _, s, e, d, q = op
                    sign = 1 if d == "BUY" else -1
                    bid, ask = market[e]
                    new = RTrade(len(ledger), s, e, sign, q, ask if sign > 0 else bid, bid if sign > 0 else ask, now)
                    if self.cfg["base"] == "backtests":
                        for t in reversed(ledger):
                            if t.owner == s and t.epic == e and t.sign == -sign and t.open_qty and new.qty:
                                n = min(t.open_qty, new.qty)
                                t.closes.append((n, bid if t.sign > 0 else ask, now))
                                new.qty -= n
                    if new.qty:
                        ledger.append(new)
                    if s:
                        impl = self.order(lambda: self.strategies[s].open_trade(self.epics[e], direction=DIR[d], quantity=q, ref=f"{k}-{len(self.keep)}"))
                    else:
                        impl = self.order(lambda: self.epics[e].open_trade(direction=DIR[d], quantity=q))
                    self.keep.append(impl)
                    new.impl = impl
                elif op[0] == "close":
                    t = ledger[op[1]]
                    n = min(op[2], t.open_qty)
                    bid, ask = market[t.epic]
                    if n:
                        t.closes.append((n, bid if t.sign > 0 else ask, now))
                    self.order(lambda: self.epics[t.epic].close_trade(t.impl, quantity=op[2]))
                elif op[0] == "closeall":
                    for t in reversed(ledger):
                        if t.owner == op[1] and t.open_qty:
                            bid, ask = market[t.epic]
                            t.closes.append((t.open_qty, bid if t.sign > 0 else ask, now))
                    self.order(self.strategies[op[1]].close_opened_trades)
                elif op[0] == "gate":
                    self.gate = True
                elif op[0] == "settle":  # wait for the end of the requests of this feeder
                    mine = [t.impl for t in ledger]
                    self.s.block(lambda: all(any(k == "open" and o is i for k, o in self.ended) for i in mine))
                elif op[0] == "poll":
                    self.poll()
        finally:
            if k == 0:
                self.gate = True

    # ---- when everything has ended
    def final(self):
        expect(self.provider.is_alive is False or not self.provider.is_alive, "busy although every request has ended")
        if not self.cfg.get("plain"):
            want = self.wanted()
            for kind, x in want:
                n = sum(1 for k, o in self.starts if k == kind and o is x)
                eq(n, 1, f"number of {kind} requests for one {'trade' if kind == 'open' else 'close'}")
            extra = [k for k, o in self.starts if not any(k == kind and o is x for kind, x in want) and (k == "open" or o.quantity)]
            eq(extra, [], "requests for nothing registered")
            if self.cfg["base"] == "backtests" and "fail" not in str(self.cfg["requests"]):
                for kind, x in want:
                    eq(x.status, TransactionStatus.CONFIRMED, f"status of a {kind}")
        else:
            for kind, x in self.wanted():
                eq(x.status, TransactionStatus.CONFIRMED, f"status of a {kind}")
        nested = self.cfg.get("nested", 0)
        total = 0
        for ledger in self.ledgers:
            for t in ledger:
                i = t.impl
                total += 1
                expect(any(x is i for x in self.provider.trades), "a trade is not registered")
                eq((i.open_quantity, i.opened_quantities), (t.qty, t.open_qty - nested), f"trade {t.n}: quantity, still open")
                if not nested:
                    eq(cents(i.result), t.result, f"trade {t.n}: result")
                    eq([c.quantity for c in i.closes if c.quantity], [q for q, _, _ in t.closes], f"trade {t.n}: closes")
        eq(len(self.provider.trades), total, "number of trades")
        for s in self.strategies:
            eq(len(self.strategies[s].trades), sum(1 for l in self.ledgers for t in l if t.owner == s), f"number of trades of strategy {s}")

    def outcome(self):
        return (self.cfg["name"], tuple(k for k, _ in self.starts), tuple((k, self.position(x)) for k, x in self.ended), tuple(self.obs))

    def position(self, x):
        return next((i for i, (k, o) in enumerate(self.starts) if o is x), -1)


# ---------------------------------------------------------------- scenarios
def scenarios(tier):
    deep = tier == "thorough"
    out = []
    t, o, c = (lambda e, bid, ask: ["t", e, bid, ask]), (lambda e, d, q, s="s": ["open", s, e, d, q]), (lambda k, q: ["close", k, q])
    one = [t("A", 100, 102), o("A", "BUY", 3), t("A", 105, 106), c(0, 1)]
    two = [t("A", 100, 102), o("A", "BUY", 3), o("A", "SELL", 5)]
    four = [t("A", 100, 102), o("A", "BUY", 3), c(0, 1), o("A", "BUY", 2, "r"), t("A", 90, 91), ["closeall", "r"]]

    def add(name, base, requests, *scripts, bound=2, metric="preemptions", **kw):
        cfg = dict(name=name, base=base, requests=requests, scripts=list(scripts), bound=bound, metric=metric, **kw)
        out.append(Scen(name, cfg, words=[[[]]], system=SYSTEM))

    add("open-close", "base", ["long", "ok"], one, bound=2 + deep)
    add("backtests", "backtests", ["ok"], one, bound=2 + deep)
    add("plain-backtests", "backtests", ["ok"], two, plain=True, bound=2 + deep)
    add("netting", "backtests", ["ok", "long"], two, bound=2 + deep)
    add("slow", "base", ["slow", "ok"], one + [["poll"]], bound=2 + deep)
    add("all-slow", "base", ["slow"], four, bound=1 + deep)
    add("fail", "base", ["fail", "ok"], one, bound=2 + deep)
    add("all-fail", "backtests", ["fail"], two, bound=1 + deep)
    add("poller", "base", ["long", "fail"], one, pollers=1, polls=3, bound=2 + deep)
    add("poller-slow", "backtests", ["slow", "ok"], two, pollers=1, polls=3, bound=2)
    add("two-feeders", "base", ["ok"], [t("A", 100, 102), o("A", "BUY", 3)], [t("B", 50, 52), o("B", "SELL", 2, "r"), c(0, 1)], bound=1,
        metric="preemptions" if deep else "delay")
    add("two-feeders-backtests", "backtests", ["long"], [t("A", 100, 102), o("A", "BUY", 3)], [t("B", 50, 52), o("B", "BUY", 2), o("B", "SELL", 3)], bound=1,
        metric="preemptions" if deep else "delay")
    add("nested", "base", ["order", "ok"], [t("A", 100, 102), o("A", "BUY", 3)], nested=1, bound=2 + deep)
    add("nobody", "backtests", ["ok"], [t("A", 100, 102), o("A", "BUY", 3, None), o("A", "SELL", 1, None), ["poll"]], bound=2 + deep)
    add("open-close-op", "base", ["long"], one[:2] + one[3:], opcodes=True, bound=2 + deep)
    add("netting-op", "backtests", ["ok"], two, opcodes=True, bound=1 + deep)
    add("two-feeders-op", "base", ["slow"], [t("A", 100, 102), o("A", "BUY", 3)], [t("B", 50, 52), o("B", "SELL", 2, "r")], opcodes=True, bound=1, metric="preemptions" if deep else "delay")
    for base in ("base", "backtests")[: 1 + deep]:
        add(f"two-feeders-one-slow-{base}-op", base, {"r": "slow"}, [t("A", 100, 102), o("A", "BUY", 3), ["settle"], ["poll"]], [t("B", 50, 52), o("B", "SELL", 2, "r")],
            opcodes=True, bound=1)
    add("ask", "base", ["ok"], one, ask=True, bound=1 + deep)
    add("ask-backtests", "backtests", ["ok"], two, ask=True, bound=1 + deep)
    # long scripts
    many = [t("A", 100, 102)] + [x for k in range(12) for x in (o("A", "BUY", 3), c(k, 1))]
    for what in ("slow", "fail", "ok"):
        add(f"many-{what}-first", "base", [what, "ok"], many, bound=1, metric="delay")
    add("many-backtests", "backtests", ["slow", "ok", "fail", "ok"], [t("A", 100, 102)] + [o("A", d, q) for d, q in (("BUY", 3), ("SELL", 1), ("BUY", 2), ("SELL", 9)) * 4],
        bound=1, metric="delay")
    # who is asked: every sequence of orders and closes, over several instruments and providers
    orders = lambda *ab: [["open", s, e, d, 2] for s, e, d in ab]
    for base in (None, "base"):
        for n, epics in enumerate(({"A": "P", "B": "Q"}, {"A": "P", "B": "P"}, {"A": "Q", "B": "P", "C": "Q"})):
            letters = orders(("s", "A", "BUY"), ("s", "B", "SELL"), ("r", "A", "SELL"), (None, list(epics)[-1], "BUY")) + [
                ["open", "s", "A", "SELL", 3, "epic"], ["close", "new", 1], ["close", "old", None, "strategy"], ["close", "done", 1],
                ["closeall", "s"]]
            cfg = dict(epics=epics, strategies=["s", "r"], aspects=["requests"], base=base, lead=[["t", e, 99, 101] for e in epics])
            out.append(Scen(f"who-{base or 'backtests'}-{n}", cfg, letters, 4 + deep, system=TradeSystem))
        same = dict(cfg, refs=dict.fromkeys("ABCPQsr", "same"), trade_ref="same")
        out.append(Scen(f"who-{base or 'backtests'}-same-references", same, letters, 3 + deep, system=TradeSystem))
    add("hundred", "base", ["slow", "ok"], [t("A", 100, 102)] + [o("A", "BUY", 1)] * 60, bound=0, metric="delay")
    return out


def explore(prop, scens, tier):
    return schedules.explore(prop, scens, tier, SYSTEM)
