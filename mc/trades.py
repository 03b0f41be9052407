"""Lock-step system for trades: instruments, strategies and backtest providers against an integer ledger."""
import datetime as D
import time
from fractions import Fraction

from mc import ref
from mc.core import Mismatch, Scen, System, pumped
from mc.frames import ALWAYS, cents, eq, expect, make_epic, make_tick, near, rounded

from estrade import BaseStrategy, Trade
from estrade.enums import TradeDirection, TransactionStatus
from estrade.trade_provider import BaseTradeProvider, TradeProviderBacktests

S = 1_000_000
DIR = {"BUY": TradeDirection.BUY, "SELL": TradeDirection.SELL}


class RTrade:
    """Reference trade. Prices in cents, sign +1 for buy."""

    def __init__(self, n, owner, epic, sign, qty, open_price, price, us):
        self.n, self.owner, self.epic, self.sign, self.qty = n, owner, epic, sign, qty
        self.open, self.price, self.us = open_price, price, us
        self.closes = []  # (qty, price, us), quantities > 0
        self.hi = self.lo = None
        self.impl = None
        self.given = {}  # reference, metadata, status the order was given with
        self.given_closes = []  # the same for each close

    @property
    def closed_qty(self):
        return sum(q for q, _, _ in self.closes)

    @property
    def open_qty(self):
        return self.qty - self.closed_qty

    @property
    def opened(self):
        return self.sign * (self.price - self.open) * self.open_qty

    @property
    def closed(self):
        return sum(self.sign * (p - self.open) * q for q, p, _ in self.closes)

    @property
    def result(self):
        return self.opened + self.closed

    def shown(self):
        r = self.result
        self.hi = r if self.hi is None else max(self.hi, r)
        self.lo = r if self.lo is None else min(self.lo, r)

    def key(self):
        return (self.owner, self.epic, self.sign, self.qty, self.open, self.price, tuple(self.closes), self.hi, self.lo)


def falsy(base):
    """A user-defined class whose objects count something, nothing so far."""
    return type("Falsy" + base.__name__, (base,), {"__len__": lambda self: 0})


def given_kwargs(given):
    kw = dict(given)
    if "status" in kw:
        kw["status"] = TransactionStatus[kw["status"]]
    if "meta" in kw:
        kw["meta"] = dict(kw["meta"])
    return kw


def quiet_provider(base):
    """Requests do nothing."""
    return type("Quiet", (base,), {"open_trade_request": lambda self, trade: trade, "close_trade_request": lambda self, trade_close: trade_close})


def logging_provider(base, name, log, ref_):
    class Provider(base):
        def open_trade_request(self, trade):
            log.append((name, "open", trade, self))
            return super().open_trade_request(trade) if base is TradeProviderBacktests else trade

        def close_trade_request(self, trade_close):
            log.append((name, "close", trade_close, self))
            return super().close_trade_request(trade_close) if base is TradeProviderBacktests else trade_close

    return Provider(ref=ref_)


def many(cfg, system=None, letters=None, total=130, tail=(), looks=(11, 0), deep=False):
    """Histories of more than a hundred orders, closes and ticks: every word of one, two (three) events repeated."""
    e = next(iter(cfg["epics"]))
    s = cfg["strategies"][0]
    letters = letters or [["open", s, e, "BUY", 1], ["open", s, e, "SELL", 2], ["close", "new", None], ["t", e, 104, 106]]
    scen = Scen("many", dict(cfg, lead=[["t", e, 99, 101]]), words=[w + list(tail) for w in pumped(letters, 3 if deep else 2, total)],
                system=system or TradeSystem)
    scen.looks = looks
    return scen


class TradeSystem(System):
    """cfg: epics {name: provider name}, strategies [...], lead [events], aspects [...]; refs {name: reference of that instrument, strategy or
    provider} (the name by default), trade_ref (reference of every trade, a number by default), attached (strategies
    attached to the instruments, or strategy@instrument, all by default), falsy (strategies and providers are falsy)"""

    def __init__(self, cfg):
        super().__init__(cfg)
        self.aspects = cfg["aspects"]
        self.refs = cfg.get("refs", {})
        base = {"base": BaseTradeProvider, None: TradeProviderBacktests}[cfg.get("base")]
        soft = falsy if cfg.get("falsy") else lambda cls: cls
        plain = quiet_provider(base) if cfg.get("base") else base
        self.log = [] if "requests" in self.aspects else None  # (provider name, kind, object, ended), in the order received
        self.asked = []  # (provider name, kind, reference trade, quantity closed)
        self.providers = {p: logging_provider(base, p, self.log, self.refs.get(p, p)) if self.log is not None else soft(plain)(ref=self.refs.get(p, p)) for p in sorted(set(cfg["epics"].values()))}
        self.epics = {e: make_epic(cfg.get("cal", ALWAYS), cfg.get("tz", {}).get(e, "UTC"), ref=self.refs.get(e, e), trade_provider=self.providers[p]) for e, p in cfg["epics"].items()}
        self.strategies = {s: soft(BaseStrategy)(ref=self.refs.get(s, s)) for s in cfg.get("strategies", ["s"])}
        for k, e in self.epics.items():
            for n, s in self.strategies.items():
                if {n, f"{n}@{k}"} & set(cfg.get("attached", self.strategies)) and s.ref not in e.strategies:
                    e.add_strategy(s)
        self.market = {e: None for e in self.epics}  # (bid, ask, us)
        self.now = ref.at("2020-01-06 10:00:00")
        self.ledger = []  # registered reference trades, in order
        self.all = []  # also the trades entirely consumed by netting
        self.ordered = {}  # (strategy, epic) -> signed quantity ordered minus explicitly closed
        self.elsewhere = []  # closes made at a given price or tick
        for e in cfg.get("lead", []):
            self.apply(e)
        self.compare()

    # ---- events
    def step(self, letter):
        self.apply(letter)
        self.compare()

    def apply(self, letter):
        getattr(self, "do_" + letter[0])(*letter[1:])

    def do_t(self, e, bid, ask, adv=S):
        self.now += adv
        self.market[e] = (bid, ask, self.now)
        tick = make_tick(self.now, bid, ask)
        if "orders" in self.aspects:  # C29: ticks have metadata of their own
            tick.meta["feed"] = self.now
        self.epics[e].on_new_tick(tick)
        for t in self.ledger:
            if t.epic == e and t.open_qty:
                t.price = bid if t.sign > 0 else ask
                t.shown()

    def do_clock(self, e, time, bid, ask):
        """Tick at the next occurrence of a UTC time of day."""
        day = 86400 * S
        want = ref.at("2020-01-06 " + time) % day
        self.do_t(e, bid, ask, (want - self.now - 1) % day + 1)

    def do_open(self, s, e, direction, qty, via="strategy", given=None):
        if self.market[e] is None:
            return
        kw = dict(direction=DIR[direction], quantity=qty, ref=self.trade_ref(len(self.all)))
        if given is not None:
            kw.pop("ref")
            kw.update(given_kwargs(given))
        bid, ask, us = self.market[e]
        sign = 1 if direction == "BUY" else -1
        now = (bid, ask)
        if isinstance(via, list):  # from a given tick or price, then handed to the provider
            kw["strategy"] = self.strategies.get(s)
            if len(via) > 1:
                impl = Trade.open_from_tick(make_tick(us + 7, *via), self.epics[e], **kw)
                bid, ask, us = via[0], via[1], us + 7
            else:
                impl = Trade(epic=self.epics[e], open_value=via[0] / 100, open_datetime=ref.from_us(us + 3), **kw)
                bid, ask, us = via[0], via[0], us + 3
            self.providers[self.cfg["epics"][e]].open_trade(impl)
        elif via == "manual":
            impl = Trade.open_from_tick(self.epics[e].last_tick, self.epics[e], strategy=self.strategies.get(s), **kw)
            self.providers[self.cfg["epics"][e]].open_trade(impl)
        elif s is None:
            impl = self.epics[e].open_trade(**kw)
        elif via == "strategy":
            impl = self.strategies[s].open_trade(self.epics[e], **kw)
        else:
            impl = self.epics[e].open_trade(strategy=self.strategies[s], **kw)
        new = RTrade(len(self.all), s, e, sign, qty, ask if sign > 0 else bid, bid if sign > 0 else ask, us)
        new.impl = impl
        new.given = dict(given or {}) if given is not None else dict(ref=kw["ref"])
        self.all.append(new)
        key = (s, e)
        self.ordered[key] = self.ordered.get(key, 0) + sign * qty
        provider = self.cfg["epics"][e]
        (bid, ask), us = now, self.market[e][2]
        for t in reversed(self.ledger) if self.cfg.get("base") is None else ():
            if new.qty == 0:
                break
            if t.owner == s and t.epic == e and t.sign == -sign and t.open_qty and self.cfg["epics"][t.epic] == provider:
                q = min(t.open_qty, new.qty)
                t.price = bid if t.sign > 0 else ask
                t.closes.append((q, bid if t.sign > 0 else ask, us))
                t.given_closes.append({})
                new.qty -= q
                t.shown()
                self.asked.append((provider, "close", t, q))
        new.shown()
        if new.qty:
            self.ledger.append(new)
            self.asked.append((provider, "open", new, 0))

    def trade_ref(self, n):
        return self.cfg.get("trade_ref") or f"T{n}"

    def pick(self, which):
        """'new'/'old': newest/oldest open trade, 'done': newest closed one, int: that trade of the ledger."""
        if which in ("new", "old"):
            xs = [t for t in self.ledger if t.open_qty]
            return (xs[-1] if which == "new" else xs[0]) if xs else None
        if which == "done":
            xs = [t for t in self.ledger if not t.open_qty]
            return xs[-1] if xs else None
        return self.ledger[which] if which < len(self.ledger) else None

    def do_close(self, which, qty, via="epic", given=None):
        t = self.pick(which)
        if t is None:
            return
        kw = {} if qty is None else dict(quantity=qty)
        kw.update(given_kwargs(given or {}))
        bid, ask, us = self.market[t.epic]
        price = bid if t.sign > 0 else ask
        if via == "strategy" and t.owner:
            close = self.strategies[t.owner].close_trade(t.impl, **kw)
        elif via == "trade":
            close = t.impl.close_from_epic(**kw)
        elif via == "other":  # through another instrument
            close = [x for n, x in self.epics.items() if n != t.epic][0].close_trade(t.impl, **kw)
        elif isinstance(via, list) and via[0] == "tick":
            tick = make_tick(self.now + via[3], via[1], via[2])
            price, us = via[1] if t.sign > 0 else via[2], self.now + via[3]
            if t.open_qty:
                t.price = price
            close = t.impl.close_from_tick(tick, **kw)
        elif isinstance(via, list):  # directly, at a given price
            price, us = via[0], self.now + via[1]
            close = t.impl.close(close_value=price / 100, datetime=ref.from_us(us), **kw)
        else:
            close = self.epics[t.epic].close_trade(t.impl, **kw)
        if not isinstance(via, list) and t.open_qty:
            t.price = price
        q = t.open_qty if qty is None else min(qty, t.open_qty)
        if self.aspects != ["requests"]:
            eq(close.quantity, q, f"close of {qty} of trade {t.n} ({t.open_qty} open): quantity closed")
        if q:
            t.closes.append((q, price, us))
            t.given_closes.append(given or {})
            if isinstance(via, list):
                self.elsewhere.append(close)
            self.ordered[(t.owner, t.epic)] -= t.sign * q
            t.shown()
            if via in ("epic", "strategy"):
                self.asked.append((self.cfg["epics"][t.epic], "close", t, q))

    def do_closeall(self, s, qty=None, given=None):
        kw = {} if qty is None else dict(quantity=qty)
        self.strategies[s].close_opened_trades(**kw, **given_kwargs(given or {}))
        for t in reversed(self.ledger):
            if t.owner == s and t.open_qty:
                q = t.open_qty if qty is None else min(qty, t.open_qty)
                bid, ask, us = self.market[t.epic]
                t.price = bid if t.sign > 0 else ask
                if q:
                    self.ordered[(s, t.epic)] -= t.sign * q
                    self.asked.append((self.cfg["epics"][t.epic], "close", t, q))
                    t.closes.append((q, bid if t.sign > 0 else ask, us))
                    t.given_closes.append(given or {})
                t.shown()

    def do_refresh(self, which):
        """Revaluation of a trade from its instrument."""
        t = self.pick(which)
        if t is None:
            return
        t.impl.update_from_epic()
        if t.open_qty:
            bid, ask, _ = self.market[t.epic]
            t.price = bid if t.sign > 0 else ask

    def do_update(self, which, price):
        t = self.pick(which)
        if t is None:
            return
        t.impl.update(price / 100)
        if t.open_qty:
            t.price = price

    # ---- comparison
    def compare(self):
        for a in self.aspects:
            getattr(self, "cmp_" + a)()

    def cmp_figures(self):
        for t in self.all:
            i, w = t.impl, f"trade {t.n}"
            eq(cents(i.open_value, w), t.open, w, "open_value")
            eq(i.direction, DIR["BUY" if t.sign > 0 else "SELL"], w, "direction")
            eq(ref.to_us(i.datetime), t.us, w, "open time")
            if t.open_qty:
                eq(cents(i.current_close_value, w), t.price, w, "current_close_value")
                near(i.opened_result_avg, t.sign * (t.price - t.open), w, "opened_result_avg")
            else:
                near(i.opened_result_avg, 0, w, "opened_result_avg")
            near(i.opened_result, t.opened, w, "opened_result")
            near(i.closed_result, t.closed, w, "closed_result")
            near(i.result, t.result, w, "result")
            rounded(i.result_avg, Fraction(t.result, t.qty) if t.qty else Fraction(0), w, "result_avg")
            rounded(i.closed_result_avg, Fraction(t.closed, t.closed_qty) if t.closed_qty else Fraction(0), w, "closed_result_avg")
            seen = [(c, (c.quantity, cents(c.close_value, w), ref.to_us(c.datetime))) for c in i.closes if c.quantity]
            eq([x for _, x in seen], t.closes, w, "closes (quantity, price, time)")
            for c, (q, p, _) in seen:
                near(c.result_avg, t.sign * (p - t.open), w, "close result_avg")
                near(c.result, t.sign * (p - t.open) * q, w, "close result")
                if not any(c is x for x in self.elsewhere):  # closed at the market: in the instrument's local time
                    eq(c.datetime.utcoffset(), ref.local(ref.to_us(c.datetime), self.cfg.get("tz", {}).get(t.epic, "UTC")).utcoffset(), w, "close local time")
            d = i.asdict()
            near(d["result"], t.result, w, "asdict result")
            near(d["open_value"], t.open, w, "asdict open_value")
            eq((d["ref"], d["epic"], d["strategy"], d["direction"], d["open_quantity"], d["closed_quantities"]),
               (self.trade_ref(t.n), self.refs.get(t.epic, t.epic), self.refs.get(t.owner, t.owner) or "undefined", i.direction, t.qty, t.closed_qty), w, "asdict")
            loc = ref.local(t.us, self.cfg.get("tz", {}).get(t.epic, "UTC"))
            eq(d["open_date"], loc.strftime("%Y-%m-%d %H:%M:%S"), w, "asdict open_date")

    def cmp_quantities(self):
        for t in self.all:
            i, w = t.impl, f"trade {t.n}"
            eq((i.open_quantity, i.opened_quantities, i.closed_quantities), (t.qty, t.open_qty, t.closed_qty), w,
               "quantity, still open, closed")
            eq(i.closed, t.open_qty == 0, w, "closed")
            expect(all(c.quantity >= 0 for c in i.closes), w, "negative close")
        self.cmp_lists()

    def cmp_lists(self):
        opened = lambda ts: [t for t in reversed(ts) if t.open_qty]

        def same(got, want, what):
            got = list(got)
            expect(len(got) == len(want) and all(a is b.impl for a, b in zip(got, want)), what,
                   lambda: f": {[g.ref for g in got]}, expected {['T%d' % t.n for t in want]}")

        for p, provider in self.providers.items():
            mine = [t for t in self.ledger if self.cfg["epics"][t.epic] == p]
            same(provider.trades, mine, f"trades of provider {p}")
            same(provider.opened_trades, opened(mine), f"open trades of provider {p}")
        for s, strategy in self.strategies.items():
            mine = [t for t in self.ledger if t.owner == s]
            same(strategy.trades, mine, f"trades of strategy {s}")
            same(strategy.get_trades(), mine[::-1], f"get_trades() of strategy {s}")
            same(strategy.get_trades(open_only=True), opened(mine), f"open trades of strategy {s}")

    def cmp_extremes(self):
        for t in self.all:
            i, w = t.impl, f"trade {t.n}"
            near(i.max_result, t.hi, w, "max_result")
            near(i.min_result, t.lo, w, "min_result")
            expect(i.min_result - 1e-6 <= i.result <= i.max_result + 1e-6, w, f"{i.min_result} <= {i.result} <= {i.max_result}")

    def cmp_requests(self):
        """Every open and close was handed exactly once to the provider of the trade's instrument."""
        for p in self.providers.values():
            while p.is_alive:
                time.sleep(0)
        number = {id(t.impl): t.n for t in self.all}
        want = sorted((p, kind, t.n, q) for p, kind, t, q in self.asked)
        got = sorted((p, kind, number.get(id(x if kind == "open" else x.trade), -1), 0 if kind == "open" else x.quantity)
                     for p, kind, x, _ in self.log if kind == "open" or x.quantity)
        eq(got, want, "requests (provider, kind, trade, quantity)")
        eq(len({id(x) for _, _, x, _ in self.log}), len(self.log), "distinct objects handed to the providers")
        for p, kind, x, provider in self.log:
            expect(provider is self.providers[p], "request to another provider")
            expect(any(x is y for y in (provider.trades if kind == "open" else x.trade.closes)), f"an unregistered {kind} was requested")
            if self.cfg.get("base") is None:
                eq(x.status, TransactionStatus.CONFIRMED, f"status of a {kind}")
        self.cmp_lists()

    def cmp_netting(self):
        self.cmp_lists()
        for t in self.all:
            i, w = t.impl, f"trade {t.n}"
            eq((i.open_quantity, i.opened_quantities), (t.qty, t.open_qty), w, "quantity, still open")
            eq([(c.quantity, cents(c.close_value, w)) for c in i.closes if c.quantity], [(q, p) for q, p, _ in t.closes], w, "closes")
        for (s, e), total in self.ordered.items():
            open_ = [t.impl for t in self.ledger if t.owner == s and t.epic == e and not t.impl.closed]
            signs = {t.direction for t in open_}
            expect(len(signs) <= 1, f"{s} on {e}: trades of both directions are open")
            got = sum(t.opened_quantities * (1 if t.direction is DIR["BUY"] else -1) for t in open_)
            eq(got, total, f"{s} on {e}: position")

    def key(self):
        return (tuple(t.key() for t in self.all), tuple(v[:2] if v else None for v in self.market.values()))
