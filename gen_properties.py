#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, pathlib

P = []


def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(
            files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))


p("C01", "Ticks are valid by construction and keep the instant they were given",
  """A tick can only be built from a timezone-aware datetime and numeric bid and ask with bid not above ask; anything
  else is refused with an error. An accepted tick stands for exactly the instant it was given (also when the datetime is
  a plain Python datetime, in any timezone), keeps bid and ask as given, and its spread and value are ask minus bid and the bid/ask
  midpoint, to the cent. Ticks never share their free-use metadata unless the caller passed the same dictionary.""",
  ["inputs"], "every bid/ask pair of a price grid (negative, zero, sub-cent, huge, int/float/bool/str/None) x every kind of datetime (naive, aware, Arrow, DST-ambiguous, pytz/zoneinfo/fixed offset)",
  "Unit tests sample a dozen value pairs and a handful of datetimes; validity, rounding and instant preservation are claims over all pairs and zones.",
  ["estrade/tick.py", "estrade/mixins/timed.py", "estrade/mixins/meta.py"],
  [("Tick constructor and setters", "estrade/tick.py:Tick"), ("datetime setter", "estrade/mixins/timed.py:TimedMixin.datetime")],
  [("bid/ask", "prices", "estrade/tick.py")], ["Tick.bid/ask/spread/value/datetime/datetime_utc/asdict"])

p("C02", "Ticks are accepted in chronological order of instants, and only in that order",
  """An instrument accepts every tick whose instant is not before the instant of the last tick it accepted - including ties, ticks given in
  other timezones, and ticks inside the hour that is repeated when daylight saving time ends - and expresses the tick in the
  instrument's own timezone without changing its instant. A tick whose instant is earlier than the last accepted one is
  refused with an error, and a refused tick leaves last tick, market state, frames, indicators, trades and strategies exactly as they were.""",
  ["histories", "inputs"], "every sequence of up to 4-5 ticks drawn from a set of instants around daylight-saving changes, midnight and ties, each expressed in several timezones, on instruments in several timezones",
  "The tests check one anterior tick in UTC; ordering must hold for all pairs of instants in all timezones and after any history.",
  ["estrade/epic.py", "estrade/mixins/timed.py"],
  [("order check and timezone conversion", "estrade/epic.py:Epic.on_new_tick")],
  [("last_tick", "last accepted tick", "estrade/epic.py")], ["Epic.on_new_tick", "Epic.last_tick"])

p("C03", "The market is open exactly inside the trading calendar",
  """After each accepted tick the instrument reports its market as open if and only if, in the instrument's own timezone, the
  time of day of the tick lies between opening and closing time (both included), its weekday is a trading day and its date is not a
  holiday, by the calendar as it stands at that moment. This depends on the last accepted tick alone, whatever was received before it.""",
  ["inputs", "configurations", "histories"], "every calendar from a set (hours to the second, day sets, holiday sets, timezones) x every tick instant of a boundary grid over several weeks including daylight-saving changes x every predecessor state; every sequence of ticks and changes of the calendar (replaced or edited in place)",
  "Tests check four instants with one calendar; the claim is over every instant, calendar and timezone.",
  ["estrade/epic.py"], [("calendar test", "estrade/epic.py:Epic.is_market_open"), ("state update", "estrade/epic.py:Epic.on_new_tick")],
  [("market_open", "market state after last tick", "estrade/epic.py")], ["Epic.market_open", "Epic.is_market_open()"])

p("C04", "Strategies get exactly the callbacks the market calls for, in order",
  """On every accepted tick, each active strategy of the instrument is called back, strategies in the order they were
  added, each exactly with: market-open or market-close if and only if the market state differs from the one after the previous
  tick, then the market-is-open callback if and only if the market is open, then the every-tick callback. Each callback receives the instrument that got the tick; refused
  ticks and ticks of other instruments cause no callback.""",
  ["histories", "configurations"], "every sequence of up to 5-6 events over {tick while open, tick while closed, tick at boundary, refused tick, tick on another instrument, strategy added late, stopped, paused} with 1-3 strategies on 1-2 instruments",
  "Tests check single ticks with mocks; missed or duplicated callbacks show only over sequences of open/closed/paused ticks and several strategies.",
  ["estrade/epic.py", "estrade/strategy.py"], [("callback dispatch", "estrade/epic.py:Epic._execute_strategies")],
  [("market_open", "state before/after", "estrade/epic.py")], ["on_market_open/on_market_close/on_every_tick_market_open/on_every_tick"])

p("C05", "A strategy callback always sees a fully updated market",
  """Whenever a strategy is called back for a tick, that tick is already the instrument's last tick, the market state, every frame set
  and every indicator already include it, and every open trade of the instrument is already valued at it. A trade the callback opens or
  closes is executed at that tick's prices and time, and what one strategy did is visible to the strategies called after it.""",
  ["histories"], "every sequence of up to 5 ticks x every assignment of trading actions to callbacks, with tick- and time-based frames, every indicator type and several strategies",
  "Order of updates inside one tick is observable only from inside callbacks, over histories with frames rolling over and trades open; the tests mock each piece separately.",
  ["estrade/epic.py", "estrade/graph/frame_set.py", "estrade/trade.py", "estrade/strategy.py"],
  [("update order", "estrade/epic.py:Epic.on_new_tick")], [], ["state read inside strategy callbacks"])

p("C06", "Stopped strategies stay silent and paused ones resume exactly on time",
  """While a strategy is stopped it receives no callback, and while it is paused until some instant it receives none for ticks before that
  instant; the first tick at or after that instant is delivered, and from then on the strategy is no longer paused. Stopping or pausing affects
  only that strategy, may be done at any moment (also from inside a callback) and never the frames, indicators or trades.""",
  ["histories"], "every sequence of up to 5-6 events over {tick at grid instants, pause until each grid instant, unpause, stop, resume} from outside and inside callbacks",
  "Tests check three is_active calls; the guarantee is over sequences of pauses, re-pauses, stops and ticks.",
  ["estrade/strategy.py", "estrade/epic.py"], [("activity test", "estrade/strategy.py:BaseStrategy.is_active")],
  [("paused_until/stopped", "strategy gate", "estrade/strategy.py")], ["strategy callbacks", "BaseStrategy.paused_until"])

p("C07", "Time periods form an exact calendar grid",
  """For every accepted unit and positive quantity, in every timezone (whose clocks change by whole hours, on the hour), each instant belongs to exactly one period: the period's start is not after it, its end is after it, all
  instants of the period get the same start and end, and the end is the start of the following period. Periods start on the calendar
  boundary the unit names in the instant's own timezone (second/minute/hour multiples, midnight, Monday, first of month, first of January), and quantities that do not divide the
  unit's cycle (60, 60, 12, 7, 1, 12) are refused.""",
  ["inputs", "configurations"], "every accepted (unit, quantity) x every second of several days, every day of 2015-2030, every month/year edge, leap days, offsets with half hours and daylight-saving changes of whole hours",
  "Tests sample about 90 datetimes in UTC for some quantities; gaps and overlaps at month ends, leap years, ISO-week edges and clock changes are never sampled.",
  ["estrade/mixins/timeframe.py"], [("grid", "estrade/mixins/timeframe.py:TimeframeMixin.get_frame_start/get_frame_end")], [],
  ["FrameSet.get_frame_start/get_frame_end"])

p("C08", "Time frames partition the tick stream without gaps, overlaps or losses",
  """For every chronological tick stream, the frames of a time-based frame set are consecutive periods of the calendar grid without gap or overlap, from the first
  tick's period to the last tick's; each tick is counted in exactly the one frame whose period contains its instant, and each frame's first, last, highest
  and lowest tick and count are those of its ticks. A period in which nothing was received still gets a frame, which repeats the last tick known before it.""",
  ["histories", "inputs"], "every non-decreasing sequence of up to 5-6 ticks over a grid of instants (period edges, multi-period gaps, ties, clock changes) and prices, for every unit",
  "Tests build two-frame examples; partition is a claim over all streams, gaps, ties and clock changes.",
  ["estrade/graph/frame_set.py", "estrade/mixins/timeframe.py"],
  [("frame roll-over and gap filling", "estrade/graph/frame_set.py:FrameSet._create_new_frame_timed"), ("frame update", "estrade/graph/frame_set.py:Frame.on_new_tick")],
  [("frames", "list of frames", "estrade/graph/frame_set.py")], ["FrameSet.frames", "Frame.*"])

p("C09", "Tick frames hold exactly N ticks of one day",
  """In a frame set counted in ticks, fed through its instrument, every tick belongs to exactly one frame, in order; a frame is closed exactly when the next tick finds it holding the configured
  number of ticks or falls on a later date (in the instrument's timezone) than the previous tick. Frames never contain more than the configured number nor ticks of two dates, and their first, last, high,
  low and count are those of their ticks.""",
  ["histories"], "every sequence of up to 8-10 ticks over {same instant, same day, next day, day change in instrument timezone but not in UTC and vice versa} x prices for quantities 1-4",
  "The day-change rule depends on the order in which instrument and frame set are updated; unit tests mock the instrument and never feed a real one.",
  ["estrade/graph/frame_set.py", "estrade/epic.py"], [("roll-over test", "estrade/graph/frame_set.py:FrameSet.is_frame_over_tick")],
  [("frames", "list of frames", "estrade/graph/frame_set.py")], ["FrameSet.frames"])

p("C10", "Frame history is bounded, linked and addressable by offset",
  """After any tick history a frame set holds exactly the most recent frames up to its configured maximum, oldest first, each linked to its neighbours in both
  directions with no link leaving the retained window, and exactly the newest one not closed. Looking up frame or indicator value by offset k returns the k-th most recent retained frame or its value, and nothing
  when there is none. The limit never changes the retained frames' ticks, periods or counts, and dropped frames are not kept in memory.""",
  ["histories", "configurations"], "every tick sequence up to depth 6-8 (with multi-period gaps longer than the window) x window sizes 1-4 and the default 100 crossed by pumped histories, x every offset",
  "Eviction happens only after the window overflows, in gaps, repeatedly; tests check one artificial overflow with mocks.",
  ["estrade/graph/frame_set.py", "estrade/epic.py"], [("eviction", "estrade/graph/frame_set.py:FrameSet.clean_old_frames"), ("lookup", "estrade/epic.py:Epic.get_frame")],
  [("frames/previous_frame/next_frame", "window and links", "estrade/graph/frame_set.py")], ["Epic.get_frame", "Epic.get_indicator_value", "BaseIndicatorValue.previous/next"])

p("C11", "Indicators limited to market hours ignore everything outside them",
  """An indicator declared for market hours only has a value in a frame only from the first tick received there while the market was open (or, in an empty period, if the repeated tick was one),
  and all it reports is the same whatever the prices of the ticks received while the market was closed. An indicator without
  that limit takes every tick into account; the previous value of an indicator is the one of the nearest earlier frame that has one.""",
  ["histories", "configurations"], "every sequence of up to 5-6 ticks alternating open/closed market, within frames, across frames and across empty periods, for every indicator type, present from the start or added between two ticks",
  "One integration test follows one history with one base indicator; leaks need closed ticks around frame borders and gaps, for each indicator type.",
  ["estrade/graph/base_indicator.py", "estrade/graph/frame_set.py", "estrade/graph/indicators/simple_moving_average.py", "estrade/graph/indicators/rsi.py"],
  [("gating", "estrade/graph/base_indicator.py:BaseIndicatorValue.on_new_tick, BaseIndicator.build_value_from_frame")], [], ["Epic.get_indicator_value"])

p("C12", "Candles report the exact open, high, low and close of their ticks",
  """At any moment a classic candle's open, high, low and last are the first, highest, lowest and latest tick value of its frame, its close is absent until the frame is closed and then equals last, and
  low <= open, last <= high. For both candle types colour, body, head, tail and height follow from open, high, low and last (also when those are zero or negative), with body + head + tail = height to the cent.""",
  ["histories", "inputs"], "every sequence of up to 5-6 ticks over a price set including zero, negatives and ties, in tick and time frames, read after each tick",
  "Tests mock open/high/low/last; zero and negative prices and rolling frames are never combined with real ticks.",
  ["estrade/graph/indicators/candle_set.py", "estrade/graph/base_indicator.py"],
  [("candle values", "estrade/graph/indicators/candle_set.py")], [], ["JapaneseCandle.*", "HeikinAshiCandle.*"])

p("C13", "Heikin-Ashi candles follow their recurrence from the first candle on",
  """The first Heikin-Ashi candle opens at its first tick; each later one opens at the mean of the previous candle's open and last. Last is the mean of first, high, low and latest
  tick value; high and low extend over open and last; close is absent until the frame is closed. This holds after any number of frames, whatever number of frames is kept in memory (the previous candle at least).""",
  ["histories", "configurations"], "every sequence of up to 5-6 ticks over a price set with 1-2 ticks per frame x window sizes 1-4, plus pumped histories past the default window",
  "The recurrence spans the whole history; tests check one mocked step.",
  ["estrade/graph/indicators/candle_set.py"], [("recurrence", "estrade/graph/indicators/candle_set.py:HeikinAshiCandle.open")], [], ["HeikinAshiCandle.open/high/low/last/close"])

p("C14", "Simple moving averages are the mean of the last closes",
  """At any moment the simple moving average over p periods is the mean, to the cent, of the current value and the closing values of the p-1 frames before it in which the indicator has a value,
  for every p from 1 to the declared maximum, and absent while there are fewer or when p exceeds the maximum. It does not depend on how many frames are kept in memory as long as the previous frame having a value is.""",
  ["histories", "configurations"], "every sequence of up to 6-7 ticks over a price set, frames of 1-2 ticks and time gaps, maxima 1-4, windows 2-5, every p; pumped histories to 150 frames",
  "Tests check one hand-made list; window slicing errors appear at specific maxima (1!) and lengths.",
  ["estrade/graph/indicators/simple_moving_average.py"], [("sliding closes", "estrade/graph/indicators/simple_moving_average.py:SimpleMovingAverageValue")],
  [("last_closes", "closes of earlier frames", "estrade/graph/indicators/simple_moving_average.py")], ["SimpleMovingAverageValue.get_value"])

p("C15", "RSI is the strength ratio of exactly the last N frame changes",
  """With N = periods times the frame quantity, the RSI of a frame is absent until N frame-to-frame changes exist; from then on it is always present and, after each tick,
  equals 100 - 100/(1 + gains/losses) to the cent over exactly the last N changes of closing value (the current frame's being its latest value), 100 without losses, 0 without gains but with losses. It stays
  within 0..100, and a frame set that keeps fewer frames than N refuses the indicator.""",
  ["histories", "configurations"], "every sequence of up to 7-8 ticks over a price set, quantities 1-2, periods 1-3, windows from N up, time gaps; pumped histories",
  "Tests patch the change list; whether the list always holds exactly the last N changes over real frame histories (and for N = 1) is untested.",
  ["estrade/graph/indicators/rsi.py"], [("change list", "estrade/graph/indicators/rsi.py:RSIValue")], [("last_changes", "changes of earlier frames", "estrade/graph/indicators/rsi.py")], ["RSIValue.value"])

p("C16", "Pivot levels derive from the previous period only and never move inside a period",
  """A frame's pivot is absent without a previous period; otherwise it is the mean of the previous period's high, low and close (plus the current period's open for the OLHC type), and supports and resistances follow
  the classic formulas from that pivot and the previous high and low, to the cent, for every price including zero and negative ones. All levels stay constant whatever ticks arrive during the period, and S3 <= S2 <= S1 <= pivot
  <= R1 <= R2 <= R3 for the classic type, to the cent.""",
  ["histories", "inputs"], "every sequence of up to 6 ticks over a price set (zero, negative, levels summing to a zero pivot), 1-3 ticks per frame, both pivot types",
  "Tests mock the previous value; zero pivots and stability during a period are not exercised.",
  ["estrade/graph/indicators/pivot.py"], [("formulas", "estrade/graph/indicators/pivot.py:PivotTypeClassic, PivotTypeOLHC")], [], ["pivot/support*/resistance*"])

p("C17", "Closed frames never change",
  """Once a frame is closed, its ticks, period and count and the values of all its indicators (candles, moving averages, RSI; also the absence of a value) stay the same for as long as it is retained, whatever ticks
  arrive later and whichever older frames are dropped from memory. The same tick stream gives the same retained frames and indicator values for every memory limit that keeps at least the previous frame and covers the indicators' needs.""",
  ["histories", "configurations"], "every tick sequence up to depth 6-7 with snapshots of each frame when it closes, compared after each later tick, x windows 2-5, and pairwise comparison between windows",
  "Immutability is a two-state property over the whole remaining history; no test looks at a frame twice.",
  ["estrade/graph/frame_set.py", "estrade/graph/indicators/candle_set.py", "estrade/graph/base_indicator.py"],
  [("links between frames", "estrade/graph/frame_set.py:FrameSet.clean_old_frames"), ("lazy values", "estrade/graph/base_indicator.py:BaseIndicatorValue.previous")], [], ["all frame and indicator values"])

p("C18", "Trade results are exact at every moment",
  """A trade opens at the ask when buying and at the bid when selling and is valued against the opposite side. After any history of prices, partial closes and full closes, its
  open result, closed result, total and averages equal the sum over open and closed quantities of the price differences in the trade's direction, to the cent, for prices given to the cent, also zero or
  negative ones; each close keeps the price, quantity and time it was made at, and nothing changes the figures of a completely closed trade.""",
  ["histories", "inputs"], "every sequence of up to 5-6 operations over {tick at each price pair of a grid, close 1, 2, all, too many; direct update/close} for both directions and quantities 1-5",
  "Tests check about ten hand-computed histories; zero prices, orders of partial closes, and reads between operations are not covered.",
  ["estrade/trade.py", "estrade/epic.py"], [("result properties", "estrade/trade.py:Trade.result/opened_result/closed_result, TradeClose.result")],
  [("closes", "partial closes", "estrade/trade.py")], ["Trade.*result*", "Trade.asdict()"])

p("C19", "A trade can never be over-closed nor reopened",
  """Whatever sequence of close requests (nothing given, zero, partial, exact, too much, on a closed trade, via trade, instrument or strategy), open plus closed quantity equals the quantity opened, neither is ever
  negative or decreasing on the closed side, and each request closes exactly min(asked, still open) - all that is open when no quantity is given, nothing when zero is. A trade counts as closed exactly when nothing is open,
  is then absent from every list of open trades, and stays so.""",
  ["histories"], "every sequence of up to 5 close requests over {None, 0, 1, 2, all, all+1} x path {trade, instrument, strategy, close all} interleaved with ticks, quantities 1-5, both directions",
  "Tests check three single requests; the invariant is over all sequences, and zero is not tested at all.",
  ["estrade/trade.py", "estrade/strategy.py", "estrade/trade_provider.py"], [("clamping", "estrade/trade.py:Trade.close")], [], ["Trade.opened_quantities/closed_quantities/closed", "opened_trades", "get_trades(open_only)"])

p("C20", "Best and worst result bracket every result the trade has had on the market",
  """For every trade opened through its instrument, with nothing but market ticks and closes at market after that, its maximum and minimum result are at every moment exactly the largest and smallest result it has shown from
  its opening until now (for the quantity really opened), so minimum <= current <= maximum always holds; after it is closed they no longer change.""",
  ["histories"], "every sequence of up to 5-6 operations over {tick up/down/flat/spread change, partial close, full close, opposite opening that nets} for both directions",
  "Extremes are functions of the whole history; tests patch the result and check single comparisons.",
  ["estrade/trade.py", "estrade/trade_provider.py"], [("extremes", "estrade/trade.py:Trade._update_min_max")], [("max_result/min_result", "extremes", "estrade/trade.py")], ["Trade.max_result/min_result"])

p("C21", "Backtest netting conserves the position",
  """In backtests, opening a trade first closes, newest first and at the current market price, open trades of the opposite direction of the same strategy on the same instrument, up to the new quantity, and only the remainder is opened; with nothing left no
  trade is registered. So for each strategy and instrument the signed sum of open quantities always equals the signed sum of all quantities ordered minus those explicitly closed, trades of both directions are never open together, and trades
  of other strategies or instruments are never touched.""",
  ["histories"], "every sequence of up to 5-6 operations over {buy/sell 1, 2, 3, tick, close part, close all} x 2 strategies (or none) x 2 instruments sharing or not sharing a provider",
  "Tests check one existing trade per case, mocked; netting against several open trades, exact exhaustion and shared providers are not covered.",
  ["estrade/trade_provider.py", "estrade/trade.py"], [("netting", "estrade/trade_provider.py:TradeProviderBacktests.open_trade")], [("trades", "provider trades", "estrade/trade_provider.py")], ["opened_trades", "Trade.*quantit*"])

p("C22", "A trade is only ever valued and closed at its own instrument's prices",
  """However many instruments share a trade provider or a strategy, and however their ticks interleave, each trade is opened, valued and closed only with the ticks of its own instrument. Its figures are the same as if the other
  instruments received no tick at all.""",
  ["histories"], "every interleaving of up to 5-6 operations over 2-3 instruments {tick a, tick b, open a, open b, close a, close b, close all} with a shared provider and strategy",
  "All tests use a single instrument per provider.",
  ["estrade/epic.py", "estrade/trade_provider.py", "estrade/strategy.py"], [("valuation loop", "estrade/epic.py:Epic._update_open_trades")], [], ["Trade.current_close_value", "Trade.result"])

p("C23", "Every order reaches the provider exactly once under any thread schedule",
  """Each trade opened and each close made is registered before, and handed exactly once to, the provider's request routine, outside the caller's thread: the caller is never blocked by, and never sees an error of, a request, however slow or failing. In every thread
  interleaving the provider reports itself busy from the moment the order call returns until its request has ended, and idle once all have; backtest orders then are confirmed, and quantities and results do not depend on the schedule.""",
  ["schedules", "fault_sequences"], "every interleaving with up to 2-3 preemptions (at source-line granularity in library code and between the steps of requests) of 2-4 orders, their request threads, failing requests, and pollers",
  "Tests replace threads by mocks or let the OS pick one schedule.",
  ["estrade/trade_provider.py", "estrade/epic.py"], [("request threads", "estrade/trade_provider.py:BaseTradeProvider.open_trade/close_trade/is_alive")], [("threads", "request threads", "estrade/trade_provider.py")], ["open_trade_request/close_trade_request", "is_alive", "status"])

p("C24", "Strategy statistics are exact over exactly the selected trades",
  """Listing a strategy's trades returns, newest first, exactly its own trades that pass every given filter (instruments, open only, opened at or after an instant, for trades opened in chronological order). Result is the sum of the
  trades' results, and profit factor is gains divided by losses (losses below one counted as one, plain gains without losses), to the cent, over exactly the trades given - also when that is none - or all the strategy's trades when none are given.""",
  ["histories", "inputs"], "every history of up to 4-5 trades (2 strategies x 2 instruments, winners, losers, flat, open, partially and fully closed) x every filter combination x list/generator/empty/absent argument",
  "Tests use mocked trades and one filter at a time.",
  ["estrade/strategy.py"], [("selection and sums", "estrade/strategy.py:BaseStrategy.get_trades/result/profit_factor")], [("trades", "strategy trades", "estrade/strategy.py")], ["get_trades", "result", "profit_factor"])

p("C25", "Reports list every strategy and trade exactly once, with its true figures",
  """A CSV report writes one row per given strategy with its number of trades, result and profit factor, and, when details are asked for, one file per strategy with one row per trade, newest first, holding the trade's figures; reading the files back
  as CSV gives those values for any reference text of trades and instruments (strategies: distinct references usable in a file name). Nothing already reported is lost or altered by a later report, also into the same folder within the same second, nor by a report that fails half way; missing folders are created, and reporting changes no trade.""",
  ["histories", "configurations", "inputs", "fault_sequences"], "every sequence of up to 3 reports over {same second, later second} x {same, other, no strategies} x details on/off x folder {missing, nested, existing} x a report that fails at its n-th file operation x trade histories and refs with separators, quotes, line breaks",
  "The only reporting test of the repository is commented out.",
  ["estrade/reporting/csv.py", "estrade/trade.py"], [("writer", "estrade/reporting/csv.py:CSVWriter.dict_to_csv"), ("rows", "estrade/reporting/csv.py:ReportingCSV.report")], [], ["files in the report folder"])

p("C26", "Independent instruments, frame sets and strategies never influence each other",
  """Two instruments with their own frame sets, indicators, providers and strategies behave, under every interleaving of their ticks and orders (also when each is fed by a thread of its own), exactly as each does alone; likewise several frame sets and indicators on one instrument behave
  as each would alone on it. Objects created without optional arguments share no mutable state, and lookups by reference return exactly the object registered under it or nothing.""",
  ["histories", "configurations", "schedules"], "every interleaving of two operation scripts of up to 4 operations each on two instruments, compared with the solo runs; two threads, each feeding its own instrument, under every schedule with one preemption; every subset of a set of frame sets/indicators compared with solo runs",
  "Non-interference is a relation between two histories; tests look at single runs.",
  ["estrade/epic.py", "estrade/graph/frame_set.py", "estrade/strategy.py", "estrade/trade_provider.py", "estrade/tick_provider.py", "estrade/mixins/meta.py"],
  [("per-instance state", "constructors")], [], ["all public state"])

p("C27", "Refused operations and failing callbacks leave everything consistent",
  """An operation refused with an error (duplicate frame-set or strategy reference, invalid timezone, invalid direction, invalid quantity for a unit, indicator needing more frames than kept) leaves the registered objects and the ledger as they were. When a strategy
  callback raises, the error reaches the feeder, the tick that caused it is nevertheless fully taken into account exactly once, and all later ticks are handled as if the callback had not failed; an indicator that raises harms at most the frame it was given.""",
  ["fault_sequences", "histories"], "every sequence of up to 4-5 operations over valid and each kind of refused operation; every choice of callback invocation(s) or user-defined indicator call that raise, in histories of up to 5 ticks with trades, frames and indicators",
  "Fault points are never injected by the tests.",
  ["estrade/epic.py", "estrade/strategy.py", "estrade/trade.py", "estrade/graph/indicators/rsi.py", "estrade/mixins/timeframe.py"], [("validation before mutation", "estrade/epic.py:Epic.add_frame_set/add_strategy/on_new_tick")], [], ["all public state after an error"])

p("C28", "Custom indicators receive every tick of every frame exactly once, in order",
  """Each user-defined indicator added to a frame set is asked, in the order the indicators were added, for a value on every frame at each tick until it has one, from the next tick after it was added on, and the value it built (also one that is falsy) is kept and from then on receives every later tick of that frame exactly
  once, in order, with the market state of that tick. Frames filling a gap count as frames whose only tick is the repeated one, with its market state. At each of these moments the frame already includes the tick, as do the values of the indicators added earlier, and the value of
  the previous frame is reachable as long as that frame is kept.""",
  ["histories", "configurations"], "every sequence of up to 4-6 ticks over {inside a frame, same instant, next period, after a gap, at opening, at closing} x indicators {plain, market-hours, falsy, list-like, not giving a value at the first tick} added at the start or between two ticks x one to three frame sets of ticks, hours, days x window sizes 1, 2, 100",
  "The built-in indicators only need the extreme and last ticks; a lost, repeated or misordered call, or a value built twice, shows only with indicators that depend on each call, over frames and gaps.",
  ["estrade/graph/frame_set.py", "estrade/graph/base_indicator.py"], [("update or creation of values", "estrade/graph/frame_set.py:Frame._upsert_indicators"), ("value creation", "estrade/graph/base_indicator.py:BaseIndicator.build_value_from_frame")],
  [("indicators", "values by reference", "estrade/graph/frame_set.py:Frame")], ["build_value_from_frame", "BaseIndicatorValue.on_new_tick", "Frame.indicators"])

p("C29", "Trades and closes carry exactly what their order was given",
  """A trade opened through a strategy, an instrument or a provider belongs to exactly that instrument, strategy and provider (also to ones that are falsy), and trade and close carry the reference, metadata and status they were ordered with, or an own non-empty reference, own empty metadata and the created status
  if none was given. Closing several trades at once passes the given quantity and details on to each close. Nothing but the provider's requests and the user changes them later: netting, further closes and ticks leave them as they are, and the dictionary representation shows them.""",
  ["histories", "inputs"], "every sequence of up to 3-5 orders and closes over {strategy, instrument, close all, hand-made trade} x {with, without reference, metadata, status} x notes left in the metadata x backtest and live providers x truthy and falsy strategies and providers",
  "Tests pass single arguments to mocks; lost, shared or overwritten details show over sequences mixing all kinds of orders.",
  ["estrade/strategy.py", "estrade/epic.py", "estrade/trade.py", "estrade/trade_provider.py", "estrade/mixins/meta.py", "estrade/mixins/ref.py"], [("argument passing", "estrade/strategy.py:BaseStrategy.open_trade/close_trade/close_opened_trades"), ("construction", "estrade/trade.py:Trade/TradeClose")],
  [], ["Trade/TradeClose.ref/meta/status/epic/strategy", "Trade.asdict"])

p("C30", "Looking at results never changes them, nor does not looking",
  """Every result - frames, links, indicator values, trade figures, lists of trades, statistics - is the same whether it is read for the first time at once, later, repeatedly, or never before the end, and whatever was read before. Reading changes nothing.""",
  ["histories"], "every sequence of up to 5-6 events over ticks, orders, closes and looks (complete readings; readings of one frame or one trade), and longer pumped histories looked at only at the end or at one moment",
  "Tests read each result once, at one moment; remembered or postponed computations go wrong only for particular orders of readings and changes.",
  ["estrade/graph/frame_set.py", "estrade/graph/base_indicator.py", "estrade/graph/indicators/candle_set.py", "estrade/graph/indicators/rsi.py", "estrade/graph/indicators/pivot.py", "estrade/graph/indicators/simple_moving_average.py", "estrade/trade.py", "estrade/strategy.py"],
  [("computed properties", "indicator values, Trade")], [], ["all public results"])

out = pathlib.Path(__file__).with_name("properties.jsonl")
out.write_text("".join(json.dumps(x) + "\n" for x in P))
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
    n = x["statement"].count(". ") + 1
    if n > 3:
        print(x["id"], "sentences", n)
print(len(P))
