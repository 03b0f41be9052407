From 08749af2bd794ac9fe4de46c915ed09783c5181e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:23 +0000
Subject: [PATCH 01/31] fix: value open trades only with the ticks of their own
 epic

---
 estrade/epic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/estrade/epic.py b/estrade/epic.py
index b5cf6d0..5790225 100644
--- a/estrade/epic.py
+++ b/estrade/epic.py
@@ -209,7 +209,9 @@ class Epic(RefMixin):
 
     def _update_open_trades(self, new_tick: "Tick") -> None:
         for trade in self.trade_provider.opened_trades:
-            trade.update_from_tick(new_tick)
+            # a trade provider can be shared with other epics
+            if trade.epic is self:
+                trade.update_from_tick(new_tick)
 
     def _execute_strategies(self, market_open_before_new_tick: bool) -> None:
         for _, strategy in self.strategies.items():
-- 
2.43.0


From df72ad4c91732079d5fb48a27d5843210595b917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:40 +0000
Subject: [PATCH 02/31] fix: backtests never net trades of different epics

---
 estrade/trade.py          | 12 ++++++++++++
 estrade/trade_provider.py |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/estrade/trade.py b/estrade/trade.py
index fbe1114..c45ee60 100644
--- a/estrade/trade.py
+++ b/estrade/trade.py
@@ -289,6 +289,18 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
     ####################
     # Properties
     ####################
+    def is_on_same_epic(self, trade: "Trade") -> bool:
+        """
+        Check if another trade is opened on the same epic.
+
+        Arguments:
+            trade: Trade to compare to.
+
+        return:
+            `True` if both trades are opened on the same epic.
+        """
+        return self.epic is trade.epic
+
     @property
     def closed_quantities(self) -> int:
         """
diff --git a/estrade/trade_provider.py b/estrade/trade_provider.py
index dc3c60a..4d9cc3d 100644
--- a/estrade/trade_provider.py
+++ b/estrade/trade_provider.py
@@ -176,6 +176,9 @@ class TradeProviderBacktests(BaseTradeProvider):
                         "a live environement, this behaviour will not be applied."
                     )
                     continue
+                if not open_trade.is_on_same_epic(trade):
+                    logger.info("Both trades are not opened on the same epic.")
+                    continue
                 logger.warning("It will be closed before opening a new position")
                 quantities_to_close = min(
                     open_trade.opened_quantities, trade.open_quantity
-- 
2.43.0


From 31de50eb1c9ca7843e6f8fe4d33e77017a91479b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:46 +0000
Subject: [PATCH 03/31] fix: stop netting once the quantity of the new trade is
 exhausted

---
 estrade/trade_provider.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/estrade/trade_provider.py b/estrade/trade_provider.py
index 4d9cc3d..d8306cb 100644
--- a/estrade/trade_provider.py
+++ b/estrade/trade_provider.py
@@ -164,6 +164,8 @@ class TradeProviderBacktests(BaseTradeProvider):
         )
 
         for open_trade in self.opened_trades:
+            if trade.open_quantity <= 0:
+                break
             if open_trade.direction == opposite_direction:
                 logger.info(
                     "A trade was opened when another is still open in "
-- 
2.43.0


From c8ef35e0131b5a7895779ab840ea05e0616e05a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:53 +0000
Subject: [PATCH 04/31] fix: reset min and max result of a trade reduced by
 netting

---
 estrade/trade_provider.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/estrade/trade_provider.py b/estrade/trade_provider.py
index d8306cb..692d01b 100644
--- a/estrade/trade_provider.py
+++ b/estrade/trade_provider.py
@@ -189,6 +189,8 @@ class TradeProviderBacktests(BaseTradeProvider):
                 self.close_trade(trade_close=trade_close)
 
                 trade.open_quantity -= quantities_to_close
+                # the results known so far included the quantities just netted
+                trade.max_result = trade.min_result = trade.result
 
         # if after decrement, the trade to open has a zero quantity, stop
         if trade.open_quantity <= 0:
-- 
2.43.0


From 8e6ac28d12b51627c61f925abc0010e08553a7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 05/31] fix: closing a quantity of zero does not close the
 whole trade

---
 estrade/trade.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/estrade/trade.py b/estrade/trade.py
index c45ee60..d629f84 100644
--- a/estrade/trade.py
+++ b/estrade/trade.py
@@ -230,7 +230,8 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
             The [`TradeClose`][estrade.trade.TradeClose] instance created.
 
         """
-        quantity = quantity or self.opened_quantities
+        if quantity is None:
+            quantity = self.opened_quantities
 
         if quantity > self.opened_quantities:
             logger.error(
@@ -369,7 +370,7 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
         """
         return round(
             sum(close.result for close in self.closes) / self.closed_quantities
-            if self.closes
+            if self.closes and self.closed_quantities
             else 0,
             2,
         )
-- 
2.43.0


From bcdde810c55ff002e6151272676435859f9bd4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:07 +0000
Subject: [PATCH 06/31] fix: average result of a trade whose quantity was
 entirely netted

---
 estrade/trade.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/estrade/trade.py b/estrade/trade.py
index d629f84..0b28f51 100644
--- a/estrade/trade.py
+++ b/estrade/trade.py
@@ -403,6 +403,8 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
         return:
             trade average result (does not takes quantities into account)
         """
+        if not self.open_quantity:
+            return 0.0
         return round(self.result / self.open_quantity, 2)
 
 
-- 
2.43.0


From 76fbfcbf9d75b62fd4f92c2c0a382e909eb7fc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:15 +0000
Subject: [PATCH 07/31] fix: a trade can be opened with a close value of zero

---
 estrade/trade.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/estrade/trade.py b/estrade/trade.py
index 0b28f51..2369a5f 100644
--- a/estrade/trade.py
+++ b/estrade/trade.py
@@ -75,7 +75,9 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
         self.closes: List[TradeClose] = []
 
         self.open_value = open_value
-        self.current_close_value = current_close_value or open_value
+        self.current_close_value = (
+            open_value if current_close_value is None else current_close_value
+        )
 
         self.max_result: float = self.result
         self.min_result: float = self.result
-- 
2.43.0


From 2b9fc0ba9e9d5ba52bc7d1dbc2e2e92efd9be1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:14 +0000
Subject: [PATCH 08/31] fix: candles opening or ending at zero have a color,
 body, head and tail

---
 estrade/graph/indicators/candle_set.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/estrade/graph/indicators/candle_set.py b/estrade/graph/indicators/candle_set.py
index 5d178e2..3495e5c 100644
--- a/estrade/graph/indicators/candle_set.py
+++ b/estrade/graph/indicators/candle_set.py
@@ -55,7 +55,7 @@ class BaseCandle(BaseIndicatorValue):
         Returns:
             Color as [`CandleColor`][estrade.enums.CandleColor] enum.
         """
-        if not self.open or not self.last:
+        if self.open is None or self.last is None:
             return None
 
         if self.last > self.open:
@@ -100,7 +100,7 @@ class BaseCandle(BaseIndicatorValue):
                 |
         ```
         """
-        if not self.open or not self.last:
+        if self.open is None or self.last is None:
             return None
 
         return round(abs(self.open - self.last), 2)
@@ -122,7 +122,7 @@ class BaseCandle(BaseIndicatorValue):
                 |
         ```
         """
-        if not self.open or not self.last:
+        if self.open is None or self.last is None:
             return None
         return round(self.high - (max(self.open, self.last)), 2)
 
@@ -143,7 +143,7 @@ class BaseCandle(BaseIndicatorValue):
                 |  ┘
         ```
         """
-        if not self.open or not self.last:
+        if self.open is None or self.last is None:
             return None
 
         return round(min(self.open, self.last) - self.low, 2)
-- 
2.43.0


From ba7765cc51a51aa62fc47e70f8bf4adafe3a487a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:21 +0000
Subject: [PATCH 09/31] fix: supports and resistances of a pivot of zero

---
 estrade/graph/indicators/pivot.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/estrade/graph/indicators/pivot.py b/estrade/graph/indicators/pivot.py
index a605f0c..2db0b1a 100644
--- a/estrade/graph/indicators/pivot.py
+++ b/estrade/graph/indicators/pivot.py
@@ -117,7 +117,7 @@ class PivotTypeClassic(BasePivotType):
             Support 1 value (pivot * 2 - high).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round((pivot * 2) - self.previous.high_tick.value, 2)  # type: ignore
         return None
 
@@ -130,7 +130,7 @@ class PivotTypeClassic(BasePivotType):
             Support 2 value (pivot - (high - low)).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round(
                 pivot
                 - (
@@ -150,7 +150,7 @@ class PivotTypeClassic(BasePivotType):
             Support 3 value (low - (high - pivot) * 2).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round(
                 self.previous.low_tick.value  # type: ignore
                 - ((self.previous.high_tick.value - pivot) * 2),  # type: ignore
@@ -167,7 +167,7 @@ class PivotTypeClassic(BasePivotType):
             Resistance 1 value (pivot * 2 - low).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round((pivot * 2) - self.previous.low_tick.value, 2)  # type: ignore
         return None
 
@@ -180,7 +180,7 @@ class PivotTypeClassic(BasePivotType):
             Resistance 2 value (pivot - (high - low)).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round(
                 pivot
                 + (
@@ -200,7 +200,7 @@ class PivotTypeClassic(BasePivotType):
             Resistance 3 value (high + (pivot - low) * 2).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round(
                 self.previous.high_tick.value  # type: ignore
                 + ((pivot - self.previous.low_tick.value) * 2),  # type: ignore
-- 
2.43.0


From 624b0371b67682910ffd4e7653a47c0b19d4a79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 10/31] fix: Heikin-Ashi candles keep their open when older
 frames are dropped

---
 estrade/graph/indicators/candle_set.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/estrade/graph/indicators/candle_set.py b/estrade/graph/indicators/candle_set.py
index 3495e5c..62470f7 100644
--- a/estrade/graph/indicators/candle_set.py
+++ b/estrade/graph/indicators/candle_set.py
@@ -26,6 +26,11 @@ class BaseCandle(BaseIndicatorValue):
             frame: parent frame
         """
         BaseIndicatorValue.__init__(self, *args, **kwargs)
+        self._init_from_previous()
+
+    def _init_from_previous(self) -> None:
+        """Keep what the candle needs from the previous one, at its creation."""
+        pass
 
     @property
     def open(self) -> float:
@@ -223,6 +228,16 @@ class HeikinAshiCandle(BaseCandle):
         frame (estrade.graph.frame_set.Frame): Parent frame.
     """
 
+    def _init_from_previous(self) -> None:
+        # the previous candle is complete at this point, and may be dropped from
+        # memory later on.
+        self._previous_mean: Optional[float] = None
+        previous = self.previous
+        if previous:
+            self._previous_mean = round(
+                (previous.open + previous.last) / 2, 2  # type: ignore
+            )
+
     @property
     def open(self) -> float:
         """
@@ -233,9 +248,9 @@ class HeikinAshiCandle(BaseCandle):
             this function returns the mean between the previous candle open and
             last value.
         """
-        if not self.previous:
+        if self._previous_mean is None:
             return round(self.first_tick.value, 2)
-        return round((self.previous.open + self.previous.last) / 2, 2)  # type: ignore
+        return self._previous_mean
 
     @property
     def high(self) -> float:
-- 
2.43.0


From 9a48475949d7155f57d44aec3316c773f4fcefa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:34 +0000
Subject: [PATCH 11/31] fix: moving averages limited to market hours ignore
 ticks outside them

---
 estrade/graph/indicators/simple_moving_average.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estrade/graph/indicators/simple_moving_average.py b/estrade/graph/indicators/simple_moving_average.py
index 45ddf61..316c3e2 100644
--- a/estrade/graph/indicators/simple_moving_average.py
+++ b/estrade/graph/indicators/simple_moving_average.py
@@ -42,7 +42,7 @@ class SimpleMovingAverageValue(BaseIndicatorValue):
 
     @property
     def extended_closes(self) -> List[float]:
-        extended_closes = self.last_closes + [self.frame.last_tick.value]
+        extended_closes = self.last_closes + [self.last_tick.value]
         return extended_closes
 
     def get_value(self, periods: int) -> Optional[float]:
-- 
2.43.0


From e234805a33d8293d33611f05e65b8f043c63d4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:41 +0000
Subject: [PATCH 12/31] fix: moving averages and RSI of one period only keep
 one period

---
 estrade/graph/indicators/rsi.py                   | 5 ++++-
 estrade/graph/indicators/simple_moving_average.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/estrade/graph/indicators/rsi.py b/estrade/graph/indicators/rsi.py
index 504feb8..cf05e77 100644
--- a/estrade/graph/indicators/rsi.py
+++ b/estrade/graph/indicators/rsi.py
@@ -48,7 +48,10 @@ class RSIValue(BaseIndicatorValue):
 
         if self.rsi_periods:
             max_last_changes_size = self.rsi_periods - 1
-            self.last_changes = self.last_changes[(max_last_changes_size * -1) :]
+            if max_last_changes_size:
+                self.last_changes = self.last_changes[(max_last_changes_size * -1) :]
+            else:
+                self.last_changes = []
 
             self._update_rsi()
 
diff --git a/estrade/graph/indicators/simple_moving_average.py b/estrade/graph/indicators/simple_moving_average.py
index 316c3e2..5c7ec10 100644
--- a/estrade/graph/indicators/simple_moving_average.py
+++ b/estrade/graph/indicators/simple_moving_average.py
@@ -38,7 +38,10 @@ class SimpleMovingAverageValue(BaseIndicatorValue):
             self.last_closes = self.previous.extended_closes[:]  # type: ignore
 
         max_last_closes_size = self.indicator.max_periods - 1  # type: ignore
-        self.last_closes = self.last_closes[(max_last_closes_size * -1) :]
+        if max_last_closes_size:
+            self.last_closes = self.last_closes[(max_last_closes_size * -1) :]
+        else:
+            self.last_closes = []
 
     @property
     def extended_closes(self) -> List[float]:
-- 
2.43.0


From 54a09b8e4a88a22fb6502923d0ada57a01c39786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:47 +0000
Subject: [PATCH 13/31] fix: rows are also written to an existing CSV file

---
 estrade/reporting/csv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/estrade/reporting/csv.py b/estrade/reporting/csv.py
index b133b0d..d9aa42a 100644
--- a/estrade/reporting/csv.py
+++ b/estrade/reporting/csv.py
@@ -34,8 +34,8 @@ class CSVWriter:
             writer = csv.DictWriter(f, fieldnames=headers)
             if not file_exists:
                 writer.writeheader()
-                for d in dict_list:
-                    writer.writerow(d)
+            for d in dict_list:
+                writer.writerow(d)
 
 
 class ReportingCSV:
-- 
2.43.0


From e5c46795146c9d7a0082e99df87f340bda9f5bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:52 +0000
Subject: [PATCH 14/31] fix: result and profit factor of an empty list of
 trades

---
 estrade/strategy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/estrade/strategy.py b/estrade/strategy.py
index db06314..66cc04d 100644
--- a/estrade/strategy.py
+++ b/estrade/strategy.py
@@ -145,7 +145,7 @@ class BaseStrategy(RefMixin):
         Returns:
             Result of the input list of trades.
         """
-        if not trades:
+        if trades is None:
             trades = self.trades
 
         result = 0.0
@@ -167,7 +167,7 @@ class BaseStrategy(RefMixin):
         Returns:
             Profit factor of the input list of trades.
         """
-        if not trades:
+        if trades is None:
             trades = self.trades
 
         sum_positive = 0.0
-- 
2.43.0


From cd5776f17d03ab4d2f5a9c4df5b6352f693ff14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 15/31] fix: tick frames are closed on day change

---
 estrade/graph/frame_set.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/estrade/graph/frame_set.py b/estrade/graph/frame_set.py
index b80ec9f..7275dfb 100644
--- a/estrade/graph/frame_set.py
+++ b/estrade/graph/frame_set.py
@@ -174,6 +174,7 @@ class FrameSet(TimeframeMixin, RefMixin):
         self.frames: List[Frame] = []
         self.indicators: Dict[str, "BaseIndicator"] = {}
         self.max_frames_in_memory = max_frames_in_memory
+        self._last_tick: Optional["Tick"] = None
 
     @property
     def current(self) -> Optional[Frame]:
@@ -245,12 +246,16 @@ class FrameSet(TimeframeMixin, RefMixin):
             return True
         return False
 
+    def _previous_tick(self, epic: "Epic") -> "Tick":
+        # the epic registers a new tick as its last one before updating its frame sets
+        return self._last_tick or epic.last_tick
+
     def is_frame_over_tick(self, tick: "Tick") -> bool:
         if (
             not self.current
             or self.current.nb_ticks >= self.unit_quantity
             or self.epic is None
-            or tick.datetime.date() > self.epic.last_tick.datetime.date()
+            or tick.datetime.date() > self._previous_tick(self.epic).datetime.date()
         ):
             return True
         return False
@@ -278,6 +283,8 @@ class FrameSet(TimeframeMixin, RefMixin):
         else:
             self.add_tick_to_last(tick)
 
+        self._last_tick = tick
+
     def __getitem__(self, frame_index: int) -> Optional[Frame]:
         try:
             frame = self.frames[frame_index]
-- 
2.43.0


From 4602ec7b8c533b52e4698f63bd9df3ffd6382a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:04 +0000
Subject: [PATCH 16/31] fix: frames filling a gap use the market state of the
 tick they repeat

---
 estrade/graph/frame_set.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/estrade/graph/frame_set.py b/estrade/graph/frame_set.py
index 7275dfb..2aaadce 100644
--- a/estrade/graph/frame_set.py
+++ b/estrade/graph/frame_set.py
@@ -175,6 +175,8 @@ class FrameSet(TimeframeMixin, RefMixin):
         self.indicators: Dict[str, "BaseIndicator"] = {}
         self.max_frames_in_memory = max_frames_in_memory
         self._last_tick: Optional["Tick"] = None
+        self._last_tick_market_open = False
+        self._filling_gap = False
 
     @property
     def current(self) -> Optional[Frame]:
@@ -185,6 +187,9 @@ class FrameSet(TimeframeMixin, RefMixin):
 
     @property
     def epic_market_open(self) -> bool:
+        if self._filling_gap:
+            # frames filling a gap repeat the tick received before the gap
+            return self._last_tick_market_open
         return bool(self.epic and self.epic.market_open)
 
     def add_indicator(self, indicator: "BaseIndicator"):
@@ -223,12 +228,14 @@ class FrameSet(TimeframeMixin, RefMixin):
         period_start = self.get_frame_start(tick.datetime)
         period_end = self.get_frame_end(period_start)
         if self.current:
+            self._filling_gap = True
             while period_start > self.current.period_end:
                 self.create_new_frame(
                     self.current.last_tick,
                     self.current.period_end,
                     self.get_frame_end(self.current.period_end),
                 )
+            self._filling_gap = False
 
         self.create_new_frame(tick, period_start, period_end)
 
@@ -284,6 +291,7 @@ class FrameSet(TimeframeMixin, RefMixin):
             self.add_tick_to_last(tick)
 
         self._last_tick = tick
+        self._last_tick_market_open = self.epic_market_open
 
     def __getitem__(self, frame_index: int) -> Optional[Frame]:
         try:
-- 
2.43.0


From 3d5656bdbab59b4bf98d53025d45ab607489319b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:37 +0000
Subject: [PATCH 17/31] fix: accept ticks of the hour repeated when daylight
 saving time ends

---
 estrade/epic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/estrade/epic.py b/estrade/epic.py
index 5790225..4845942 100644
--- a/estrade/epic.py
+++ b/estrade/epic.py
@@ -244,7 +244,8 @@ class Epic(RefMixin):
         """
         # set tick timezone
         tick.datetime = tick.datetime.to(self.timezone)
-        if tick.datetime < self.last_tick.datetime:
+        # local times go backwards when daylight saving time ends
+        if tick.datetime_utc < self.last_tick.datetime_utc:
             raise EpicException(
                 "Cannot handle a tick anterior to the last received tick."
             )
-- 
2.43.0


From 6fa9b8c00c9fa39102f4e89a50b05c56eb0e7db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:12 +0000
Subject: [PATCH 18/31] fix: frames stay on the calendar grid across daylight
 saving time changes

---
 estrade/graph/frame_set.py  |  9 +++++----
 estrade/mixins/timeframe.py | 20 +++++++++++++-------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/estrade/graph/frame_set.py b/estrade/graph/frame_set.py
index 2aaadce..0442178 100644
--- a/estrade/graph/frame_set.py
+++ b/estrade/graph/frame_set.py
@@ -229,11 +229,12 @@ class FrameSet(TimeframeMixin, RefMixin):
         period_end = self.get_frame_end(period_start)
         if self.current:
             self._filling_gap = True
-            while period_start > self.current.period_end:
+            while period_start.to("UTC") > self.current.period_end.to("UTC"):
+                gap_start = self.get_frame_start(self.current.period_end)
                 self.create_new_frame(
                     self.current.last_tick,
-                    self.current.period_end,
-                    self.get_frame_end(self.current.period_end),
+                    gap_start,
+                    self.get_frame_end(gap_start),
                 )
             self._filling_gap = False
 
@@ -249,7 +250,7 @@ class FrameSet(TimeframeMixin, RefMixin):
         )
 
     def is_frame_over_timed(self, tick: "Tick") -> bool:
-        if not self.current or tick.datetime >= self.current.period_end:
+        if not self.current or tick.datetime_utc >= self.current.period_end.to("UTC"):
             return True
         return False
 
diff --git a/estrade/mixins/timeframe.py b/estrade/mixins/timeframe.py
index 13107ae..4f2db8e 100644
--- a/estrade/mixins/timeframe.py
+++ b/estrade/mixins/timeframe.py
@@ -74,6 +74,10 @@ class TimeframeMixin:
         """
         if not self._timedelta:
             return frame_start
+        if self.unit in [Unit.SECOND, Unit.MINUTE]:
+            # these periods are not affected by a change of the UTC offset
+            frame_end_utc = frame_start.to("UTC").shift(**self._timedelta)
+            return frame_end_utc.to(frame_start.tzinfo)
         frame_end = frame_start.shift(**self._timedelta)
         return frame_end
 
@@ -85,17 +89,17 @@ class TimeframeMixin:
         return dt
 
     def _get_timeframe_start_seconds(self, dt: "Arrow") -> "Arrow":
-        seconds_start = dt - timedelta(
-            seconds=dt.second % self.unit_quantity,
-            microseconds=dt.microsecond,
+        seconds_start = dt.replace(
+            second=dt.second - dt.second % self.unit_quantity,
+            microsecond=0,
         )
         return seconds_start
 
     def _get_timeframe_start_minutes(self, dt: "Arrow") -> "Arrow":
-        minutes_start = dt - timedelta(
-            minutes=dt.minute % self.unit_quantity,
-            seconds=dt.second,
-            microseconds=dt.microsecond,
+        minutes_start = dt.replace(
+            minute=dt.minute - dt.minute % self.unit_quantity,
+            second=0,
+            microsecond=0,
         )
         return minutes_start
 
@@ -141,6 +145,7 @@ class TimeframeMixin:
             minute=0,
             second=0,
             microsecond=0,
+            fold=0,
         )
         return month_start
 
@@ -158,5 +163,6 @@ class TimeframeMixin:
             minute=0,
             second=0,
             microsecond=0,
+            fold=0,
         )
         return year_start
-- 
2.43.0


From ea1954e7832fbffc79823ccc083f85e7a02b619b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:17 +0000
Subject: [PATCH 19/31] fix: compare instants to know if a strategy is still
 paused

---
 estrade/strategy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/estrade/strategy.py b/estrade/strategy.py
index 66cc04d..0a929bb 100644
--- a/estrade/strategy.py
+++ b/estrade/strategy.py
@@ -62,7 +62,8 @@ class BaseStrategy(RefMixin):
     def _is_paused(self, new_tick_date: "Arrow") -> bool:
         if not self.paused_until:
             return False
-        is_still_paused = new_tick_date < self.paused_until
+        # local times go backwards when daylight saving time ends
+        is_still_paused = new_tick_date.to("UTC") < self.paused_until
         if not is_still_paused:
             self.paused_until = None
         return is_still_paused
-- 
2.43.0


From 0ea9e55b7daf66821bbbb5fa529cd0b6a6695081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:48 +0000
Subject: [PATCH 20/31] fix: select the trades opened after an instant by
 instant

---
 estrade/strategy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estrade/strategy.py b/estrade/strategy.py
index 0a929bb..68c806b 100644
--- a/estrade/strategy.py
+++ b/estrade/strategy.py
@@ -129,7 +129,7 @@ class BaseStrategy(RefMixin):
             if (epics is None or trade.epic in epics) and (
                 open_only is False or trade.closed is False
             ):
-                if only_after is not None and trade.datetime < only_after:
+                if only_after is not None and trade.datetime.to("UTC") < only_after:
                     break
                 yield trade
 
-- 
2.43.0


From 2e68ea7e1099fde3d916f57233150d7816be5b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:27 +0000
Subject: [PATCH 21/31] fix: keep the instant of ambiguous datetimes localized
 with pytz

---
 estrade/mixins/timed.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/estrade/mixins/timed.py b/estrade/mixins/timed.py
index 281a8e0..d3e76ce 100644
--- a/estrade/mixins/timed.py
+++ b/estrade/mixins/timed.py
@@ -36,7 +36,11 @@ class TimedMixin:
             )
         # convert to arrow.Arrow
         if isinstance(dt, pydatetime):
+            utc_offset = dt.utcoffset()
             dt = arrow.get(dt)
+            if dt.utcoffset() != utc_offset:
+                # second occurrence of a local time, given without fold (pytz)
+                dt = dt.replace(fold=1)
 
         self._datetime = dt
 
-- 
2.43.0


From 011904bea50fe554ebaa11dfbc1058e2b3d928bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:47 +0000
Subject: [PATCH 22/31] fix: periods starting inside the hour skipped by
 daylight saving time

---
 estrade/mixins/timeframe.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/estrade/mixins/timeframe.py b/estrade/mixins/timeframe.py
index 4f2db8e..8e8a411 100644
--- a/estrade/mixins/timeframe.py
+++ b/estrade/mixins/timeframe.py
@@ -1,6 +1,8 @@
 from datetime import timedelta
 from typing import Callable, TYPE_CHECKING
 
+from dateutil.tz import datetime_exists  # type: ignore
+
 from estrade.enums import Unit
 from estrade.exceptions import TimeFrameException
 
@@ -60,8 +62,15 @@ class TimeframeMixin:
             Start of the timeframe.
         """
         timeframe_start = self._get_frame_start_func(dt)
+        if self._is_skipped_time(timeframe_start):
+            # an empty shift moves to the first local time after the skipped ones
+            timeframe_start = timeframe_start.shift()
         return timeframe_start
 
+    def _is_skipped_time(self, dt: "Arrow") -> bool:
+        """Check if a local time is skipped when daylight saving time starts."""
+        return not datetime_exists(dt.datetime)
+
     def get_frame_end(self, frame_start: "Arrow") -> "Arrow":
         """
         Get the timeframe end from a input datetime representing a timeframe start.
@@ -78,6 +87,9 @@ class TimeframeMixin:
             # these periods are not affected by a change of the UTC offset
             frame_end_utc = frame_start.to("UTC").shift(**self._timedelta)
             return frame_end_utc.to(frame_start.tzinfo)
+        nominal_start = self._get_frame_start_func(frame_start)
+        if self._is_skipped_time(nominal_start):
+            frame_start = nominal_start
         frame_end = frame_start.shift(**self._timedelta)
         return frame_end
 
-- 
2.43.0


From 4552e8eed8506e6585579f5cd037cfc84e802ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:34 +0000
Subject: [PATCH 23/31] fix: midpoint of prices below the cent is not computed
 from the rounded spread

---
 estrade/tick.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estrade/tick.py b/estrade/tick.py
index f66aac3..3512377 100644
--- a/estrade/tick.py
+++ b/estrade/tick.py
@@ -132,7 +132,7 @@ class Tick(MetaMixin, TimedMixin):
         Returns:
             median value between bid and ask
         """
-        return round(self.bid + (self.spread / 2), 2)
+        return round((self.bid + self.ask) / 2, 2)
 
     def __str__(self) -> str:
         """
-- 
2.43.0


From 2ff8c1595d22d55f7749fad65b7402acdfe7e8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:32 +0000
Subject: [PATCH 24/31] fix: refuse anything but a datetime as datetime of a
 tick (eg: a zoned time)

---
 estrade/mixins/timed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estrade/mixins/timed.py b/estrade/mixins/timed.py
index d3e76ce..06bafe1 100644
--- a/estrade/mixins/timed.py
+++ b/estrade/mixins/timed.py
@@ -29,7 +29,7 @@ class TimedMixin:
             estrade.exceptions.TimeException: if datetime has no timezone defined.
 
         """
-        if not hasattr(dt, "tzinfo") or dt.tzinfo is None:
+        if not isinstance(dt, (pydatetime, arrow.Arrow)) or dt.tzinfo is None:
             raise TimeException(
                 f"Invalid {self.__class__.__name__} datetime, "
                 f"a timezoned datetime is required."
-- 
2.43.0


From 09517252828ac22cabcb9c3e96fbae0faa433bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:08 +0000
Subject: [PATCH 25/31] fix: keep the instant of skipped local times localized
 with pytz

---
 estrade/mixins/timed.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/estrade/mixins/timed.py b/estrade/mixins/timed.py
index 06bafe1..90d2b96 100644
--- a/estrade/mixins/timed.py
+++ b/estrade/mixins/timed.py
@@ -1,4 +1,4 @@
-from datetime import datetime as pydatetime
+from datetime import datetime as pydatetime, timezone
 from typing import Union
 
 import arrow  # type: ignore
@@ -36,11 +36,11 @@ class TimedMixin:
             )
         # convert to arrow.Arrow
         if isinstance(dt, pydatetime):
-            utc_offset = dt.utcoffset()
-            dt = arrow.get(dt)
-            if dt.utcoffset() != utc_offset:
-                # second occurrence of a local time, given without fold (pytz)
-                dt = dt.replace(fold=1)
+            arrow_dt = arrow.get(dt)
+            if arrow_dt.utcoffset() != dt.utcoffset():
+                # repeated or skipped local time, given without fold (pytz)
+                arrow_dt = arrow.get(dt.astimezone(timezone.utc)).to(arrow_dt.tzinfo)
+            dt = arrow_dt
 
         self._datetime = dt
 
-- 
2.43.0


From e35d485bddb4b10cb4dc004a648e206fc721d1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:16 +0000
Subject: [PATCH 26/31] fix: no blank header for a strategy without trades,
 rows added later get one

---
 estrade/reporting/csv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/estrade/reporting/csv.py b/estrade/reporting/csv.py
index d9aa42a..a28e4e0 100644
--- a/estrade/reporting/csv.py
+++ b/estrade/reporting/csv.py
@@ -21,7 +21,7 @@ class CSVWriter:
 
         file_path = f"{path}/{filename}"
         file_exists = True
-        if not os.path.isfile(file_path):
+        if not os.path.isfile(file_path) or os.path.getsize(file_path) == 0:
             open_mode = "w+"
             file_exists = False
 
@@ -32,7 +32,7 @@ class CSVWriter:
         file_exists, f = CSVWriter.open_file(path, filename)
         with f:
             writer = csv.DictWriter(f, fieldnames=headers)
-            if not file_exists:
+            if headers and not file_exists:
                 writer.writeheader()
             for d in dict_list:
                 writer.writerow(d)
-- 
2.43.0


From 6d035f2eb8d5b197902b3907ca9789f968fe3a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:23 +0000
Subject: [PATCH 27/31] fix: a refused RSI is not added to the frame set

---
 estrade/graph/frame_set.py      | 3 ++-
 estrade/graph/indicators/rsi.py | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/estrade/graph/frame_set.py b/estrade/graph/frame_set.py
index 0442178..4073f25 100644
--- a/estrade/graph/frame_set.py
+++ b/estrade/graph/frame_set.py
@@ -193,8 +193,9 @@ class FrameSet(TimeframeMixin, RefMixin):
         return bool(self.epic and self.epic.market_open)
 
     def add_indicator(self, indicator: "BaseIndicator"):
-        self.indicators[indicator.ref] = indicator
+        # may refuse the indicator
         indicator.set_frame_set(self)
+        self.indicators[indicator.ref] = indicator
 
     def clean_old_frames(self):
         import gc
diff --git a/estrade/graph/indicators/rsi.py b/estrade/graph/indicators/rsi.py
index cf05e77..8b13480 100644
--- a/estrade/graph/indicators/rsi.py
+++ b/estrade/graph/indicators/rsi.py
@@ -130,9 +130,10 @@ class RSI(BaseIndicator):
         self.rsi_periods: Optional[int] = None
 
     def set_frame_set(self, frame_set: "FrameSet") -> None:
-        super(RSI, self).set_frame_set(frame_set)
-        self.rsi_periods = self.periods * frame_set.unit_quantity
-        if self.rsi_periods > frame_set.max_frames_in_memory:
+        rsi_periods = self.periods * frame_set.unit_quantity
+        if rsi_periods > frame_set.max_frames_in_memory:
             raise BaseIndicatorException(
                 "Not enough frames kept in memory to calculate RSI"
             )
+        super(RSI, self).set_frame_set(frame_set)
+        self.rsi_periods = rsi_periods
-- 
2.43.0


From c536867ac909b659589e016408fe8577137ba9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 28/31] fix: keep indicator values (and epics) that are falsy

A user defined indicator value that is falsy (for instance an empty
collection) was built again for every tick of its frame.
---
 estrade/graph/frame_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/estrade/graph/frame_set.py b/estrade/graph/frame_set.py
index 4073f25..a14754d 100644
--- a/estrade/graph/frame_set.py
+++ b/estrade/graph/frame_set.py
@@ -95,7 +95,7 @@ class Frame:
         market_open = self.parent_frameset.epic_market_open
         for indicator_ref, indicator in self.parent_frameset.indicators.items():
             current_indicator_value = self.indicators.get(indicator_ref, None)
-            if current_indicator_value:
+            if current_indicator_value is not None:
                 current_indicator_value.on_new_tick(tick, market_open)
             else:
                 self._create_new_indicator_value(indicator, market_open)
@@ -190,7 +190,7 @@ class FrameSet(TimeframeMixin, RefMixin):
         if self._filling_gap:
             # frames filling a gap repeat the tick received before the gap
             return self._last_tick_market_open
-        return bool(self.epic and self.epic.market_open)
+        return bool(self.epic is not None and self.epic.market_open)
 
     def add_indicator(self, indicator: "BaseIndicator"):
         # may refuse the indicator
-- 
2.43.0


From 99b604e32b9e267fbd6b24ed1f813c472502dde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 29/31] fix: do not replace or forget providers, strategies and
 frame sets that are falsy

A trade provider or strategy defining __len__ (its number of trades, 0 at
first) was replaced by the default provider, or its trades not recorded.
---
 estrade/epic.py           | 8 +++++---
 estrade/trade.py          | 2 +-
 estrade/trade_provider.py | 2 +-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/estrade/epic.py b/estrade/epic.py
index 4845942..2831bfc 100644
--- a/estrade/epic.py
+++ b/estrade/epic.py
@@ -81,7 +81,9 @@ class Epic(RefMixin):
         self.close_time = close_time
         self.trade_days = trade_days or [0, 1, 2, 3, 4]
         self.holidays = holidays or []
-        self.trade_provider = trade_provider or TradeProviderBacktests()
+        self.trade_provider = (
+            TradeProviderBacktests() if trade_provider is None else trade_provider
+        )
 
         # create a fake tick to init last_tick attribute
         self.last_tick: Tick = Tick(
@@ -132,7 +134,7 @@ class Epic(RefMixin):
             raise EpicException(f"Invalid timezone : {timezone}")
 
     def add_frame_set(self, frame_set: "FrameSet") -> None:
-        if self.frame_sets.get(frame_set.ref):
+        if frame_set.ref in self.frame_sets:
             raise EpicException(
                 f"Cannot add 2 FrameSet with the same ref ({frame_set.ref}) to epic."
             )
@@ -141,7 +143,7 @@ class Epic(RefMixin):
         self.frame_sets[frame_set.ref] = frame_set
 
     def add_strategy(self, strategy: "BaseStrategy") -> None:
-        if self.strategies.get(strategy.ref):
+        if strategy.ref in self.strategies:
             raise EpicException(
                 f"Cannot add 2 Strategies with the same ref ({strategy.ref}) to epic."
             )
diff --git a/estrade/trade.py b/estrade/trade.py
index 2369a5f..2b8e782 100644
--- a/estrade/trade.py
+++ b/estrade/trade.py
@@ -97,7 +97,7 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
             "ref": self.ref,
             "status": self.status,
             "epic": self.epic.ref,
-            "strategy": self.strategy.ref if self.strategy else "undefined",
+            "strategy": "undefined" if self.strategy is None else self.strategy.ref,
             "open_date": self.datetime.format("YYYY-MM-DD HH:mm:ss"),
             "direction": self.direction,
             "open_quantity": self.open_quantity,
diff --git a/estrade/trade_provider.py b/estrade/trade_provider.py
index 692d01b..3f44249 100644
--- a/estrade/trade_provider.py
+++ b/estrade/trade_provider.py
@@ -71,7 +71,7 @@ class BaseTradeProvider(RefMixin):
             trade: New trade to create.
         """
         self.trades.append(trade)
-        if trade.strategy:
+        if trade.strategy is not None:
             trade.strategy.trades.append(trade)
 
         thr = threading.Thread(
-- 
2.43.0


From f8ca1441d30de3a7b229debf9fda95fbd351f3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:09 +0000
Subject: [PATCH 30/31] fix: an instrument given no trading day is never open

An empty list of trading days was replaced by the default one.
---
 estrade/epic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estrade/epic.py b/estrade/epic.py
index 2831bfc..483b689 100644
--- a/estrade/epic.py
+++ b/estrade/epic.py
@@ -79,7 +79,7 @@ class Epic(RefMixin):
         self.timezone: str = timezone
         self.open_time = open_time
         self.close_time = close_time
-        self.trade_days = trade_days or [0, 1, 2, 3, 4]
+        self.trade_days = [0, 1, 2, 3, 4] if trade_days is None else trade_days
         self.holidays = holidays or []
         self.trade_provider = (
             TradeProviderBacktests() if trade_provider is None else trade_provider
-- 
2.43.0


From 8b1d8f532108de45f1fa48d6cd8dc16c32506504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:37 +0000
Subject: [PATCH 31/31] fix: a datetime whose timezone gives no UTC offset is
 not timezoned

---
 estrade/mixins/timed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estrade/mixins/timed.py b/estrade/mixins/timed.py
index 90d2b96..f11e188 100644
--- a/estrade/mixins/timed.py
+++ b/estrade/mixins/timed.py
@@ -29,7 +29,7 @@ class TimedMixin:
             estrade.exceptions.TimeException: if datetime has no timezone defined.
 
         """
-        if not isinstance(dt, (pydatetime, arrow.Arrow)) or dt.tzinfo is None:
+        if not isinstance(dt, (pydatetime, arrow.Arrow)) or dt.utcoffset() is None:
             raise TimeException(
                 f"Invalid {self.__class__.__name__} datetime, "
                 f"a timezoned datetime is required."
-- 
2.43.0

