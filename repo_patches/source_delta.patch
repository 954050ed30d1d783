From 3f9994d0d6f1959599d696bf4079b388ce211d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:54 +0000
Subject: [PATCH 01/37] fix: keep a current close value of 0 when a trade is
 opened

---
 estrade/trade.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/estrade/trade.py b/estrade/trade.py
index fbe1114..51116ca 100644
--- a/estrade/trade.py
+++ b/estrade/trade.py
@@ -75,7 +75,9 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
         self.closes: List[TradeClose] = []
 
         self.open_value = open_value
-        self.current_close_value = current_close_value or open_value
+        self.current_close_value = (
+            open_value if current_close_value is None else current_close_value
+        )
 
         self.max_result: float = self.result
         self.min_result: float = self.result
-- 
2.43.0


From 10c5c16aad3c1e43d35c811dba9d88f552dc965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:02 +0000
Subject: [PATCH 02/37] fix: closing a quantity of 0 must not close the whole
 trade

---
 estrade/trade.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/estrade/trade.py b/estrade/trade.py
index 51116ca..596516d 100644
--- a/estrade/trade.py
+++ b/estrade/trade.py
@@ -232,7 +232,8 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
             The [`TradeClose`][estrade.trade.TradeClose] instance created.
 
         """
-        quantity = quantity or self.opened_quantities
+        if quantity is None:
+            quantity = self.opened_quantities
 
         if quantity > self.opened_quantities:
             logger.error(
-- 
2.43.0


From 7653c796abdd1262271798e8b921a46f0b3ff530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:09 +0000
Subject: [PATCH 03/37] fix: average results of a trade without quantity are 0

---
 estrade/trade.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/estrade/trade.py b/estrade/trade.py
index 596516d..26756e8 100644
--- a/estrade/trade.py
+++ b/estrade/trade.py
@@ -360,7 +360,7 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
         """
         return round(
             sum(close.result for close in self.closes) / self.closed_quantities
-            if self.closes
+            if self.closed_quantities
             else 0,
             2,
         )
@@ -393,6 +393,8 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
         return:
             trade average result (does not takes quantities into account)
         """
+        if self.open_quantity == 0:
+            return 0.0
         return round(self.result / self.open_quantity, 2)
 
 
-- 
2.43.0


From aa0ab87c635808adb0542b341d78b356caf00109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 04/37] fix: stop netting once the new trade quantity is
 exhausted in backtests

---
 estrade/trade_provider.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/estrade/trade_provider.py b/estrade/trade_provider.py
index dc3c60a..923a904 100644
--- a/estrade/trade_provider.py
+++ b/estrade/trade_provider.py
@@ -184,6 +184,8 @@ class TradeProviderBacktests(BaseTradeProvider):
                 self.close_trade(trade_close=trade_close)
 
                 trade.open_quantity -= quantities_to_close
+                if trade.open_quantity <= 0:
+                    break
 
         # if after decrement, the trade to open has a zero quantity, stop
         if trade.open_quantity <= 0:
-- 
2.43.0


From 113e1742b525bbe0130c58da5246b541444119cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:36 +0000
Subject: [PATCH 05/37] fix: update only the trades of the epic receiving a
 tick

---
 estrade/epic.py  |  3 ++-
 estrade/trade.py | 12 ++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/estrade/epic.py b/estrade/epic.py
index b5cf6d0..b44fdee 100644
--- a/estrade/epic.py
+++ b/estrade/epic.py
@@ -209,7 +209,8 @@ class Epic(RefMixin):
 
     def _update_open_trades(self, new_tick: "Tick") -> None:
         for trade in self.trade_provider.opened_trades:
-            trade.update_from_tick(new_tick)
+            if trade.is_on_epic(self):
+                trade.update_from_tick(new_tick)
 
     def _execute_strategies(self, market_open_before_new_tick: bool) -> None:
         for _, strategy in self.strategies.items():
diff --git a/estrade/trade.py b/estrade/trade.py
index 26756e8..919a737 100644
--- a/estrade/trade.py
+++ b/estrade/trade.py
@@ -322,6 +322,18 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
         """
         return self.opened_quantities == 0
 
+    def is_on_epic(self, epic: "Epic") -> bool:
+        """
+        Check if this trade was opened on the input epic.
+
+        Arguments:
+            epic: Epic instance to compare to this trade epic.
+
+        Returns:
+            Is this trade opened on the input epic?
+        """
+        return self.epic is epic
+
     @property
     def opened_result_avg(self) -> float:
         """
-- 
2.43.0


From 4b697e4d93166ec7730d7d788f5e1f435d3f9715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:45 +0000
Subject: [PATCH 06/37] fix: do not net trades of different epics in backtests

---
 estrade/trade.py          | 12 ++++++++++++
 estrade/trade_provider.py |  4 +++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/estrade/trade.py b/estrade/trade.py
index 919a737..9a03416 100644
--- a/estrade/trade.py
+++ b/estrade/trade.py
@@ -334,6 +334,18 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
         """
         return self.epic is epic
 
+    def has_same_epic(self, other: "Trade") -> bool:
+        """
+        Check if another trade was opened on the epic of this trade.
+
+        Arguments:
+            other: Trade instance to compare to this trade.
+
+        Returns:
+            Are both trades opened on the same epic?
+        """
+        return other.is_on_epic(self.epic)
+
     @property
     def opened_result_avg(self) -> float:
         """
diff --git a/estrade/trade_provider.py b/estrade/trade_provider.py
index 923a904..c9c9b54 100644
--- a/estrade/trade_provider.py
+++ b/estrade/trade_provider.py
@@ -164,7 +164,9 @@ class TradeProviderBacktests(BaseTradeProvider):
         )
 
         for open_trade in self.opened_trades:
-            if open_trade.direction == opposite_direction:
+            if open_trade.direction == opposite_direction and trade.has_same_epic(
+                open_trade
+            ):
                 logger.info(
                     "A trade was opened when another is still open in "
                     "the opposite direction."
-- 
2.43.0


From b43d8f07e5a2cd6c1c8e540cc66797b473fbcbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:53 +0000
Subject: [PATCH 07/37] fix: min and max results of a netted trade follow its
 remaining quantity

---
 estrade/trade_provider.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/estrade/trade_provider.py b/estrade/trade_provider.py
index c9c9b54..02f4288 100644
--- a/estrade/trade_provider.py
+++ b/estrade/trade_provider.py
@@ -186,6 +186,7 @@ class TradeProviderBacktests(BaseTradeProvider):
                 self.close_trade(trade_close=trade_close)
 
                 trade.open_quantity -= quantities_to_close
+                trade.max_result = trade.min_result = trade.result
                 if trade.open_quantity <= 0:
                     break
 
-- 
2.43.0


From faf14abacf26dc7bc497531f5913aa07b5f432c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:15 +0000
Subject: [PATCH 08/37] fix: candle color and sizes are defined when a value is
 0

---
 estrade/graph/indicators/candle_set.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/estrade/graph/indicators/candle_set.py b/estrade/graph/indicators/candle_set.py
index 5d178e2..3495e5c 100644
--- a/estrade/graph/indicators/candle_set.py
+++ b/estrade/graph/indicators/candle_set.py
@@ -55,7 +55,7 @@ class BaseCandle(BaseIndicatorValue):
         Returns:
             Color as [`CandleColor`][estrade.enums.CandleColor] enum.
         """
-        if not self.open or not self.last:
+        if self.open is None or self.last is None:
             return None
 
         if self.last > self.open:
@@ -100,7 +100,7 @@ class BaseCandle(BaseIndicatorValue):
                 |
         ```
         """
-        if not self.open or not self.last:
+        if self.open is None or self.last is None:
             return None
 
         return round(abs(self.open - self.last), 2)
@@ -122,7 +122,7 @@ class BaseCandle(BaseIndicatorValue):
                 |
         ```
         """
-        if not self.open or not self.last:
+        if self.open is None or self.last is None:
             return None
         return round(self.high - (max(self.open, self.last)), 2)
 
@@ -143,7 +143,7 @@ class BaseCandle(BaseIndicatorValue):
                 |  ┘
         ```
         """
-        if not self.open or not self.last:
+        if self.open is None or self.last is None:
             return None
 
         return round(min(self.open, self.last) - self.low, 2)
-- 
2.43.0


From 56cc55f34c9c33e513bf4d4dfb8f7468d9268992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:21 +0000
Subject: [PATCH 09/37] fix: supports and resistances are defined when the
 pivot is 0

---
 estrade/graph/indicators/pivot.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/estrade/graph/indicators/pivot.py b/estrade/graph/indicators/pivot.py
index a605f0c..2db0b1a 100644
--- a/estrade/graph/indicators/pivot.py
+++ b/estrade/graph/indicators/pivot.py
@@ -117,7 +117,7 @@ class PivotTypeClassic(BasePivotType):
             Support 1 value (pivot * 2 - high).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round((pivot * 2) - self.previous.high_tick.value, 2)  # type: ignore
         return None
 
@@ -130,7 +130,7 @@ class PivotTypeClassic(BasePivotType):
             Support 2 value (pivot - (high - low)).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round(
                 pivot
                 - (
@@ -150,7 +150,7 @@ class PivotTypeClassic(BasePivotType):
             Support 3 value (low - (high - pivot) * 2).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round(
                 self.previous.low_tick.value  # type: ignore
                 - ((self.previous.high_tick.value - pivot) * 2),  # type: ignore
@@ -167,7 +167,7 @@ class PivotTypeClassic(BasePivotType):
             Resistance 1 value (pivot * 2 - low).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round((pivot * 2) - self.previous.low_tick.value, 2)  # type: ignore
         return None
 
@@ -180,7 +180,7 @@ class PivotTypeClassic(BasePivotType):
             Resistance 2 value (pivot - (high - low)).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round(
                 pivot
                 + (
@@ -200,7 +200,7 @@ class PivotTypeClassic(BasePivotType):
             Resistance 3 value (high + (pivot - low) * 2).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round(
                 self.previous.high_tick.value  # type: ignore
                 + ((pivot - self.previous.low_tick.value) * 2),  # type: ignore
-- 
2.43.0


From 8995181ef2346907ff922c4ab11f39d6de068a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:28 +0000
Subject: [PATCH 10/37] fix: result and profit factor of an empty list of
 trades

---
 estrade/strategy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/estrade/strategy.py b/estrade/strategy.py
index db06314..66cc04d 100644
--- a/estrade/strategy.py
+++ b/estrade/strategy.py
@@ -145,7 +145,7 @@ class BaseStrategy(RefMixin):
         Returns:
             Result of the input list of trades.
         """
-        if not trades:
+        if trades is None:
             trades = self.trades
 
         result = 0.0
@@ -167,7 +167,7 @@ class BaseStrategy(RefMixin):
         Returns:
             Profit factor of the input list of trades.
         """
-        if not trades:
+        if trades is None:
             trades = self.trades
 
         sum_positive = 0.0
-- 
2.43.0


From 7f59bccbc9fbb256c177643c125c2e21a165a89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:33 +0000
Subject: [PATCH 11/37] fix: write report rows when the report file already
 exists

---
 estrade/reporting/csv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/estrade/reporting/csv.py b/estrade/reporting/csv.py
index b133b0d..d9aa42a 100644
--- a/estrade/reporting/csv.py
+++ b/estrade/reporting/csv.py
@@ -34,8 +34,8 @@ class CSVWriter:
             writer = csv.DictWriter(f, fieldnames=headers)
             if not file_exists:
                 writer.writeheader()
-                for d in dict_list:
-                    writer.writerow(d)
+            for d in dict_list:
+                writer.writerow(d)
 
 
 class ReportingCSV:
-- 
2.43.0


From 034ffb880741e5a4729f5ffc1023f9f477c536ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 12/37] fix: refuse ticks without a comparable bid and ask
 (nan)

---
 estrade/tick.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estrade/tick.py b/estrade/tick.py
index f66aac3..d4b742f 100644
--- a/estrade/tick.py
+++ b/estrade/tick.py
@@ -53,7 +53,7 @@ class Tick(MetaMixin, TimedMixin):
         TimedMixin.__init__(self, datetime)
         self.ask = ask
         self.bid = bid
-        if self.bid > self.ask:
+        if not self.bid <= self.ask:
             raise TickException(f"Tick bid {bid} cannot be superior to ask {ask}")
         MetaMixin.__init__(self, meta)
 
-- 
2.43.0


From 0488d87857879d1e23b68a5b8ce49ef60303cbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:45 +0000
Subject: [PATCH 13/37] fix: do not register an indicator its frame set cannot
 feed

---
 estrade/graph/frame_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estrade/graph/frame_set.py b/estrade/graph/frame_set.py
index b80ec9f..4bc69d4 100644
--- a/estrade/graph/frame_set.py
+++ b/estrade/graph/frame_set.py
@@ -187,8 +187,8 @@ class FrameSet(TimeframeMixin, RefMixin):
         return bool(self.epic and self.epic.market_open)
 
     def add_indicator(self, indicator: "BaseIndicator"):
-        self.indicators[indicator.ref] = indicator
         indicator.set_frame_set(self)
+        self.indicators[indicator.ref] = indicator
 
     def clean_old_frames(self):
         import gc
-- 
2.43.0


From c1bb8d153fa9bce5ccf618078eb66a96fb7945be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:07 +0000
Subject: [PATCH 14/37] fix: keep no previous close for a moving average of one
 period

---
 estrade/graph/indicators/simple_moving_average.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/estrade/graph/indicators/simple_moving_average.py b/estrade/graph/indicators/simple_moving_average.py
index 45ddf61..b38cba9 100644
--- a/estrade/graph/indicators/simple_moving_average.py
+++ b/estrade/graph/indicators/simple_moving_average.py
@@ -38,7 +38,11 @@ class SimpleMovingAverageValue(BaseIndicatorValue):
             self.last_closes = self.previous.extended_closes[:]  # type: ignore
 
         max_last_closes_size = self.indicator.max_periods - 1  # type: ignore
-        self.last_closes = self.last_closes[(max_last_closes_size * -1) :]
+        self.last_closes = (
+            self.last_closes[(max_last_closes_size * -1) :]
+            if max_last_closes_size
+            else []
+        )
 
     @property
     def extended_closes(self) -> List[float]:
-- 
2.43.0


From a21d1eca37b1f62c396be9398513951e8703afbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:14 +0000
Subject: [PATCH 15/37] fix: keep no previous change for a RSI of one period

---
 estrade/graph/indicators/rsi.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/estrade/graph/indicators/rsi.py b/estrade/graph/indicators/rsi.py
index 504feb8..76b5018 100644
--- a/estrade/graph/indicators/rsi.py
+++ b/estrade/graph/indicators/rsi.py
@@ -48,7 +48,11 @@ class RSIValue(BaseIndicatorValue):
 
         if self.rsi_periods:
             max_last_changes_size = self.rsi_periods - 1
-            self.last_changes = self.last_changes[(max_last_changes_size * -1) :]
+            self.last_changes = (
+                self.last_changes[(max_last_changes_size * -1) :]
+                if max_last_changes_size
+                else []
+            )
 
             self._update_rsi()
 
-- 
2.43.0


From 29753e2cd50fa19e3a9d9b36c9ad0b520797c8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:21 +0000
Subject: [PATCH 16/37] fix: refuse timeframes without a positive unit quantity

---
 estrade/mixins/timeframe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/estrade/mixins/timeframe.py b/estrade/mixins/timeframe.py
index 13107ae..35a5b86 100644
--- a/estrade/mixins/timeframe.py
+++ b/estrade/mixins/timeframe.py
@@ -34,6 +34,8 @@ class TimeframeMixin:
         self._check_unit_consistency()
 
     def _check_unit_consistency(self) -> None:
+        if self.unit_quantity <= 0:
+            raise TimeFrameException("Invalid timeframe unit quantity")
         if self.unit in [Unit.TICK, Unit.YEAR]:
             return
 
-- 
2.43.0


From bc1e17525222bca028bfeab879d4c68596461315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:27 +0000
Subject: [PATCH 17/37] fix: start a new tick frame when the day changes

---
 estrade/graph/frame_set.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/estrade/graph/frame_set.py b/estrade/graph/frame_set.py
index 4bc69d4..3ae9977 100644
--- a/estrade/graph/frame_set.py
+++ b/estrade/graph/frame_set.py
@@ -171,6 +171,7 @@ class FrameSet(TimeframeMixin, RefMixin):
             self._create_new_frame_func = self._create_new_frame_tick
 
         self.epic: Optional["Epic"] = None
+        self._last_tick: Optional["Tick"] = None
         self.frames: List[Frame] = []
         self.indicators: Dict[str, "BaseIndicator"] = {}
         self.max_frames_in_memory = max_frames_in_memory
@@ -250,10 +251,11 @@ class FrameSet(TimeframeMixin, RefMixin):
             not self.current
             or self.current.nb_ticks >= self.unit_quantity
             or self.epic is None
-            or tick.datetime.date() > self.epic.last_tick.datetime.date()
         ):
             return True
-        return False
+        # the epic last tick may already be the tick currently handled
+        last_tick = self._last_tick or self.epic.last_tick
+        return tick.datetime.date() > last_tick.datetime.date()
 
     def add_tick_to_last(self, tick: "Tick") -> None:
         if self.current:
@@ -277,6 +279,7 @@ class FrameSet(TimeframeMixin, RefMixin):
             self._create_new_frame_func(tick)
         else:
             self.add_tick_to_last(tick)
+        self._last_tick = tick
 
     def __getitem__(self, frame_index: int) -> Optional[Frame]:
         try:
-- 
2.43.0


From 1ff585726ebcc5e48c32cfb17ed50fbda0bc0c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 18/37] fix: compare ticks as instants so the repeated hour of
 a DST change is accepted

---
 estrade/epic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estrade/epic.py b/estrade/epic.py
index b44fdee..312b067 100644
--- a/estrade/epic.py
+++ b/estrade/epic.py
@@ -243,7 +243,7 @@ class Epic(RefMixin):
         """
         # set tick timezone
         tick.datetime = tick.datetime.to(self.timezone)
-        if tick.datetime < self.last_tick.datetime:
+        if tick.datetime_utc < self.last_tick.datetime_utc:
             raise EpicException(
                 "Cannot handle a tick anterior to the last received tick."
             )
-- 
2.43.0


From 8f122577bd4a6de3c1d36319f84e5d7bce7584b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 19/37] fix: frames of seconds and minutes follow elapsed time
 through DST changes

---
 estrade/graph/frame_set.py  |  6 ++++--
 estrade/mixins/timeframe.py | 27 ++++++++++++++++++++-------
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/estrade/graph/frame_set.py b/estrade/graph/frame_set.py
index 3ae9977..3338ca8 100644
--- a/estrade/graph/frame_set.py
+++ b/estrade/graph/frame_set.py
@@ -223,7 +223,7 @@ class FrameSet(TimeframeMixin, RefMixin):
         period_start = self.get_frame_start(tick.datetime)
         period_end = self.get_frame_end(period_start)
         if self.current:
-            while period_start > self.current.period_end:
+            while period_start.to("UTC") > self.current.period_end.to("UTC"):
                 self.create_new_frame(
                     self.current.last_tick,
                     self.current.period_end,
@@ -242,7 +242,9 @@ class FrameSet(TimeframeMixin, RefMixin):
         )
 
     def is_frame_over_timed(self, tick: "Tick") -> bool:
-        if not self.current or tick.datetime >= self.current.period_end:
+        if not self.current or tick.datetime_utc >= self.current.period_end.to(
+            "UTC"
+        ):
             return True
         return False
 
diff --git a/estrade/mixins/timeframe.py b/estrade/mixins/timeframe.py
index 35a5b86..35cb877 100644
--- a/estrade/mixins/timeframe.py
+++ b/estrade/mixins/timeframe.py
@@ -76,9 +76,16 @@ class TimeframeMixin:
         """
         if not self._timedelta:
             return frame_start
+        if self.unit in [Unit.SECOND, Unit.MINUTE]:
+            # an elapsed duration, whatever the DST changes in the frame timezone
+            return self._shift_elapsed(frame_start, timedelta(**self._timedelta))
         frame_end = frame_start.shift(**self._timedelta)
         return frame_end
 
+    @staticmethod
+    def _shift_elapsed(dt: "Arrow", delta: timedelta) -> "Arrow":
+        return (dt.to("UTC") + delta).to(dt.tzinfo)
+
     def check_unit_consistency(self) -> bool:
         # TODO
         return True
@@ -87,17 +94,23 @@ class TimeframeMixin:
         return dt
 
     def _get_timeframe_start_seconds(self, dt: "Arrow") -> "Arrow":
-        seconds_start = dt - timedelta(
-            seconds=dt.second % self.unit_quantity,
-            microseconds=dt.microsecond,
+        seconds_start = self._shift_elapsed(
+            dt,
+            -timedelta(
+                seconds=dt.second % self.unit_quantity,
+                microseconds=dt.microsecond,
+            ),
         )
         return seconds_start
 
     def _get_timeframe_start_minutes(self, dt: "Arrow") -> "Arrow":
-        minutes_start = dt - timedelta(
-            minutes=dt.minute % self.unit_quantity,
-            seconds=dt.second,
-            microseconds=dt.microsecond,
+        minutes_start = self._shift_elapsed(
+            dt,
+            -timedelta(
+                minutes=dt.minute % self.unit_quantity,
+                seconds=dt.second,
+                microseconds=dt.microsecond,
+            ),
         )
         return minutes_start
 
-- 
2.43.0


From fd1a650ee12a0851cae52b66ecb816118dc148dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:15 +0000
Subject: [PATCH 20/37] fix: heikin ashi open survives the eviction of previous
 frames

---
 estrade/graph/indicators/candle_set.py | 40 +++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/estrade/graph/indicators/candle_set.py b/estrade/graph/indicators/candle_set.py
index 3495e5c..b2a6cec 100644
--- a/estrade/graph/indicators/candle_set.py
+++ b/estrade/graph/indicators/candle_set.py
@@ -1,10 +1,13 @@
 import logging
-from typing import Optional
+from typing import Optional, TYPE_CHECKING
 
 from estrade.enums import CandleColor, CandleType
 from estrade.graph.base_indicator import BaseIndicator, BaseIndicatorValue
 
 
+if TYPE_CHECKING:  # pragma: no cover
+    from estrade.graph.frame_set import Frame
+
 logger = logging.getLogger(__name__)
 
 
@@ -223,6 +226,8 @@ class HeikinAshiCandle(BaseCandle):
         frame (estrade.graph.frame_set.Frame): Parent frame.
     """
 
+    _open: Optional[float] = None
+
     @property
     def open(self) -> float:
         """
@@ -233,9 +238,15 @@ class HeikinAshiCandle(BaseCandle):
             this function returns the mean between the previous candle open and
             last value.
         """
-        if not self.previous:
-            return round(self.first_tick.value, 2)
-        return round((self.previous.open + self.previous.last) / 2, 2)  # type: ignore
+        # calculated once: it depends on a frame which does not stay in memory
+        if self._open is None:
+            if not self.previous:
+                self._open = round(self.first_tick.value, 2)
+            else:
+                self._open = round(
+                    (self.previous.open + self.previous.last) / 2, 2  # type: ignore
+                )
+        return self._open
 
     @property
     def high(self) -> float:
@@ -320,3 +331,24 @@ class CandleSet(BaseIndicator):
             JapaneseCandle if candle_type == CandleType.CLASSIC else HeikinAshiCandle
         )
         BaseIndicator.__init__(self, value_class=value_class, **kwargs)
+
+    def build_value_from_frame(
+        self, frame: "Frame", epic_market_open: bool
+    ) -> Optional[BaseIndicatorValue]:
+        """
+        Create a new candle (see `BaseIndicator.build_value_from_frame`).
+
+        A Heikin Ashi candle open is set when the candle is created, while the candle
+        it depends on is still in memory.
+
+        Arguments:
+            frame: The newly created frame.
+            epic_market_open: is the epic open?
+
+        Returns:
+            A new candle (`None` Market is not open).
+        """
+        candle = BaseIndicator.build_value_from_frame(self, frame, epic_market_open)
+        if isinstance(candle, HeikinAshiCandle):
+            candle.open
+        return candle
-- 
2.43.0


From c99902fd5cef7fe801dca1297ff40dbee405c86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:22 +0000
Subject: [PATCH 21/37] fix: a pause ends at an instant, whatever the DST
 changes

---
 estrade/strategy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estrade/strategy.py b/estrade/strategy.py
index 66cc04d..b862e55 100644
--- a/estrade/strategy.py
+++ b/estrade/strategy.py
@@ -62,7 +62,7 @@ class BaseStrategy(RefMixin):
     def _is_paused(self, new_tick_date: "Arrow") -> bool:
         if not self.paused_until:
             return False
-        is_still_paused = new_tick_date < self.paused_until
+        is_still_paused = new_tick_date.to("UTC") < self.paused_until
         if not is_still_paused:
             self.paused_until = None
         return is_still_paused
-- 
2.43.0


From 366014be776132a7774fcf021e127df9d4021451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:39 +0000
Subject: [PATCH 22/37] fix: select trades after an instant, whatever the DST
 changes

---
 estrade/strategy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estrade/strategy.py b/estrade/strategy.py
index b862e55..e8f7894 100644
--- a/estrade/strategy.py
+++ b/estrade/strategy.py
@@ -128,7 +128,7 @@ class BaseStrategy(RefMixin):
             if (epics is None or trade.epic in epics) and (
                 open_only is False or trade.closed is False
             ):
-                if only_after is not None and trade.datetime < only_after:
+                if only_after is not None and trade.datetime.to("UTC") < only_after:
                     break
                 yield trade
 
-- 
2.43.0


From 69e4150d4ba7de9b95f4d67a5584eb15bdde8e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 23/37] fix: an epic without trade days never opens

---
 estrade/epic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estrade/epic.py b/estrade/epic.py
index 312b067..867d8af 100644
--- a/estrade/epic.py
+++ b/estrade/epic.py
@@ -79,7 +79,7 @@ class Epic(RefMixin):
         self.timezone: str = timezone
         self.open_time = open_time
         self.close_time = close_time
-        self.trade_days = trade_days or [0, 1, 2, 3, 4]
+        self.trade_days = [0, 1, 2, 3, 4] if trade_days is None else trade_days
         self.holidays = holidays or []
         self.trade_provider = trade_provider or TradeProviderBacktests()
 
-- 
2.43.0


From 5ebbf9ae98277e3ef6e7fca6e73e8ab683049126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 24/37] fix: frames stay contiguous when a DST change skips
 their start

---
 estrade/graph/frame_set.py  |  3 ++-
 estrade/mixins/timeframe.py | 17 +++++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/estrade/graph/frame_set.py b/estrade/graph/frame_set.py
index 3338ca8..4b9da62 100644
--- a/estrade/graph/frame_set.py
+++ b/estrade/graph/frame_set.py
@@ -222,12 +222,13 @@ class FrameSet(TimeframeMixin, RefMixin):
     def _create_new_frame_timed(self, tick: "Tick") -> None:
         period_start = self.get_frame_start(tick.datetime)
         period_end = self.get_frame_end(period_start)
+        period_start = self.resolve_skipped(period_start)
         if self.current:
             while period_start.to("UTC") > self.current.period_end.to("UTC"):
                 self.create_new_frame(
                     self.current.last_tick,
                     self.current.period_end,
-                    self.get_frame_end(self.current.period_end),
+                    self.get_frame_end(self.get_frame_start(self.current.period_end)),
                 )
 
         self.create_new_frame(tick, period_start, period_end)
diff --git a/estrade/mixins/timeframe.py b/estrade/mixins/timeframe.py
index 35cb877..0279a07 100644
--- a/estrade/mixins/timeframe.py
+++ b/estrade/mixins/timeframe.py
@@ -1,6 +1,8 @@
 from datetime import timedelta
 from typing import Callable, TYPE_CHECKING
 
+from dateutil import tz
+
 from estrade.enums import Unit
 from estrade.exceptions import TimeFrameException
 
@@ -82,6 +84,21 @@ class TimeframeMixin:
         frame_end = frame_start.shift(**self._timedelta)
         return frame_end
 
+    @staticmethod
+    def resolve_skipped(dt: "Arrow") -> "Arrow":
+        """
+        Get the end of the DST change which skips the input datetime.
+
+        Arguments:
+            dt: datetime which may not exist in its timezone.
+
+        Returns:
+            The input datetime, moved to the end of the DST change if it is skipped.
+        """
+        if tz.datetime_exists(dt.datetime):
+            return dt
+        return dt.shift()
+
     @staticmethod
     def _shift_elapsed(dt: "Arrow", delta: timedelta) -> "Arrow":
         return (dt.to("UTC") + delta).to(dt.tzinfo)
-- 
2.43.0


From cad4b5748aab3d716f4bab00cc6df55573df9e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:12 +0000
Subject: [PATCH 25/37] fix: keep the instant of pytz datetimes in an hour
 repeated by a DST change

---
 estrade/mixins/timed.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/estrade/mixins/timed.py b/estrade/mixins/timed.py
index 281a8e0..d4b3cec 100644
--- a/estrade/mixins/timed.py
+++ b/estrade/mixins/timed.py
@@ -36,7 +36,11 @@ class TimedMixin:
             )
         # convert to arrow.Arrow
         if isinstance(dt, pydatetime):
+            offset = dt.utcoffset()
             dt = arrow.get(dt)
+            if dt.utcoffset() != offset:
+                # pytz: the second pass of an hour repeated by a DST change
+                dt = dt.replace(fold=1)
 
         self._datetime = dt
 
-- 
2.43.0


From 67bf28fca74a0e2c35bc488512414a5671ba084b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:33 +0000
Subject: [PATCH 26/37] fix: write the header of a report file started without
 trades

---
 estrade/reporting/csv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/estrade/reporting/csv.py b/estrade/reporting/csv.py
index d9aa42a..5ac19d0 100644
--- a/estrade/reporting/csv.py
+++ b/estrade/reporting/csv.py
@@ -21,7 +21,7 @@ class CSVWriter:
 
         file_path = f"{path}/{filename}"
         file_exists = True
-        if not os.path.isfile(file_path):
+        if not os.path.isfile(file_path) or not os.path.getsize(file_path):
             open_mode = "w+"
             file_exists = False
 
@@ -32,7 +32,7 @@ class CSVWriter:
         file_exists, f = CSVWriter.open_file(path, filename)
         with f:
             writer = csv.DictWriter(f, fieldnames=headers)
-            if not file_exists:
+            if headers and not file_exists:
                 writer.writeheader()
             for d in dict_list:
                 writer.writerow(d)
-- 
2.43.0


From 1823e36b6e19d0fa3a565fa7ebc34a0d310c32a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 27/37] fix: strategies can register strategies while they are
 called

---
 estrade/epic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/estrade/epic.py b/estrade/epic.py
index 867d8af..04efed4 100644
--- a/estrade/epic.py
+++ b/estrade/epic.py
@@ -213,7 +213,8 @@ class Epic(RefMixin):
                 trade.update_from_tick(new_tick)
 
     def _execute_strategies(self, market_open_before_new_tick: bool) -> None:
-        for _, strategy in self.strategies.items():
+        # a strategy may register other strategies, they are called from the next tick
+        for strategy in list(self.strategies.values()):
             if strategy.is_active(self.last_tick.datetime):
                 if market_open_before_new_tick != self.market_open:
                     if market_open_before_new_tick is True:
-- 
2.43.0


From 4bb591ef02079daca9250b1d6f0a4cab48a8bab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:35 +0000
Subject: [PATCH 28/37] fix: month and year frames start at the first pass of a
 repeated midnight

---
 estrade/mixins/timeframe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/estrade/mixins/timeframe.py b/estrade/mixins/timeframe.py
index 0279a07..f3c44f7 100644
--- a/estrade/mixins/timeframe.py
+++ b/estrade/mixins/timeframe.py
@@ -173,6 +173,7 @@ class TimeframeMixin:
             minute=0,
             second=0,
             microsecond=0,
+            fold=0,
         )
         return month_start
 
@@ -190,5 +191,6 @@ class TimeframeMixin:
             minute=0,
             second=0,
             microsecond=0,
+            fold=0,
         )
         return year_start
-- 
2.43.0


From 3ed50cca9b33e8be91d664421600d0a220207e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:35 +0000
Subject: [PATCH 29/37] fix: frames are contiguous when the offset changes by a
 part of a frame

---
 estrade/graph/frame_set.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/estrade/graph/frame_set.py b/estrade/graph/frame_set.py
index 4b9da62..0a831cf 100644
--- a/estrade/graph/frame_set.py
+++ b/estrade/graph/frame_set.py
@@ -1,5 +1,5 @@
 import logging
-from typing import Dict, List, Optional, TYPE_CHECKING
+from typing import Dict, List, Optional, Tuple, TYPE_CHECKING
 
 from estrade.enums import Unit
 from estrade.mixins import RefMixin, TimeframeMixin
@@ -219,17 +219,25 @@ class FrameSet(TimeframeMixin, RefMixin):
         self.frames.append(new_frame)
         self.clean_old_frames()
 
+    def _get_next_period(self, tick: "Tick") -> Tuple["Arrow", "Arrow"]:
+        # each frame starts at the end of the previous one, even if the offset of the
+        # timezone changes by a part of a frame
+        period_start = self.current.period_end.to(tick.datetime.tzinfo)  # type: ignore
+        return period_start, self.get_frame_end(self.get_frame_start(period_start))
+
     def _create_new_frame_timed(self, tick: "Tick") -> None:
         period_start = self.get_frame_start(tick.datetime)
         period_end = self.get_frame_end(period_start)
         period_start = self.resolve_skipped(period_start)
         if self.current:
-            while period_start.to("UTC") > self.current.period_end.to("UTC"):
+            period_start, period_end = self._get_next_period(tick)
+            while tick.datetime_utc >= period_end.to("UTC"):
                 self.create_new_frame(
                     self.current.last_tick,
-                    self.current.period_end,
-                    self.get_frame_end(self.get_frame_start(self.current.period_end)),
+                    period_start,
+                    period_end,
                 )
+                period_start, period_end = self._get_next_period(tick)
 
         self.create_new_frame(tick, period_start, period_end)
 
-- 
2.43.0


From c9db2daac8ee094274c3df55b45ca253daa82de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:12 +0000
Subject: [PATCH 30/37] fix: orders given the same meta data do not share what
 is added to it later

---
 estrade/mixins/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estrade/mixins/meta.py b/estrade/mixins/meta.py
index a8462bf..aaa7b33 100644
--- a/estrade/mixins/meta.py
+++ b/estrade/mixins/meta.py
@@ -3,4 +3,4 @@ from typing import Any, Dict, Optional
 
 class MetaMixin:
     def __init__(self, meta: Optional[Dict[Any, Any]] = None) -> None:
-        self.meta = meta or {}
+        self.meta = dict(meta) if meta else {}
-- 
2.43.0


From e11915d0ffa8d47c419cf8f165f0b26fd1cc082a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:56 +0000
Subject: [PATCH 31/37] fix: strategies and providers which define a length are
 not ignored while it is 0

---
 estrade/epic.py           | 8 +++++---
 estrade/trade.py          | 2 +-
 estrade/trade_provider.py | 2 +-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/estrade/epic.py b/estrade/epic.py
index 04efed4..99dd90b 100644
--- a/estrade/epic.py
+++ b/estrade/epic.py
@@ -81,7 +81,9 @@ class Epic(RefMixin):
         self.close_time = close_time
         self.trade_days = [0, 1, 2, 3, 4] if trade_days is None else trade_days
         self.holidays = holidays or []
-        self.trade_provider = trade_provider or TradeProviderBacktests()
+        self.trade_provider = (
+            TradeProviderBacktests() if trade_provider is None else trade_provider
+        )
 
         # create a fake tick to init last_tick attribute
         self.last_tick: Tick = Tick(
@@ -132,7 +134,7 @@ class Epic(RefMixin):
             raise EpicException(f"Invalid timezone : {timezone}")
 
     def add_frame_set(self, frame_set: "FrameSet") -> None:
-        if self.frame_sets.get(frame_set.ref):
+        if frame_set.ref in self.frame_sets:
             raise EpicException(
                 f"Cannot add 2 FrameSet with the same ref ({frame_set.ref}) to epic."
             )
@@ -141,7 +143,7 @@ class Epic(RefMixin):
         self.frame_sets[frame_set.ref] = frame_set
 
     def add_strategy(self, strategy: "BaseStrategy") -> None:
-        if self.strategies.get(strategy.ref):
+        if strategy.ref in self.strategies:
             raise EpicException(
                 f"Cannot add 2 Strategies with the same ref ({strategy.ref}) to epic."
             )
diff --git a/estrade/trade.py b/estrade/trade.py
index 9a03416..b4201d1 100644
--- a/estrade/trade.py
+++ b/estrade/trade.py
@@ -97,7 +97,7 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
             "ref": self.ref,
             "status": self.status,
             "epic": self.epic.ref,
-            "strategy": self.strategy.ref if self.strategy else "undefined",
+            "strategy": "undefined" if self.strategy is None else self.strategy.ref,
             "open_date": self.datetime.format("YYYY-MM-DD HH:mm:ss"),
             "direction": self.direction,
             "open_quantity": self.open_quantity,
diff --git a/estrade/trade_provider.py b/estrade/trade_provider.py
index 02f4288..bfbb408 100644
--- a/estrade/trade_provider.py
+++ b/estrade/trade_provider.py
@@ -71,7 +71,7 @@ class BaseTradeProvider(RefMixin):
             trade: New trade to create.
         """
         self.trades.append(trade)
-        if trade.strategy:
+        if trade.strategy is not None:
             trade.strategy.trades.append(trade)
 
         thr = threading.Thread(
-- 
2.43.0


From 3152e21b52479392841e58f0198414f61b0d2e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:21 +0000
Subject: [PATCH 32/37] fix: values of user defined indicators which are false
 are not created again at each tick

---
 estrade/graph/frame_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estrade/graph/frame_set.py b/estrade/graph/frame_set.py
index 0a831cf..fbb61d4 100644
--- a/estrade/graph/frame_set.py
+++ b/estrade/graph/frame_set.py
@@ -95,7 +95,7 @@ class Frame:
         market_open = self.parent_frameset.epic_market_open
         for indicator_ref, indicator in self.parent_frameset.indicators.items():
             current_indicator_value = self.indicators.get(indicator_ref, None)
-            if current_indicator_value:
+            if current_indicator_value is not None:
                 current_indicator_value.on_new_tick(tick, market_open)
             else:
                 self._create_new_indicator_value(indicator, market_open)
-- 
2.43.0


From 630289514770c1e8c034d4a9a70f558b0f2778ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:31 +0000
Subject: [PATCH 33/37] fix: reports are written in UTF-8 whatever the locale

---
 estrade/reporting/csv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/estrade/reporting/csv.py b/estrade/reporting/csv.py
index 5ac19d0..a1dd8cc 100644
--- a/estrade/reporting/csv.py
+++ b/estrade/reporting/csv.py
@@ -25,7 +25,9 @@ class CSVWriter:
             open_mode = "w+"
             file_exists = False
 
-        return file_exists, open(file_path, open_mode, newline="")
+        return file_exists, open(
+            file_path, open_mode, newline="", encoding="utf-8"
+        )
 
     @staticmethod
     def dict_to_csv(path, filename, dict_list, headers):
-- 
2.43.0


From af93643a92ea380bb1a89b3e2397d78e3f8bbb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:30 +0000
Subject: [PATCH 34/37] fix: strategies whose reference contains a path
 separator can be reported

---
 estrade/reporting/csv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/estrade/reporting/csv.py b/estrade/reporting/csv.py
index a1dd8cc..14d5305 100644
--- a/estrade/reporting/csv.py
+++ b/estrade/reporting/csv.py
@@ -83,7 +83,9 @@ class ReportingCSV:
                 }
             )
             if trade_details:
-                target_filename = f"{dt}_{strategy.ref}_trades.csv"
+                # a reference may contain a path separator
+                file_ref = strategy.ref.replace("/", "_").replace(os.sep, "_")
+                target_filename = f"{dt}_{file_ref}_trades.csv"
                 trades = []
                 headers: List[str] = []
                 for trade in strategy_trades:
-- 
2.43.0


From f870f89aac69df0071458424183a396a03d5c1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:00 +0000
Subject: [PATCH 35/37] fix: a frame set which refuses an indicator leaves it
 as it was

---
 estrade/graph/indicators/rsi.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/estrade/graph/indicators/rsi.py b/estrade/graph/indicators/rsi.py
index 76b5018..58af69e 100644
--- a/estrade/graph/indicators/rsi.py
+++ b/estrade/graph/indicators/rsi.py
@@ -131,9 +131,10 @@ class RSI(BaseIndicator):
         self.rsi_periods: Optional[int] = None
 
     def set_frame_set(self, frame_set: "FrameSet") -> None:
-        super(RSI, self).set_frame_set(frame_set)
-        self.rsi_periods = self.periods * frame_set.unit_quantity
-        if self.rsi_periods > frame_set.max_frames_in_memory:
+        rsi_periods = self.periods * frame_set.unit_quantity
+        if rsi_periods > frame_set.max_frames_in_memory:
             raise BaseIndicatorException(
                 "Not enough frames kept in memory to calculate RSI"
             )
+        super(RSI, self).set_frame_set(frame_set)
+        self.rsi_periods = rsi_periods
-- 
2.43.0


From 1a5e00c9c42b2cf9b5fe932f46abb9a39f02e2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:28 +0000
Subject: [PATCH 36/37] fix: pivot levels stay when the frame they are read
 from is dropped

---
 estrade/graph/indicators/pivot.py | 106 ++++++++++++++----------------
 1 file changed, 50 insertions(+), 56 deletions(-)

diff --git a/estrade/graph/indicators/pivot.py b/estrade/graph/indicators/pivot.py
index 2db0b1a..fa74eb8 100644
--- a/estrade/graph/indicators/pivot.py
+++ b/estrade/graph/indicators/pivot.py
@@ -1,4 +1,4 @@
-from typing import Dict, Optional, Type
+from typing import Dict, Optional, Tuple, Type
 
 from estrade.enums import PivotType as PivotTypeEnum
 from estrade.graph.base_indicator import BaseIndicator, BaseIndicatorValue
@@ -87,6 +87,23 @@ class PivotTypeClassic(BasePivotType):
         frame (estrade.graph.frame_set.Frame): Parent frame.
     """
 
+    _period_values: Optional[Tuple[float, float, float]] = None
+
+    def __init__(self, *args, **kwargs) -> None:
+        """Create a new value (see `BaseIndicatorValue`)."""
+        BasePivotType.__init__(self, *args, **kwargs)
+        self._get_period_values()
+
+    def _get_period_values(self) -> Optional[Tuple[float, float, float]]:
+        # read once: the period it depends on does not stay in memory
+        if self._period_values is None and self.previous:
+            self._period_values = (
+                self.previous.high_tick.value,
+                self.previous.low_tick.value,
+                self.previous.last_tick.value,
+            )
+        return self._period_values
+
     @property
     def pivot(self) -> Optional[float]:
         """
@@ -95,16 +112,10 @@ class PivotTypeClassic(BasePivotType):
         Returns:
             pivot value (high + low + close) / 3.
         """
-        if self.previous:
-            pivot = round(
-                (
-                    self.previous.high_tick.value
-                    + self.previous.low_tick.value
-                    + self.previous.last_tick.value
-                )
-                / 3,
-                2,
-            )
+        period_values = self._get_period_values()
+        if period_values:
+            high, low, last = period_values
+            pivot = round((high + low + last) / 3, 2)
             return pivot
         return None
 
@@ -117,8 +128,10 @@ class PivotTypeClassic(BasePivotType):
             Support 1 value (pivot * 2 - high).
         """
         pivot = self.pivot
-        if pivot is not None:
-            return round((pivot * 2) - self.previous.high_tick.value, 2)  # type: ignore
+        period_values = self._get_period_values()
+        if pivot is not None and period_values:
+            high, low, _ = period_values
+            return round((pivot * 2) - high, 2)
         return None
 
     @property
@@ -130,15 +143,10 @@ class PivotTypeClassic(BasePivotType):
             Support 2 value (pivot - (high - low)).
         """
         pivot = self.pivot
-        if pivot is not None:
-            return round(
-                pivot
-                - (
-                    self.previous.high_tick.value  # type: ignore
-                    - self.previous.low_tick.value  # type: ignore
-                ),
-                2,
-            )
+        period_values = self._get_period_values()
+        if pivot is not None and period_values:
+            high, low, _ = period_values
+            return round(pivot - (high - low), 2)
         return None
 
     @property
@@ -150,12 +158,10 @@ class PivotTypeClassic(BasePivotType):
             Support 3 value (low - (high - pivot) * 2).
         """
         pivot = self.pivot
-        if pivot is not None:
-            return round(
-                self.previous.low_tick.value  # type: ignore
-                - ((self.previous.high_tick.value - pivot) * 2),  # type: ignore
-                2,
-            )
+        period_values = self._get_period_values()
+        if pivot is not None and period_values:
+            high, low, _ = period_values
+            return round(low - ((high - pivot) * 2), 2)
         return None
 
     @property
@@ -167,8 +173,10 @@ class PivotTypeClassic(BasePivotType):
             Resistance 1 value (pivot * 2 - low).
         """
         pivot = self.pivot
-        if pivot is not None:
-            return round((pivot * 2) - self.previous.low_tick.value, 2)  # type: ignore
+        period_values = self._get_period_values()
+        if pivot is not None and period_values:
+            high, low, _ = period_values
+            return round((pivot * 2) - low, 2)
         return None
 
     @property
@@ -180,15 +188,10 @@ class PivotTypeClassic(BasePivotType):
             Resistance 2 value (pivot - (high - low)).
         """
         pivot = self.pivot
-        if pivot is not None:
-            return round(
-                pivot
-                + (
-                    self.previous.high_tick.value  # type: ignore
-                    - self.previous.low_tick.value  # type: ignore
-                ),
-                2,
-            )
+        period_values = self._get_period_values()
+        if pivot is not None and period_values:
+            high, low, _ = period_values
+            return round(pivot + (high - low), 2)
         return None
 
     @property
@@ -200,12 +203,10 @@ class PivotTypeClassic(BasePivotType):
             Resistance 3 value (high + (pivot - low) * 2).
         """
         pivot = self.pivot
-        if pivot is not None:
-            return round(
-                self.previous.high_tick.value  # type: ignore
-                + ((pivot - self.previous.low_tick.value) * 2),  # type: ignore
-                2,
-            )
+        period_values = self._get_period_values()
+        if pivot is not None and period_values:
+            high, low, _ = period_values
+            return round(high + ((pivot - low) * 2), 2)
         return None
 
 
@@ -226,17 +227,10 @@ class PivotTypeOLHC(PivotTypeClassic):
         Returns:
             pivot value (high + low + close + current open) / 4.
         """
-        if self.previous:
-            pivot = round(
-                (
-                    self.previous.high_tick.value
-                    + self.previous.low_tick.value
-                    + self.previous.last_tick.value
-                    + self.first_tick.value
-                )
-                / 4,
-                2,
-            )
+        period_values = self._get_period_values()
+        if period_values:
+            high, low, last = period_values
+            pivot = round((high + low + last + self.first_tick.value) / 4, 2)
             return pivot
         return None
 
-- 
2.43.0


From a39803f6547cd74185ffc0a2a5a484f4e6c0f7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:58 +0000
Subject: [PATCH 37/37] fix: the strength index stays when the previous frame
 is dropped

---
 estrade/graph/indicators/rsi.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/estrade/graph/indicators/rsi.py b/estrade/graph/indicators/rsi.py
index 58af69e..b7c8848 100644
--- a/estrade/graph/indicators/rsi.py
+++ b/estrade/graph/indicators/rsi.py
@@ -20,6 +20,8 @@ class RSIValue(BaseIndicatorValue):
         value (Optional[float]): value of the RSI
     """
 
+    _previous_close: Optional[float] = None
+
     def __init__(
         self,
         indicator: "RSI",
@@ -58,12 +60,13 @@ class RSIValue(BaseIndicatorValue):
 
     @property
     def extended_changes(self) -> List[float]:
-        if not self.frame.previous_frame:
+        if self.frame.previous_frame:
+            # kept: the previous frame does not stay in memory
+            self._previous_close = self.frame.previous_frame.last_tick.value
+        if self._previous_close is None:
             return []
 
-        current_change = (
-            self.frame.last_tick.value - self.frame.previous_frame.last_tick.value
-        )
+        current_change = self.frame.last_tick.value - self._previous_close
         extended_changes = self.last_changes + [current_change]
         return extended_changes
 
-- 
2.43.0

