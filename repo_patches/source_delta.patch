From 3edc41ec673b3d0065bff31836d3ee817b116612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 01/26] fix: terminate the evaluation of a single period
 without any OHLC ticks

---
 eval/eval.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eval/eval.cc b/eval/eval.cc
index e290f2e..9d31c74 100644
--- a/eval/eval.cc
+++ b/eval/eval.cc
@@ -164,6 +164,9 @@ EvaluationResult EvaluateTrader(const AccountConfig& account_config,
     const auto ohlc_history_subset = HistorySubset(
         ohlc_history, start_eval_timestamp_sec, end_eval_timestamp_sec);
     if (ohlc_history_subset.first == ohlc_history_subset.second) {
+      if (eval_config.evaluation_period_months() <= 0) {
+        break;
+      }
       continue;
     }
     std::unique_ptr<Trader> trader = trader_emitter.NewTrader();
@@ -178,7 +181,7 @@ EvaluationResult EvaluateTrader(const AccountConfig& account_config,
     period->set_final_gain(result.end_value() / result.start_value());
     assert(result.start_price() > 0 && result.end_price() > 0);
     period->set_base_final_gain(result.end_price() / result.start_price());
-    if (eval_config.evaluation_period_months() == 0) {
+    if (eval_config.evaluation_period_months() <= 0) {
       break;
     }
   }
-- 
2.43.0


From 54e936a4cabd312f30b9bcebf99d83a258a76f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 02/26] fix: return an empty history subset for an inverted
 time interval

---
 base/base.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/base.h b/base/base.h
index ae54983..7f7a302 100644
--- a/base/base.h
+++ b/base/base.h
@@ -65,7 +65,8 @@ HistorySubset(const std::vector<T>& history, int64_t start_timestamp_sec,
           ? std::lower_bound(history.begin(), history.end(), end_timestamp_sec,
                              record_compare)
           : history.end();
-  return {record_begin, record_end};
+  // The subset is empty if the time interval is empty (or inverted).
+  return {record_begin, std::max(record_begin, record_end)};
 }
 
 // Returns the subset of the given history covering the time interval
-- 
2.43.0


From e56cd9cdcacf1b0e56a187418ed94cafb845cfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 03/26] fix: do not create side input from an empty selected
 side history

---
 trader.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trader.cc b/trader.cc
index e8675fb..20caad2 100644
--- a/trader.cc
+++ b/trader.cc
@@ -197,7 +197,10 @@ int main(int argc, char* argv[]) {
             absl::GetFlag(FLAGS_input_side_history_delimited_proto_file),
             start_time, end_time);
     CheckOk(side_history_status.status());
-    side_input = absl::make_unique<SideInput>(side_history_status.value());
+    // SideInput expects non-empty side history.
+    if (!side_history_status.value().empty()) {
+      side_input = absl::make_unique<SideInput>(side_history_status.value());
+    }
   }
 
   const absl::Time latency_start_time = absl::Now();
-- 
2.43.0


From 55de66e3641602efb971ac9f417751880e5b07e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 04/26] fix: never return more than top_n price history gaps

---
 base/history.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/history.cc b/base/history.cc
index 562ed20..9747fe9 100644
--- a/base/history.cc
+++ b/base/history.cc
@@ -32,6 +32,9 @@ std::vector<HistoryGap> GetPriceHistoryGaps(PriceHistory::const_iterator begin,
   std::vector<HistoryGap> history_gaps;
   if (start_timestamp_sec > 0) {
     gap_queue.push(HistoryGap{start_timestamp_sec, begin->timestamp_sec()});
+    if (gap_queue.size() > top_n) {
+      gap_queue.pop();
+    }
   }
   auto it_prev = end;
   for (auto it = begin; it != end; ++it) {
-- 
2.43.0


From 42fe9548e803febe30e69f3c277826a7b6652cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 05/26] fix: do not execute orders for zero base amount when
 base_unit is not used

---
 base/account.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/base/account.cc b/base/account.cc
index f74272b..cd56b82 100644
--- a/base/account.cc
+++ b/base/account.cc
@@ -79,7 +79,7 @@ bool Account::BuyBase(const FeeConfig& fee_config, float base_amount,
   assert(price > 0);
   assert(base_amount >= 0);
   base_amount = Round(base_amount, base_unit);
-  if (base_amount < base_unit) {
+  if (base_amount <= 0 || base_amount < base_unit) {
     return false;
   }
   const float quote_amount = Ceil(base_amount * price, quote_unit);
@@ -119,7 +119,8 @@ bool Account::SellBase(const FeeConfig& fee_config, float base_amount,
   assert(price > 0);
   assert(base_amount >= 0);
   base_amount = Round(base_amount, base_unit);
-  if (base_amount < base_unit || base_amount > base_balance) {
+  if (base_amount <= 0 || base_amount < base_unit ||
+      base_amount > base_balance) {
     return false;
   }
   const float quote_amount = Floor(base_amount * price, quote_unit);
-- 
2.43.0


From b2381a30a4e8c682768c0052499e14fee49fb22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 06/26] fix: avoid rounding error drift in the simple moving
 average

---
 indicators/simple_moving_average.cc | 6 ++++--
 indicators/simple_moving_average.h  | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/indicators/simple_moving_average.cc b/indicators/simple_moving_average.cc
index ec5ebb8..a480457 100644
--- a/indicators/simple_moving_average.cc
+++ b/indicators/simple_moving_average.cc
@@ -9,7 +9,8 @@ SimpleMovingAverage::SimpleMovingAverage(int num_ohlc_ticks,
     : last_n_ohlc_ticks_(num_ohlc_ticks, period_size_sec) {
   last_n_ohlc_ticks_.RegisterLastTickUpdatedCallback(
       [this](const OhlcTick& old_ohlc_tick, const OhlcTick& new_ohlc_tick) {
-        sum_close_price_ += new_ohlc_tick.close() - old_ohlc_tick.close();
+        sum_close_price_ += new_ohlc_tick.close();
+        sum_close_price_ -= old_ohlc_tick.close();
       });
   last_n_ohlc_ticks_.RegisterNewTickAddedCallback(
       [this](const OhlcTick& new_ohlc_tick) {
@@ -17,7 +18,8 @@ SimpleMovingAverage::SimpleMovingAverage(int num_ohlc_ticks,
       });
   last_n_ohlc_ticks_.RegisterNewTickAddedAndOldestTickRemovedCallback(
       [this](const OhlcTick& removed_ohlc_tick, const OhlcTick& new_ohlc_tick) {
-        sum_close_price_ += new_ohlc_tick.close() - removed_ohlc_tick.close();
+        sum_close_price_ += new_ohlc_tick.close();
+        sum_close_price_ -= removed_ohlc_tick.close();
       });
 }
 
diff --git a/indicators/simple_moving_average.h b/indicators/simple_moving_average.h
index f32b18f..6ec93be 100644
--- a/indicators/simple_moving_average.h
+++ b/indicators/simple_moving_average.h
@@ -40,7 +40,8 @@ class SimpleMovingAverage {
   LastNOhlcTicks last_n_ohlc_ticks_;
 
   // Sum of the closing prices over the last N OHLC ticks (in the deque).
-  float sum_close_price_ = 0;
+  // Note: Using double to avoid accumulating rounding errors.
+  double sum_close_price_ = 0;
 };
 
 }  // namespace trader
-- 
2.43.0


From c89509f991e580fa1a3f17e45c319dbc9421b040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 07/26] fix: never return negative sliding window variance

---
 indicators/util.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/indicators/util.cc b/indicators/util.cc
index 0da1c03..402890b 100644
--- a/indicators/util.cc
+++ b/indicators/util.cc
@@ -17,8 +17,10 @@ float SlidingWindowMeanAndVariance::GetVariance() const {
   }
   const int window_size = GetWindowSize();
   const float mean = (current_value_ + window_sum_) / window_size;
-  return (std::pow(current_value_, 2) + window_sum_2_) / window_size -
-         std::pow(mean, 2);
+  // Note: Variance could become (slightly) negative due to rounding errors.
+  return std::max(0.0, (std::pow(current_value_, 2) + window_sum_2_) /
+                               window_size -
+                           std::pow(mean, 2));
 }
 
 float SlidingWindowMeanAndVariance::GetStandardDeviation() const {
-- 
2.43.0


From 74178d7600b48c222bc737a5a76a83d3867313ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 08/26] fix: report CSV lines that cannot be parsed instead of
 repeating the previous record

---
 convert.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/convert.cc b/convert.cc
index fd6d36b..39b46fb 100644
--- a/convert.cc
+++ b/convert.cc
@@ -81,7 +81,11 @@ absl::StatusOr<PriceHistory> ReadPriceHistoryFromCsvFile(
   PriceHistory price_history;
   while (std::getline(infile, line)) {
     ++row;
-    std::sscanf(line.c_str(), "%lld,%f,%f", &timestamp_sec, &price, &volume);
+    if (std::sscanf(line.c_str(), "%lld,%f,%f", &timestamp_sec, &price,
+                    &volume) != 3) {
+      return absl::InvalidArgumentError(
+          absl::StrFormat("Cannot parse the line %d: %s", row, line));
+    }
     if (start_timestamp_sec > 0 && timestamp_sec < start_timestamp_sec) {
       continue;
     }
@@ -137,8 +141,12 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromCsvFile(
   OhlcHistory ohlc_history;
   while (std::getline(infile, line)) {
     ++row;
-    std::sscanf(line.c_str(), "%lld,%f,%f,%f,%f,%f",  // nowrap
-                &timestamp_sec, &open, &high, &low, &close, &volume);
+    if (std::sscanf(line.c_str(), "%lld,%f,%f,%f,%f,%f",  // nowrap
+                    &timestamp_sec, &open, &high, &low, &close,
+                    &volume) != 6) {
+      return absl::InvalidArgumentError(
+          absl::StrFormat("Cannot parse the line %d: %s", row, line));
+    }
     if (start_timestamp_sec > 0 && timestamp_sec < start_timestamp_sec) {
       continue;
     }
-- 
2.43.0


From 3079a11b60dbf721d35a3386724294286742a24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 09/26] fix: reject prices and volumes that are not finite
 numbers

---
 convert.cc | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/convert.cc b/convert.cc
index 39b46fb..4461250 100644
--- a/convert.cc
+++ b/convert.cc
@@ -96,11 +96,11 @@ absl::StatusOr<PriceHistory> ReadPriceHistoryFromCsvFile(
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid timestamp on the line %d: %s", row, line));
     }
-    if (price <= 0) {
+    if (!std::isfinite(price) || price <= 0) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid price on the line %d: %s", row, line));
     }
-    if (volume < 0) {
+    if (!std::isfinite(volume) || volume < 0) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid volume on the line %d: %s", row, line));
     }
@@ -157,12 +157,14 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromCsvFile(
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid timestamp on the line %d: %s", row, line));
     }
-    if (open <= 0 || high <= 0 || low <= 0 || close <= 0 || low > open ||
+    if (!std::isfinite(open) || !std::isfinite(high) || !std::isfinite(low) ||
+        !std::isfinite(close) ||  // nowrap
+        open <= 0 || high <= 0 || low <= 0 || close <= 0 || low > open ||
         low > high || low > close || high < open || high < close) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid OHLC prices on the line %d: %s", row, line));
     }
-    if (volume < 0) {
+    if (!std::isfinite(volume) || volume < 0) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid volume on the line %d: %s", row, line));
     }
@@ -297,10 +299,11 @@ absl::StatusOr<PriceHistory> ReadPriceHistoryFromDelimitedProtoFile(
       file_name, start_time, end_time,
       /*validate=*/
       [](const PriceRecord& price_record) -> absl::Status {
-        if (price_record.price() <= 0) {
+        if (!std::isfinite(price_record.price()) || price_record.price() <= 0) {
           return absl::InvalidArgumentError("Invalid price");
         }
-        if (price_record.volume() < 0) {
+        if (!std::isfinite(price_record.volume()) ||
+            price_record.volume() < 0) {
           return absl::InvalidArgumentError("Invalid volume");
         }
         return absl::OkStatus();
@@ -315,7 +318,11 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromDelimitedProtoFile(
       file_name, start_time, end_time,
       /*validate=*/
       [](const OhlcTick& ohlc_tick) -> absl::Status {
-        if (ohlc_tick.open() <= 0 || ohlc_tick.high() <= 0 ||
+        if (!std::isfinite(ohlc_tick.open()) ||
+            !std::isfinite(ohlc_tick.high()) ||
+            !std::isfinite(ohlc_tick.low()) ||
+            !std::isfinite(ohlc_tick.close()) ||  // nowrap
+            ohlc_tick.open() <= 0 || ohlc_tick.high() <= 0 ||
             ohlc_tick.low() <= 0 || ohlc_tick.close() <= 0 ||
             ohlc_tick.low() > ohlc_tick.open() ||
             ohlc_tick.low() > ohlc_tick.high() ||
@@ -324,7 +331,7 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromDelimitedProtoFile(
             ohlc_tick.high() < ohlc_tick.close()) {
           return absl::InvalidArgumentError("Invalid OHLC prices");
         }
-        if (ohlc_tick.volume() < 0) {
+        if (!std::isfinite(ohlc_tick.volume()) || ohlc_tick.volume() < 0) {
           return absl::InvalidArgumentError("Invalid volume");
         }
         return absl::OkStatus();
-- 
2.43.0


From 82e83037dab13b6997b9a11202dd21bb01a4f464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 10/26] fix: report failed writes of delimited messages

---
 util/proto.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/util/proto.h b/util/proto.h
index 5b7ebeb..88c2fc4 100644
--- a/util/proto.h
+++ b/util/proto.h
@@ -140,7 +140,14 @@ absl::Status WriteDelimitedMessagesToFile(InputIterator first,
     return absl::InvalidArgumentError(
         absl::StrFormat("Cannot open the input file: %s", file_name));
   }
-  return WriteDelimitedMessagesToOStream(first, last, out_fstream, compress);
+  const absl::Status status =
+      WriteDelimitedMessagesToOStream(first, last, out_fstream, compress);
+  out_fstream.close();
+  if (status.ok() && !out_fstream) {
+    return absl::DataLossError(
+        absl::StrFormat("Cannot write the output file: %s", file_name));
+  }
+  return status;
 }
 
 }  // namespace trader
-- 
2.43.0


From a9d1c29b946ab5e03ba0951b6a8eb54bd34dd116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 11/26] fix: report corrupted compressed streams

---
 util/proto.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/proto.h b/util/proto.h
index 88c2fc4..3244402 100644
--- a/util/proto.h
+++ b/util/proto.h
@@ -46,6 +46,12 @@ absl::Status ReadDelimitedMessagesFromIStream(
         &message, &gzip_stream, &clean_eof);
     if (!parsed) {
       if (clean_eof) {
+#ifdef HAVE_ZLIB
+        if (gzip_stream.ZlibErrorCode() < 0 &&
+            gzip_stream.ZlibErrorCode() != Z_BUF_ERROR) {
+          return absl::DataLossError("Cannot decompress the input stream");
+        }
+#endif
         return absl::OkStatus();
       }
       return absl::InvalidArgumentError("Cannot parse the input stream");
-- 
2.43.0


From 9639560bcf4808a9d1d6328f7b95918b0e3049e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 12/26] fix: reject sampling rate that is not positive

---
 convert.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/convert.cc b/convert.cc
index 4461250..9ac36f6 100644
--- a/convert.cc
+++ b/convert.cc
@@ -458,6 +458,11 @@ int main(int argc, char* argv[]) {
     std::exit(EXIT_FAILURE);
   }
 
+  if (absl::GetFlag(FLAGS_sampling_rate_sec) <= 0) {
+    LogError("Sampling rate must be positive");
+    std::exit(EXIT_FAILURE);
+  }
+
   if (!absl::GetFlag(FLAGS_input_ohlc_history_csv_file).empty() &&
       !absl::GetFlag(FLAGS_input_ohlc_history_delimited_proto_file).empty()) {
     LogError("Cannot have two input OHLC history files");
-- 
2.43.0


From 592e349db757a151d31cf2bce2571e0331c826a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 13/26] fix: place rebalancing limit orders where the
 allocation reaches the bounds

---
 traders/rebalancing_trader.cc    | 6 ++++--
 traders/rebalancing_trader.ipynb | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/traders/rebalancing_trader.cc b/traders/rebalancing_trader.cc
index 017692b..892e6ca 100644
--- a/traders/rebalancing_trader.cc
+++ b/traders/rebalancing_trader.cc
@@ -41,7 +41,8 @@ void RebalancingTrader::Update(const OhlcTick& ohlc_tick,
   } else if (base_balance > 1.0e-6f && quote_balance > 1.0e-6f) {
     if (alpha * (1 + epsilon) < 1) {
       const float sell_price =
-          (alpha * (1 + epsilon) * quote_balance) / (1 - alpha * (1 + epsilon));
+          (alpha * (1 + epsilon) * quote_balance) /
+          ((1 - alpha * (1 + epsilon)) * base_balance);
       if (sell_price > price && sell_price < 100.0f * price) {
         const float sell_base_amount = base_balance * epsilon / (1 + epsilon);
         orders.emplace_back();
@@ -53,7 +54,8 @@ void RebalancingTrader::Update(const OhlcTick& ohlc_tick,
       }
     }
     const float buy_price =
-        (alpha * (1 - epsilon) * quote_balance) / (1 - alpha * (1 - epsilon));
+        (alpha * (1 - epsilon) * quote_balance) /
+        ((1 - alpha * (1 - epsilon)) * base_balance);
     if (buy_price < price && buy_price > price / 100.0f) {
       const float buy_base_amount = base_balance * epsilon / (1 - epsilon);
       orders.emplace_back();
diff --git a/traders/rebalancing_trader.ipynb b/traders/rebalancing_trader.ipynb
index f1a755a..d9b26b2 100644
--- a/traders/rebalancing_trader.ipynb
+++ b/traders/rebalancing_trader.ipynb
@@ -27,9 +27,9 @@
     "\n",
     "Note, however, that as long as $\\beta(p) \\in I$ we do not need to do anything. Moreover, we do not need to wait until $\\beta(p)$ reaches one of the borders of the interval $I$. We can do better and set up (static) limit orders that will take care of the rebalancing. (These have usually lower fees than market orders.) Let's assume that both $b > 0$ and $q > 0$ (otherwise $\\beta(p)$ would be a constant and we would have to fall back to the market orders.)\n",
     "\n",
-    "If $\\alpha * (1 + \\epsilon) < 1$ then we might ask at what price $p_+$ will $\\beta(p_+)$ reach the upper bound $\\alpha * (1 + \\epsilon)$ of the interval $I$? By solving the equation $\\beta(p_+) = \\alpha * (1 + \\epsilon)$ we get $p_+ = [\\alpha * (1 + \\epsilon) * q] / [1 - \\alpha * (1 + \\epsilon)]$. Now that we know the price $p_+$ we need to figure out what amount $a \\le b$ of the base (crypto)currency we need to sell (at the price $p_+$) in order to restore the $\\alpha$-allocation. By solving the equation $[(b - a) * p_+] / [b * p_+ + q] = \\alpha$ we get $a = b * \\epsilon / (1 + \\epsilon)$. This fully specifies all parameters of the limit sell order (independent of price $p$).\n",
+    "If $\\alpha * (1 + \\epsilon) < 1$ then we might ask at what price $p_+$ will $\\beta(p_+)$ reach the upper bound $\\alpha * (1 + \\epsilon)$ of the interval $I$? By solving the equation $\\beta(p_+) = \\alpha * (1 + \\epsilon)$ we get $p_+ = [\\alpha * (1 + \\epsilon) * q] / [(1 - \\alpha * (1 + \\epsilon)) * b]$. Now that we know the price $p_+$ we need to figure out what amount $a \\le b$ of the base (crypto)currency we need to sell (at the price $p_+$) in order to restore the $\\alpha$-allocation. By solving the equation $[(b - a) * p_+] / [b * p_+ + q] = \\alpha$ we get $a = b * \\epsilon / (1 + \\epsilon)$. This fully specifies all parameters of the limit sell order (independent of price $p$).\n",
     "\n",
-    "Similarly, we might ask at what price $p_-$ will $\\beta(p_-)$ reach the lower bound $\\alpha * (1 - \\epsilon)$ of the interval $I$? By solving the equation $\\beta(p_-) = \\alpha * (1 - \\epsilon)$ we get $p_- = [\\alpha * (1 - \\epsilon) * q] / [1 - \\alpha * (1 - \\epsilon)]$. Now that we know the price $p_-$ we need to figure out what amount $a > 0$ of the base (crypto)currency we need to buy (at the price $p_-$) in order to restore the $\\alpha$-allocation. By solving the equation $[(b + a) * p_-] / [b * p_- + q] = \\alpha$ we get $a = b * \\epsilon / (1 - \\epsilon)$. Again, this fully specifies all parameters of the limit buy order (independent of price $p$)."
+    "Similarly, we might ask at what price $p_-$ will $\\beta(p_-)$ reach the lower bound $\\alpha * (1 - \\epsilon)$ of the interval $I$? By solving the equation $\\beta(p_-) = \\alpha * (1 - \\epsilon)$ we get $p_- = [\\alpha * (1 - \\epsilon) * q] / [(1 - \\alpha * (1 - \\epsilon)) * b]$. Now that we know the price $p_-$ we need to figure out what amount $a > 0$ of the base (crypto)currency we need to buy (at the price $p_-$) in order to restore the $\\alpha$-allocation. By solving the equation $[(b + a) * p_-] / [b * p_- + q] = \\alpha$ we get $a = b * \\epsilon / (1 - \\epsilon)$. Again, this fully specifies all parameters of the limit buy order (independent of price $p$)."
    ]
   },
   {
-- 
2.43.0


From 4ecb42bd7af32a3f6e7ccdf0af323524bebf4f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 14/26] fix: report input streams that cannot be read

---
 util/proto.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/proto.h b/util/proto.h
index 3244402..c349804 100644
--- a/util/proto.h
+++ b/util/proto.h
@@ -46,6 +46,9 @@ absl::Status ReadDelimitedMessagesFromIStream(
         &message, &gzip_stream, &clean_eof);
     if (!parsed) {
       if (clean_eof) {
+        if (stream.bad()) {
+          return absl::DataLossError("Cannot read the input stream");
+        }
 #ifdef HAVE_ZLIB
         if (gzip_stream.ZlibErrorCode() < 0 &&
             gzip_stream.ZlibErrorCode() != Z_BUF_ERROR) {
-- 
2.43.0


From 1499a421721f41d5431063772562d298f75b5ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 15/26] fix: report CSV files that cannot be read

---
 convert.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/convert.cc b/convert.cc
index 9ac36f6..ff9343e 100644
--- a/convert.cc
+++ b/convert.cc
@@ -110,6 +110,10 @@ absl::StatusOr<PriceHistory> ReadPriceHistoryFromCsvFile(
     price_history.back().set_price(price);
     price_history.back().set_volume(volume);
   }
+  if (infile.bad()) {
+    return absl::DataLossError(
+        absl::StrFormat("Cannot read the file: %s", file_name));
+  }
   LogInfo(
       absl::StrFormat("Loaded %d records in %.3f seconds", price_history.size(),
                       absl::ToDoubleSeconds(absl::Now() - latency_start_time)));
@@ -177,6 +181,10 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromCsvFile(
     ohlc_history.back().set_close(close);
     ohlc_history.back().set_volume(volume);
   }
+  if (infile.bad()) {
+    return absl::DataLossError(
+        absl::StrFormat("Cannot read the file: %s", file_name));
+  }
   LogInfo(absl::StrFormat(
       "Loaded %d OHLC ticks in %.3f seconds", ohlc_history.size(),
       absl::ToDoubleSeconds(absl::Now() - latency_start_time)));
@@ -235,6 +243,10 @@ absl::StatusOr<SideHistory> ReadSideHistoryFromCsvFile(
           "Invalid number of signals on the line %d: %s", row, line));
     }
   }
+  if (infile.bad()) {
+    return absl::DataLossError(
+        absl::StrFormat("Cannot read the file: %s", file_name));
+  }
   LogInfo(
       absl::StrFormat("Loaded %d records in %.3f seconds", side_history.size(),
                       absl::ToDoubleSeconds(absl::Now() - latency_start_time)));
-- 
2.43.0


From e3b35b2c978b1e7f67e4b00963ce4bccb0cc8625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:15 +0000
Subject: [PATCH 16/26] fix: report side input fields that cannot be parsed

---
 convert.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/convert.cc b/convert.cc
index ff9343e..8777526 100644
--- a/convert.cc
+++ b/convert.cc
@@ -4,6 +4,7 @@
 #include "absl/flags/parse.h"
 #include "absl/status/status.h"
 #include "absl/status/statusor.h"
+#include "absl/strings/numbers.h"
 #include "absl/strings/str_format.h"
 #include "absl/time/time.h"
 #include "base/base.h"
@@ -215,7 +216,8 @@ absl::StatusOr<SideHistory> ReadSideHistoryFromCsvFile(
     ++row;
     std::replace(line.begin(), line.end(), ',', ' ');
     std::istringstream iss(line);
-    if (!(iss >> timestamp_sec)) {
+    std::string token;
+    if (!(iss >> token) || !absl::SimpleAtoi(token, &timestamp_sec)) {
       return absl::InvalidArgumentError(absl::StrFormat(
           "Cannot parse the timestamp on the line %d: %s", row, line));
     }
@@ -232,7 +234,11 @@ absl::StatusOr<SideHistory> ReadSideHistoryFromCsvFile(
     timestamp_sec_prev = timestamp_sec;
     side_history.emplace_back();
     side_history.back().set_timestamp_sec(timestamp_sec);
-    while (iss >> signal) {
+    while (iss >> token) {
+      if (!absl::SimpleAtof(token, &signal) || !std::isfinite(signal)) {
+        return absl::InvalidArgumentError(absl::StrFormat(
+            "Cannot parse the signal on the line %d: %s", row, line));
+      }
       side_history.back().add_signal(signal);
     }
     if (num_signals == 0) {
-- 
2.43.0


From 0c7fa410280a420c0af4d758e19a5d03f717a701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:35 +0000
Subject: [PATCH 17/26] fix: report CSV numbers followed by other characters

---
 convert.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/convert.cc b/convert.cc
index 8777526..f20eb79 100644
--- a/convert.cc
+++ b/convert.cc
@@ -4,6 +4,7 @@
 #include "absl/flags/parse.h"
 #include "absl/status/status.h"
 #include "absl/status/statusor.h"
+#include "absl/strings/ascii.h"
 #include "absl/strings/numbers.h"
 #include "absl/strings/str_format.h"
 #include "absl/time/time.h"
@@ -82,8 +83,10 @@ absl::StatusOr<PriceHistory> ReadPriceHistoryFromCsvFile(
   PriceHistory price_history;
   while (std::getline(infile, line)) {
     ++row;
-    if (std::sscanf(line.c_str(), "%lld,%f,%f", &timestamp_sec, &price,
-                    &volume) != 3) {
+    char separator = ',';  // Possible further columns are ignored.
+    if (std::sscanf(line.c_str(), "%lld,%f,%f%c", &timestamp_sec, &price,
+                    &volume, &separator) < 3 ||
+        (separator != ',' && !absl::ascii_isspace(separator))) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Cannot parse the line %d: %s", row, line));
     }
@@ -146,9 +149,11 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromCsvFile(
   OhlcHistory ohlc_history;
   while (std::getline(infile, line)) {
     ++row;
-    if (std::sscanf(line.c_str(), "%lld,%f,%f,%f,%f,%f",  // nowrap
-                    &timestamp_sec, &open, &high, &low, &close,
-                    &volume) != 6) {
+    char separator = ',';  // Possible further columns are ignored.
+    if (std::sscanf(line.c_str(), "%lld,%f,%f,%f,%f,%f%c",  // nowrap
+                    &timestamp_sec, &open, &high, &low, &close, &volume,
+                    &separator) < 6 ||
+        (separator != ',' && !absl::ascii_isspace(separator))) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Cannot parse the line %d: %s", row, line));
     }
-- 
2.43.0


From ce906f0e3627547b37439a33aea5be0aa9578c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:01 +0000
Subject: [PATCH 18/26] fix: report overlong message sizes in record files

---
 util/proto.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/proto.h b/util/proto.h
index c349804..4323224 100644
--- a/util/proto.h
+++ b/util/proto.h
@@ -55,6 +55,12 @@ absl::Status ReadDelimitedMessagesFromIStream(
           return absl::DataLossError("Cannot decompress the input stream");
         }
 #endif
+        const void* data = nullptr;
+        int size = 0;
+        if (gzip_stream.Next(&data, &size)) {
+          // An overlong message size is reported as the end of the stream.
+          return absl::InvalidArgumentError("Cannot parse the input stream");
+        }
         return absl::OkStatus();
       }
       return absl::InvalidArgumentError("Cannot parse the input stream");
-- 
2.43.0


From 171763a95f50d7e7742bc16af7da6a758072215b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:10 +0000
Subject: [PATCH 19/26] fix: report log files that cannot be written

---
 trader.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/trader.cc b/trader.cc
index 20caad2..6585be2 100644
--- a/trader.cc
+++ b/trader.cc
@@ -120,6 +120,19 @@ absl::StatusOr<std::unique_ptr<std::ofstream>> OpenLogFile(
   return log_stream;
 }
 
+// Closes the log file and checks that everything has been written.
+absl::Status CloseLogFile(std::ofstream* log_stream,
+                          const std::string& log_filename) {
+  if (log_stream != nullptr) {
+    log_stream->close();
+    if (!*log_stream) {
+      return absl::DataLossError(
+          absl::StrFormat("Cannot write the file: %s", log_filename));
+    }
+  }
+  return absl::OkStatus();
+}
+
 void PrintBatchEvalResults(const std::vector<EvaluationResult>& eval_results,
                            size_t top_n) {
   const size_t eval_count = std::min(top_n, eval_results.size());
@@ -233,6 +246,10 @@ int main(int argc, char* argv[]) {
     EvaluationResult eval_result =
         EvaluateTrader(account_config, eval_config, ohlc_history,
                        side_input.get(), *trader_emitter, &logger);
+    CheckOk(CloseLogFile(exchange_log_stream_status.value().get(),
+                         absl::GetFlag(FLAGS_output_exchange_log_file)));
+    CheckOk(CloseLogFile(trader_log_stream_status.value().get(),
+                         absl::GetFlag(FLAGS_output_trader_log_file)));
     PrintTraderEvalResult(eval_result);
   }
   LogInfo(
-- 
2.43.0


From 5c4fff07194d4801c9a81ecf3e7cef149cc8ff62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:34 +0000
Subject: [PATCH 20/26] fix: compute RSI and stochastic oscillator of
 low-priced assets

Both fell back to the neutral value 50 when all price changes were below
an absolute 0.000001, although the prices themselves may be that small.
---
 indicators/relative_strength_index.cc | 2 +-
 indicators/stochastic_oscillator.cc   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/relative_strength_index.cc b/indicators/relative_strength_index.cc
index fad978a..56091dd 100644
--- a/indicators/relative_strength_index.cc
+++ b/indicators/relative_strength_index.cc
@@ -43,7 +43,7 @@ float RelativeStrengthIndex::GetRelativeStrengthIndex() const {
       upward_change_mma_.GetExponentialMovingAverage();
   const float downward_change_mma =
       downward_change_mma_.GetExponentialMovingAverage();
-  if (upward_change_mma < 1.0e-6f && downward_change_mma < 1.0e-6f) {
+  if (upward_change_mma <= 0 && downward_change_mma <= 0) {
     return 50.0f;
   }
   if (downward_change_mma < upward_change_mma * 1.0e-6f) {
diff --git a/indicators/stochastic_oscillator.cc b/indicators/stochastic_oscillator.cc
index 3471456..a2eaf6d 100644
--- a/indicators/stochastic_oscillator.cc
+++ b/indicators/stochastic_oscillator.cc
@@ -74,7 +74,7 @@ void StochasticOscillator::UpdateK(const float latest_price) {
   const float price_min = GetLow();
   const float price_max = GetHigh();
   const float price_span = price_max - price_min;
-  if (price_span < 1.0e-6f) {
+  if (price_span <= 0) {
     latest_k_ = 50;
     return;
   }
-- 
2.43.0


From a92d34cb151afd23c4d2eb7b1bb358b06eba5e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:57 +0000
Subject: [PATCH 21/26] fix: compute the score of evaluations with many periods

---
 eval/eval.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/eval/eval.cc b/eval/eval.cc
index 9d31c74..fc41c06 100644
--- a/eval/eval.cc
+++ b/eval/eval.cc
@@ -26,12 +26,14 @@ float GetGeometricAverage(const C& container, F selector) {
   if (container.empty()) {
     return 0;
   }
-  double mul = 1;
+  // Note: The product could overflow or underflow over many elements.
+  double log_sum = 0;
   for (const auto& element : container) {
-    mul *= selector(element);
+    const double value = selector(element);
+    assert(value >= 0);
+    log_sum += std::log(value);
   }
-  assert(mul >= 0);
-  return static_cast<float>(std::pow(mul, 1.0 / container.size()));
+  return static_cast<float>(std::exp(log_sum / container.size()));
 }
 }  // namespace
 
-- 
2.43.0


From 07ebdf006fae4fa4bde98e2a0457f93c032dbd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:36 +0000
Subject: [PATCH 22/26] fix: skip evaluation windows that end before 1970

---
 eval/eval.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eval/eval.cc b/eval/eval.cc
index fc41c06..f5c2a66 100644
--- a/eval/eval.cc
+++ b/eval/eval.cc
@@ -163,6 +163,11 @@ EvaluationResult EvaluateTrader(const AccountConfig& account_config,
     if (end_eval_timestamp_sec > eval_config.end_timestamp_sec()) {
       break;
     }
+    if (eval_config.evaluation_period_months() > 0 &&
+        end_eval_timestamp_sec <= 0) {
+      // HistorySubset would treat a non-positive end as no bound at all.
+      continue;
+    }
     const auto ohlc_history_subset = HistorySubset(
         ohlc_history, start_eval_timestamp_sec, end_eval_timestamp_sec);
     if (ohlc_history_subset.first == ohlc_history_subset.second) {
-- 
2.43.0


From f7e55dda1a3d9cc1f2bccba6366fc690198a9781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:49 +0000
Subject: [PATCH 23/26] fix: report right contexts of any size in the outlier
 report

---
 base/history.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/base/history.cc b/base/history.cc
index 9747fe9..d3fd748 100644
--- a/base/history.cc
+++ b/base/history.cc
@@ -132,7 +132,11 @@ std::map<size_t, bool> GetOutlierIndicesWithContext(
   for (size_t i = start_i; i < outlier_indices.size(); ++i) {
     const size_t j = outlier_indices[i];
     const size_t a = (j <= left_context_size) ? 0 : j - left_context_size;
-    const size_t b = std::min(j + right_context_size + 1, price_history_size);
+    // Note: j + right_context_size could overflow.
+    const size_t b =
+        (right_context_size < price_history_size)
+            ? std::min(j + right_context_size + 1, price_history_size)
+            : price_history_size;
     for (size_t k = a; k < b; ++k) {
       // Keep the existing outliers.
       index_to_outlier[k] |= false;
-- 
2.43.0


From 61e5d80169e368d632f5042291af694c865acbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:34 +0000
Subject: [PATCH 24/26] fix: report compressed streams that need a dictionary

---
 util/proto.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/proto.h b/util/proto.h
index 4323224..c2dffa3 100644
--- a/util/proto.h
+++ b/util/proto.h
@@ -50,7 +50,8 @@ absl::Status ReadDelimitedMessagesFromIStream(
           return absl::DataLossError("Cannot read the input stream");
         }
 #ifdef HAVE_ZLIB
-        if (gzip_stream.ZlibErrorCode() < 0 &&
+        if (gzip_stream.ZlibErrorCode() != Z_OK &&
+            gzip_stream.ZlibErrorCode() != Z_STREAM_END &&
             gzip_stream.ZlibErrorCode() != Z_BUF_ERROR) {
           return absl::DataLossError("Cannot decompress the input stream");
         }
-- 
2.43.0


From b983ab9c47871c84c258f96daed9a5568df877c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:08 +0000
Subject: [PATCH 25/26] fix: report compressed streams without an end

---
 util/proto.h | 59 +++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 51 insertions(+), 8 deletions(-)

diff --git a/util/proto.h b/util/proto.h
index c2dffa3..bc9db3c 100644
--- a/util/proto.h
+++ b/util/proto.h
@@ -28,6 +28,51 @@ namespace trader {
 enum class ReaderSignal { kContinue, kBreak };
 using ReaderStatus = absl::StatusOr<ReaderSignal>;
 
+#ifdef HAVE_ZLIB
+// Input stream that decompresses "in_stream" and knows whether the compressed
+// stream was complete. (GzipInputStream reports the end of its input in the same
+// way as the end of the compressed stream.)
+class CompleteGzipInputStream
+    : public google::protobuf::io::ZeroCopyInputStream {
+ public:
+  explicit CompleteGzipInputStream(
+      google::protobuf::io::ZeroCopyInputStream* in_stream)
+      : gzip_stream_(in_stream) {}
+
+  // Returns true if everything was read up to the end of the compressed stream.
+  // An empty input is complete as well.
+  bool IsComplete() const {
+    return at_stream_end_ && gzip_stream_.ZlibErrorCode() == Z_STREAM_END;
+  }
+
+  bool Next(const void** data, int* size) override {
+    if (!gzip_stream_.Next(data, size)) {
+      return false;
+    }
+    at_stream_end_ = gzip_stream_.ZlibErrorCode() == Z_STREAM_END;
+    return true;
+  }
+  void BackUp(int count) override { gzip_stream_.BackUp(count); }
+  bool Skip(int count) override {
+    const void* data = nullptr;
+    int size = 0;
+    while (count > 0 && Next(&data, &size)) {
+      if (size > count) {
+        BackUp(size - count);
+        return true;
+      }
+      count -= size;
+    }
+    return count == 0;
+  }
+  int64_t ByteCount() const override { return gzip_stream_.ByteCount(); }
+
+ private:
+  google::protobuf::io::GzipInputStream gzip_stream_;
+  bool at_stream_end_ = true;
+};
+#endif
+
 // Reads delimited messages from the (compressed) input stream and applies the
 // function "reader" on them.
 template <typename T>
@@ -35,7 +80,7 @@ absl::Status ReadDelimitedMessagesFromIStream(
     std::istream& stream, std::function<ReaderStatus(const T&)> reader) {
   google::protobuf::io::IstreamInputStream in_stream(&stream);
 #ifdef HAVE_ZLIB
-  google::protobuf::io::GzipInputStream gzip_stream(&in_stream);
+  CompleteGzipInputStream gzip_stream(&in_stream);
 #else
   google::protobuf::io::ZeroCopyInputStream& gzip_stream = in_stream;
 #endif
@@ -49,19 +94,17 @@ absl::Status ReadDelimitedMessagesFromIStream(
         if (stream.bad()) {
           return absl::DataLossError("Cannot read the input stream");
         }
-#ifdef HAVE_ZLIB
-        if (gzip_stream.ZlibErrorCode() != Z_OK &&
-            gzip_stream.ZlibErrorCode() != Z_STREAM_END &&
-            gzip_stream.ZlibErrorCode() != Z_BUF_ERROR) {
-          return absl::DataLossError("Cannot decompress the input stream");
-        }
-#endif
         const void* data = nullptr;
         int size = 0;
         if (gzip_stream.Next(&data, &size)) {
           // An overlong message size is reported as the end of the stream.
           return absl::InvalidArgumentError("Cannot parse the input stream");
         }
+#ifdef HAVE_ZLIB
+        if (!gzip_stream.IsComplete()) {
+          return absl::DataLossError("Cannot decompress the input stream");
+        }
+#endif
         return absl::OkStatus();
       }
       return absl::InvalidArgumentError("Cannot parse the input stream");
-- 
2.43.0


From abb2cad7b704fc76a4b0e27e10257cd376cf78fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:26 +0000
Subject: [PATCH 26/26] fix: reject side input lines with missing values

---
 convert.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/convert.cc b/convert.cc
index f20eb79..0924320 100644
--- a/convert.cc
+++ b/convert.cc
@@ -7,6 +7,7 @@
 #include "absl/strings/ascii.h"
 #include "absl/strings/numbers.h"
 #include "absl/strings/str_format.h"
+#include "absl/strings/str_split.h"
 #include "absl/time/time.h"
 #include "base/base.h"
 #include "base/history.h"
@@ -219,6 +220,12 @@ absl::StatusOr<SideHistory> ReadSideHistoryFromCsvFile(
   SideHistory side_history;
   while (std::getline(infile, line)) {
     ++row;
+    bool has_empty_field = false;
+    for (const absl::string_view field : absl::StrSplit(line, ',')) {
+      if (absl::StripAsciiWhitespace(field).empty()) {
+        has_empty_field = true;
+      }
+    }
     std::replace(line.begin(), line.end(), ',', ' ');
     std::istringstream iss(line);
     std::string token;
@@ -236,6 +243,10 @@ absl::StatusOr<SideHistory> ReadSideHistoryFromCsvFile(
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid timestamp on the line %d: %s", row, line));
     }
+    if (has_empty_field) {
+      return absl::InvalidArgumentError(
+          absl::StrFormat("Missing value on the line %d: %s", row, line));
+    }
     timestamp_sec_prev = timestamp_sec;
     side_history.emplace_back();
     side_history.back().set_timestamp_sec(timestamp_sec);
-- 
2.43.0

