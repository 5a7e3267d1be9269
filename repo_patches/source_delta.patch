From d93582417cb6b8f74067a6f3b221b90e0f9b6f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:28 +0000
Subject: [PATCH 1/7] fix: DATEDIFF in calendar units of sub-second timestamps
 compared a shifted end date

DateDiffHighPrecision moved the end date by one second to account for the
sub-second parts before counting calendar units.  When that second crossed a
month boundary the day of the month changed with it, e.g. the number of months
from 2022-01-31 00:00:00.001 to 2022-03-01 00:00:00.000 came out as 0, although
it is 1 from both 2022-01-31 00:00:00.000 and 2022-01-31 00:00:01.000.  Compare
the sub-second part as the last field of the calendar time instead.
---
 omniscidb/QueryEngine/DateTruncate.cpp | 48 ++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/omniscidb/QueryEngine/DateTruncate.cpp b/omniscidb/QueryEngine/DateTruncate.cpp
index 53b571c..f7136a9 100644
--- a/omniscidb/QueryEngine/DateTruncate.cpp
+++ b/omniscidb/QueryEngine/DateTruncate.cpp
@@ -400,8 +400,9 @@ struct EraTime {
   int const moy;  // month-of-year (March = 0)
   int const dom;  // day-of-month
   int const sod;  // second-of-day
+  int const nos;  // nanosecond-of-second
 
-  DEVICE static EraTime make(int64_t const time) {
+  DEVICE static EraTime make(int64_t const time, int const nos = 0) {
     int64_t const day = floor_div(time, kSecsPerDay);
     int64_t const era = floor_div(day - kEpochAdjustedDays, kDaysPer400Years);
     int const sod = time - day * kSecsPerDay;
@@ -410,16 +411,21 @@ struct EraTime {
     int const doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
     int const moy = (5 * doy + 2) / 153;
     int const dom = doy - (153 * moy + 2) / 5;
-    return {era, yoe, moy, dom, sod};
+    return {era, yoe, moy, dom, sod, nos};
   }
 
-  DEVICE EraTime operator-() const { return {-era, -yoe, -moy, -dom, -sod}; }
+  DEVICE EraTime operator-() const { return {-era, -yoe, -moy, -dom, -sod, -nos}; }
 
   DEVICE EraTime operator-(EraTime const& rhs) {
-    return {era - rhs.era, yoe - rhs.yoe, moy - rhs.moy, dom - rhs.dom, sod - rhs.sod};
+    return {era - rhs.era,
+            yoe - rhs.yoe,
+            moy - rhs.moy,
+            dom - rhs.dom,
+            sod - rhs.sod,
+            nos - rhs.nos};
   }
 
-  enum Field { ERA, YOE, MOY, DOM, SOD };
+  enum Field { ERA, YOE, MOY, DOM, SOD, NOS };
   // Sign of EraTime starting at field.
   DEVICE int sign(Field const field) const {
     switch (field) {
@@ -443,6 +449,10 @@ struct EraTime {
         if (sod != 0) {
           return sod < 0 ? -1 : 1;
         }
+      case NOS:
+        if (nos != 0) {
+          return nos < 0 ? -1 : 1;
+        }
       default:
         return 0;
     }
@@ -484,6 +494,21 @@ struct EraTime {
   }
 };
 
+// Units of varying length, which EraTime::count() counts.
+DEVICE bool is_calendar_unit(hdk::ir::DateTruncField const field) {
+  switch (field) {
+    case hdk::ir::DateTruncField::kMonth:
+    case hdk::ir::DateTruncField::kQuarter:
+    case hdk::ir::DateTruncField::kYear:
+    case hdk::ir::DateTruncField::kDecade:
+    case hdk::ir::DateTruncField::kCentury:
+    case hdk::ir::DateTruncField::kMillennium:
+      return true;
+    default:
+      return false;
+  }
+}
+
 }  // namespace
 
 extern "C" RUNTIME_EXPORT DEVICE int64_t DateDiff(const hdk::ir::DateTruncField datepart,
@@ -539,13 +564,22 @@ DateDiffHighPrecision(const hdk::ir::DateTruncField datepart,
     }
     default:
       int64_t const end_seconds = floor_div(enddate, pow10[end_dim]);
-      int delta_ns = (enddate - end_seconds * pow10[end_dim]) * pow10[9 - end_dim];
+      int const end_ns = (enddate - end_seconds * pow10[end_dim]) * pow10[9 - end_dim];
       int64_t const start_seconds = floor_div(startdate, pow10[start_dim]);
-      delta_ns -= (startdate - start_seconds * pow10[start_dim]) * pow10[9 - start_dim];
+      int const start_ns =
+          (startdate - start_seconds * pow10[start_dim]) * pow10[9 - start_dim];
+      int const delta_ns = end_ns - start_ns;
       int64_t const delta_s = end_seconds - start_seconds;
       // sub-second values must be accounted for when calling DateDiff. Examples:
       // 2000-02-15 12:00:00.006 to 2000-03-15 12:00:00.005 is 0 months.
       // 2000-02-15 12:00:00.006 to 2000-03-15 12:00:00.006 is 1 month.
+      // For calendar units, moving the end date by a second could move it to another month:
+      // 2000-01-31 00:00:00.006 to 2000-03-01 00:00:00.005 is 1 month.
+      if (is_calendar_unit(datepart)) {
+        return (EraTime::make(end_seconds, end_ns) -
+                EraTime::make(start_seconds, start_ns))
+            .count(datepart);
+      }
       int const adj_sec = 0 < delta_s && delta_ns < 0   ? -1
                           : delta_s < 0 && 0 < delta_ns ? 1
                                                         : 0;
-- 
2.43.0


From 925b7430176ba6cd8d79940b08e9d9da09302542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:11 +0000
Subject: [PATCH 2/7] fix: the range of a division by a range containing no
 zero could be computed for one that contains it

The product of the divisor range's ends overflows int64, so a divisor range such as [-2^62, 4] was taken not to contain zero.
---
 omniscidb/QueryEngine/ExpressionRange.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/ExpressionRange.cpp b/omniscidb/QueryEngine/ExpressionRange.cpp
index be38911..6326824 100644
--- a/omniscidb/QueryEngine/ExpressionRange.cpp
+++ b/omniscidb/QueryEngine/ExpressionRange.cpp
@@ -202,7 +202,7 @@ ExpressionRange ExpressionRange::div(const ExpressionRange& other,
       other.type_ != ExpressionRangeType::Integer) {
     return ExpressionRange::makeInvalidRange();
   }
-  if (other.int_min_ * other.int_max_ <= 0) {
+  if (other.int_min_ <= 0 && other.int_max_ >= 0) {
     // if the other interval contains 0, the rule is more complicated;
     // punt for now, we can revisit by splitting the other interval and
     // taking the convex hull of the resulting two intervals
-- 
2.43.0


From ef7204207217769cc502336729bd32202fde0e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:11 +0000
Subject: [PATCH 3/7] fix: ranges of EXTRACT did not enclose its values

MILLISECOND/MICROSECOND/NANOSECOND count from the start of the minute; EPOCH of a sub-second timestamp is in seconds; DATEEPOCH is the start of the day; the year of a negative sub-second timestamp is that of the floored second.
---
 omniscidb/QueryEngine/ExpressionRange.cpp | 35 ++++++++++++++++++-----
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/omniscidb/QueryEngine/ExpressionRange.cpp b/omniscidb/QueryEngine/ExpressionRange.cpp
index 6326824..1efe540 100644
--- a/omniscidb/QueryEngine/ExpressionRange.cpp
+++ b/omniscidb/QueryEngine/ExpressionRange.cpp
@@ -815,8 +815,9 @@ ExpressionRange getExpressionRange(
       CHECK(arg_range.getType() == ExpressionRangeType::Integer);
       const int64_t year_range_min =
           is_hpt
-              ? ExtractFromTime(hdk::ir::DateExtractField::kYear,
-                                arg_range.getIntMin() / hdk::ir::unitsPerSecond(unit))
+              ? ExtractFromTime(
+                    hdk::ir::DateExtractField::kYear,
+                    floor_div(arg_range.getIntMin(), hdk::ir::unitsPerSecond(unit)))
               : ExtractFromTime(hdk::ir::DateExtractField::kYear, arg_range.getIntMin());
       const int64_t year_range_max =
           is_hpt
@@ -827,8 +828,28 @@ ExpressionRange getExpressionRange(
           year_range_min, year_range_max, 0, arg_range.hasNulls());
     }
     case hdk::ir::DateExtractField::kEpoch:
-    case hdk::ir::DateExtractField::kDateEpoch:
-      return arg_range;
+    case hdk::ir::DateExtractField::kDateEpoch: {
+      if (arg_range.getType() == ExpressionRangeType::Invalid) {
+        return ExpressionRange::makeInvalidRange();
+      }
+      CHECK(arg_range.getType() == ExpressionRangeType::Integer);
+      const bool is_date_epoch = extract_field == hdk::ir::DateExtractField::kDateEpoch;
+      if (!is_hpt && !is_date_epoch) {
+        return arg_range;
+      }
+      const int64_t scale = is_hpt ? hdk::ir::unitsPerSecond(unit) : 1;
+      const int64_t min_epoch = floor_div(arg_range.getIntMin(), scale);
+      const int64_t max_epoch = arg_range.getIntMax() / scale;
+      if (!is_date_epoch) {
+        return ExpressionRange::makeIntRange(
+            min_epoch, max_epoch, 0, arg_range.hasNulls());
+      }
+      const auto day = hdk::ir::DateTruncField::kDay;
+      return ExpressionRange::makeIntRange(DateTruncate(day, min_epoch),
+                                           DateTruncate(day, max_epoch),
+                                           get_conservative_datetrunc_bucket(day),
+                                           arg_range.hasNulls());
+    }
     case hdk::ir::DateExtractField::kQuarterDay:
     case hdk::ir::DateExtractField::kQuarter:
       return ExpressionRange::makeIntRange(1, 4, 0, has_nulls);
@@ -843,11 +864,11 @@ ExpressionRange getExpressionRange(
     case hdk::ir::DateExtractField::kSecond:
       return ExpressionRange::makeIntRange(0, 60, 0, has_nulls);
     case hdk::ir::DateExtractField::kMilli:
-      return ExpressionRange::makeIntRange(0, 999, 0, has_nulls);
+      return ExpressionRange::makeIntRange(0, 59999, 0, has_nulls);
     case hdk::ir::DateExtractField::kMicro:
-      return ExpressionRange::makeIntRange(0, 999999, 0, has_nulls);
+      return ExpressionRange::makeIntRange(0, 59999999, 0, has_nulls);
     case hdk::ir::DateExtractField::kNano:
-      return ExpressionRange::makeIntRange(0, 999999999, 0, has_nulls);
+      return ExpressionRange::makeIntRange(0, 59999999999, 0, has_nulls);
     case hdk::ir::DateExtractField::kDayOfWeek:
       return ExpressionRange::makeIntRange(0, 6, 0, has_nulls);
     case hdk::ir::DateExtractField::kIsoDayOfWeek:
-- 
2.43.0


From deecbc7aaa3c01204ab704bd9a08886da3c6fe12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:11 +0000
Subject: [PATCH 4/7] fix: ranges of casts between timestamp units and to TIME
 did not enclose the values

The lower end of a narrowing cast is rounded down, an argument without a range no longer aborts, and a cast of a timestamp to TIME is a time of day.
---
 omniscidb/QueryEngine/ExpressionRange.cpp | 25 +++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/omniscidb/QueryEngine/ExpressionRange.cpp b/omniscidb/QueryEngine/ExpressionRange.cpp
index 1efe540..1949c37 100644
--- a/omniscidb/QueryEngine/ExpressionRange.cpp
+++ b/omniscidb/QueryEngine/ExpressionRange.cpp
@@ -646,14 +646,18 @@ ExpressionRange fpRangeFromDecimal(const ExpressionRange& arg_range,
 ExpressionRange getDateTimePrecisionCastRange(const ExpressionRange& arg_range,
                                               const hdk::ir::Type* oper_type,
                                               const hdk::ir::Type* target_type) {
+  if (arg_range.getType() != ExpressionRangeType::Integer) {
+    return ExpressionRange::makeInvalidRange();
+  }
   if (oper_type->isTimestamp() && target_type->isDate()) {
     const auto field = hdk::ir::DateTruncField::kDay;
     auto oper_unit = oper_type->as<hdk::ir::TimestampType>()->unit();
     bool is_hpt = oper_unit > hdk::ir::TimeUnit::kSecond;
     const int64_t scale =
         hdk::ir::unitsPerSecond(oper_type->as<hdk::ir::TimestampType>()->unit());
-    const int64_t min_ts = is_hpt ? DateTruncate(field, arg_range.getIntMin() / scale)
-                                  : DateTruncate(field, arg_range.getIntMin());
+    const int64_t min_ts = is_hpt
+                               ? DateTruncate(field, floor_div(arg_range.getIntMin(), scale))
+                               : DateTruncate(field, arg_range.getIntMin());
     const int64_t max_ts = is_hpt ? DateTruncate(field, arg_range.getIntMax() / scale)
                                   : DateTruncate(field, arg_range.getIntMax());
     const int64_t bucket = get_conservative_datetrunc_bucket(field);
@@ -670,8 +674,12 @@ ExpressionRange getDateTimePrecisionCastRange(const ExpressionRange& arg_range,
                          ? target_type->as<hdk::ir::TimestampType>()->unit()
                          : hdk::ir::TimeUnit::kSecond;
   CHECK(oper_unit != target_unit);
-  int64_t min_ts = DateTimeUtils::get_datetime_scaled_epoch(
-      arg_range.getIntMin(), oper_unit, target_unit);
+  int64_t min_ts = oper_unit > target_unit
+                       ? floor_div(arg_range.getIntMin(),
+                                   hdk::ir::unitsPerSecond(oper_unit) /
+                                       hdk::ir::unitsPerSecond(target_unit))
+                       : DateTimeUtils::get_datetime_scaled_epoch(
+                             arg_range.getIntMin(), oper_unit, target_unit);
   int64_t max_ts = DateTimeUtils::get_datetime_scaled_epoch(
       arg_range.getIntMax(), oper_unit, target_unit);
 
@@ -728,6 +736,15 @@ ExpressionRange getExpressionRange(
       (arg_type->isTimestamp() && type->isDate())) {
     return getDateTimePrecisionCastRange(arg_range, arg_type, type);
   }
+  if (arg_type->isTimestamp() && type->isTime()) {
+    const int64_t units_per_day =
+        24 * 3600 * hdk::ir::unitsPerSecond(type->as<hdk::ir::TimeType>()->unit());
+    return ExpressionRange::makeIntRange(
+        0,
+        units_per_day - 1,
+        0,
+        arg_range.getType() == ExpressionRangeType::Invalid || arg_range.hasNulls());
+  }
   switch (arg_range.getType()) {
     case ExpressionRangeType::Float:
     case ExpressionRangeType::Double: {
-- 
2.43.0


From 6186a14e327049030c26db5945b2d9bcf89ba393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:11 +0000
Subject: [PATCH 5/7] fix: ranges of casts to DECIMAL and of decimal division
 overflowed or scaled the wrong way

---
 omniscidb/QueryEngine/ExpressionRange.cpp | 31 ++++++++++-------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/omniscidb/QueryEngine/ExpressionRange.cpp b/omniscidb/QueryEngine/ExpressionRange.cpp
index 1949c37..23c2853 100644
--- a/omniscidb/QueryEngine/ExpressionRange.cpp
+++ b/omniscidb/QueryEngine/ExpressionRange.cpp
@@ -369,15 +369,6 @@ ExpressionRange getExpressionRange(
   return ExpressionRange::makeInvalidRange();
 }
 
-namespace {
-
-int64_t scale_up_interval_endpoint(const int64_t endpoint,
-                                   const hdk::ir::DecimalType* type) {
-  return endpoint * static_cast<int64_t>(exp_to_scale(type->scale()));
-}
-
-}  // namespace
-
 ExpressionRange getExpressionRange(
     const hdk::ir::BinOper* expr,
     const std::vector<InputTableInfo>& query_infos,
@@ -400,11 +391,9 @@ ExpressionRange getExpressionRange(
       if (lhs_type->isDecimal() && lhs.getType() != ExpressionRangeType::Invalid) {
         CHECK(lhs.getType() == ExpressionRangeType::Integer);
         auto dec_type = lhs_type->as<hdk::ir::DecimalType>();
-        const auto adjusted_lhs = ExpressionRange::makeIntRange(
-            scale_up_interval_endpoint(lhs.getIntMin(), dec_type),
-            scale_up_interval_endpoint(lhs.getIntMax(), dec_type),
-            0,
-            lhs.hasNulls());
+        const int64_t scale = exp_to_scale(dec_type->scale());
+        const auto adjusted_lhs =
+            lhs * ExpressionRange::makeIntRange(scale, scale, 0, false);
         return adjusted_lhs.div(rhs, null_div_by_zero);
       }
       return lhs.div(rhs, null_div_by_zero);
@@ -770,11 +759,17 @@ ExpressionRange getExpressionRange(
         auto type_scale = type->as<hdk::ir::DecimalType>()->scale();
         auto arg_scale =
             arg_type->isDecimal() ? arg_type->as<hdk::ir::DecimalType>()->scale() : 0;
+        if (type_scale < arg_scale) {
+          const int64_t scale = exp_to_scale(arg_scale - type_scale);
+          const int64_t scale_half = scale / 2;
+          return ExpressionRange::makeIntRange(
+              (arg_range.getIntMin() - scale_half) / scale,
+              (arg_range.getIntMax() + scale_half) / scale,
+              0,
+              arg_range.hasNulls());
+        }
         const int64_t scale = exp_to_scale(type_scale - arg_scale);
-        return ExpressionRange::makeIntRange(arg_range.getIntMin() * scale,
-                                             arg_range.getIntMax() * scale,
-                                             0,
-                                             arg_range.hasNulls());
+        return arg_range * ExpressionRange::makeIntRange(scale, scale, 0, false);
       }
       if (arg_type->isDecimal()) {
         CHECK_EQ(int64_t(0), arg_range.getBucket());
-- 
2.43.0


From d50c4568279345ec857815b5f66a3ac45c61dfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:11 +0000
Subject: [PATCH 6/7] fix: the range of a CASE kept a bucket its values are not
 aligned to

---
 omniscidb/QueryEngine/ExpressionRange.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/ExpressionRange.cpp b/omniscidb/QueryEngine/ExpressionRange.cpp
index 23c2853..5f61804 100644
--- a/omniscidb/QueryEngine/ExpressionRange.cpp
+++ b/omniscidb/QueryEngine/ExpressionRange.cpp
@@ -230,7 +230,12 @@ ExpressionRange ExpressionRange::operator||(const ExpressionRange& other) const
       result.has_nulls_ = has_nulls_ || other.has_nulls_;
       result.int_min_ = std::min(int_min_, other.int_min_);
       result.int_max_ = std::max(int_max_, other.int_max_);
-      result.bucket_ = std::min(bucket_, other.bucket_);
+      // The bucket only separates the values of the union if both intervals have the same
+      // one and it is aligned the same way.
+      result.bucket_ = bucket_ && bucket_ == other.bucket_ &&
+                               int_min_ % bucket_ == other.int_min_ % bucket_
+                           ? bucket_
+                           : 0;
       break;
     }
     case ExpressionRangeType::Float:
-- 
2.43.0


From 7605891210251222da928b5d525d294ec7399781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:11 +0000
Subject: [PATCH 7/7] fix: a qualifier comparing a column with a finer
 timestamp constant excluded a matching value

The constant was truncated toward zero and < kept strict although the constant is inexact.
---
 omniscidb/QueryEngine/ExpressionRange.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/omniscidb/QueryEngine/ExpressionRange.cpp b/omniscidb/QueryEngine/ExpressionRange.cpp
index 5f61804..0ca6508 100644
--- a/omniscidb/QueryEngine/ExpressionRange.cpp
+++ b/omniscidb/QueryEngine/ExpressionRange.cpp
@@ -134,8 +134,18 @@ void apply_hpt_qual(const Datum const_datum,
   auto col_unit = col_type->isTimestamp() ? col_type->as<hdk::ir::TimestampType>()->unit()
                                           : hdk::ir::TimeUnit::kSecond;
   Datum datum{0};
-  datum.bigintval = get_datetime_scaled_epoch(
-      extract_int_type_from_datum(const_datum, const_type), const_unit, col_unit);
+  const int64_t const_val = extract_int_type_from_datum(const_datum, const_type);
+  if (const_unit > col_unit) {
+    const int64_t scale =
+        hdk::ir::unitsPerSecond(const_unit) / hdk::ir::unitsPerSecond(col_unit);
+    datum.bigintval = floor_div(const_val, scale);
+    if (op_type == hdk::ir::OpType::kLt && datum.bigintval * scale != const_val) {
+      // the column value next below the constant is still less than it
+      op_type = hdk::ir::OpType::kLe;
+    }
+  } else {
+    datum.bigintval = get_datetime_scaled_epoch(const_val, const_unit, col_unit);
+  }
   apply_int_qual(datum, const_type, op_type, qual_range);
 }
 
-- 
2.43.0

