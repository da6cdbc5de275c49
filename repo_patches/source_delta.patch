From 411438676cad51b9d9dcef9318eac3aa8005c8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 01/79] fix: apply a single 30E/360 ISDA termination flag to
 every period instead of truncating the result to one period

---
 frm/utils/daycount.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frm/utils/daycount.py b/frm/utils/daycount.py
index b63cfaa..0f0c358 100644
--- a/frm/utils/daycount.py
+++ b/frm/utils/daycount.py
@@ -108,7 +108,8 @@ def day_count(start_date,
             N = len(end_dti)
             is_end_date_on_termination = [False if i < (N-1)  else True for i in range(N)]
         else:
-            is_end_date_on_termination = np.atleast_1d(is_end_date_on_termination)
+            # A single flag applies to every period
+            is_end_date_on_termination = np.broadcast_to(is_end_date_on_termination, len(end_dti))
 
         result = np.array([_apply_logic(start, end, flag) for start, end, flag in zip(start_dti, end_dti, is_end_date_on_termination)])               
     else:
-- 
2.43.0


From 4b2505397c15dc9ea809f9b5ea56327f570cb610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 02/79] fix: find holiday calendars whose key is mixed case
 (European_Central_Bank, ICE_Futures_Europe, New_York_Stock_Exchange)

---
 frm/utils/business_day_calendar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/frm/utils/business_day_calendar.py b/frm/utils/business_day_calendar.py
index 8f550fb..fd0d1d3 100644
--- a/frm/utils/business_day_calendar.py
+++ b/frm/utils/business_day_calendar.py
@@ -24,6 +24,10 @@ def get_holidays_object(key):
         return CCY_HOLIDAY[key]
     elif key in LOCALE_HOLIDAY.keys():
         return LOCALE_HOLIDAY[key]
+    # Some locale keys are mixed case (i.e. 'European_Central_Bank'), keys are matched irrespective of case
+    locale_keys = {k.upper(): k for k in LOCALE_HOLIDAY.keys()}
+    if key.upper() in locale_keys.keys():
+        return LOCALE_HOLIDAY[locale_keys[key.upper()]]
     else:
         raise ValueError(f"Holidays not setup for {key}")
 
-- 
2.43.0


From 0a3f6963bf845a82abdf7a97309e8dd9b76b556f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 03/79] fix: imply business day offsets forwards from the curve
 date, honour a given spot offset, and call the consistency check with its own
 argument name

---
 frm/utils/tenor.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/frm/utils/tenor.py b/frm/utils/tenor.py
index 368d590..4662a4e 100644
--- a/frm/utils/tenor.py
+++ b/frm/utils/tenor.py
@@ -107,14 +107,14 @@ def calc_implied_business_day_offset(
         date: pd.Timestamp,
         offset_date: pd.Timestamp,
         cal: np.busdaycalendar) -> int:
-    assert date >= offset_date, "date must be greater than or equal to offset_date"
+    assert date <= offset_date, "date must be less than or equal to offset_date"
 
+    # A date on a non-business day is rolled to the following business day, as done in workday()
+    date = pd.Timestamp(workday(date, 0, cal))
     offset = 0
     while date < offset_date:
         offset += 1
-        date += pd.DateOffset(days=1)
-        date_np = date.to_numpy().astype('datetime64[D]')
-        date = np.busday_offset(date_np, offsets=0, roll='following', busdaycal=cal)
+        date = pd.Timestamp(workday(date, 1, cal))
     return offset
 
 
@@ -127,11 +127,11 @@ def resolve_fx_curve_dates(
 
     if curve_date is not None and spot_date is not None and spot_offset is not None:
         # All three dates are specified, check for consistency
-        check_day_offset_consistency(date=curve_date, offset_date=spot_date, offset=spot_offset, busdaycal=cal)
+        check_day_offset_consistency(date=curve_date, offset_date=spot_date, day_offset=spot_offset, busdaycal=cal)
     elif spot_offset is None and curve_date is not None and spot_date is not None:
         # Spot offset is not specified, calculate it based on curve date and spot date
         spot_offset = calc_implied_business_day_offset(curve_date, spot_date, cal)
-    else:
+    elif spot_offset is None:
         # Only one of {curve_date, spot_date} are specified, get spot_offset per market convention from ccy_pair
         spot_offset = get_fx_spot_day_offset(ccy_pair)
 
-- 
2.43.0


From ad990fdfa116110e68b518c6d4765af6fd64adf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:32 +0000
Subject: [PATCH 04/79] fix: parse a missing day count basis to its default and
 '30360' to 30/360 instead of raising AttributeError

---
 frm/enums/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/frm/enums/utils.py b/frm/enums/utils.py
index 90a4261..a0553b1 100644
--- a/frm/enums/utils.py
+++ b/frm/enums/utils.py
@@ -208,7 +208,9 @@ class DayCountBasis(Enum):
         """Create an enum member from the given value, if valid."""
         
         def specific_cleaning(value):
-            value = value.replace('actual','act')
+            if value is None:
+                return value
+            value = str(value).replace('actual','act') # '30360' is cleaned to an integer
             if value == 'act/365fixed':
                 value = 'act/365'
             return value        
-- 
2.43.0


From 3e84fffa5a622cfc8a36b8989730d1dfcd1e19fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 05/79] fix: leave schedule dates unadjusted for the unadjusted
 roll convention instead of raising

---
 frm/utils/schedule.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 08f5355..3aac78e 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -460,6 +460,8 @@ def generate_date_schedule(
     """
     
     def busday_offset_timestamp(pd_timestamp, offsets, roll_conv, cal):
+        if roll_conv == RollConv.UNADJUSTED.value:
+            return pd_timestamp
         np_datetime64D = np.array([pd_timestamp]).astype('datetime64[D]')
         rolled_date_np = np.busday_offset(np_datetime64D, offsets=offsets, roll=roll_conv, busdaycal=cal)[0]
         return pd.Timestamp(rolled_date_np)
-- 
2.43.0


From 4f9203b37bcf300023f3a027351a5ad38012f513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 06/79] fix: accept schedules where both the first and last
 stub are specified explicitly

---
 frm/utils/schedule.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 3aac78e..9614d43 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -287,8 +287,6 @@ def make_schedule(
                 first_stub  = Stub.NONE
             elif last_stub == Stub.DEFAULT:
                 last_stub = Stub.NONE
-            else:
-                raise ValueError("Unexpected logic branch - please raise GitHub issue")
 
             if last_stub == Stub.NONE:
                 d1, d2 = generate_date_schedule(start_date, end_date, freq, 'backward', roll_conv, day_roll, roll_user_specified_dates, cal)
-- 
2.43.0


From 1d19ed86ecd0025ae570e51330b4e4e9b6e59de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 07/79] fix: do not merge periods for a long stub when there is
 no second period to merge with

---
 frm/utils/schedule.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 9614d43..fce0113 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -290,12 +290,12 @@ def make_schedule(
 
             if last_stub == Stub.NONE:
                 d1, d2 = generate_date_schedule(start_date, end_date, freq, 'backward', roll_conv, day_roll, roll_user_specified_dates, cal)
-                if first_stub == Stub.LONG:
+                if first_stub == Stub.LONG and len(d1) > 1:
                     d1 = [d1[0]] + d1[2:]
                     d2 = d2[1:]
             elif first_stub == Stub.NONE and last_stub != Stub.NONE:
                 d1, d2 = generate_date_schedule(start_date, end_date, freq, 'forward', roll_conv, day_roll, roll_user_specified_dates, cal)
-                if last_stub == Stub.LONG:
+                if last_stub == Stub.LONG and len(d1) > 1:
                     d1 = d1[:-1]
                     d2 = d2[:-2] + [d2[-1]]
             elif first_stub in [Stub.SHORT, Stub.LONG] and last_stub in [Stub.SHORT, Stub.LONG]:
@@ -378,7 +378,7 @@ def make_schedule(
                 d1, d2 = generate_date_schedule(first_period_end, end_date, freq, 'forward', roll_conv, day_roll, roll_user_specified_dates, cal)
                 d1 = [start_date] + d1
                 d2 = [first_period_end] + d2
-                if last_stub == Stub.LONG:
+                if last_stub == Stub.LONG and len(d1) > 2:
                     d1 = d1[:-1]
                     d2 = d2[:-2] + [d2[-1]]
             elif first_stub != Stub.DEFINED_PER_FIRST_PERIOD_END_DATE and last_stub == Stub.DEFINED_PER_LAST_PERIOD_START_DATE:
@@ -386,7 +386,7 @@ def make_schedule(
                 d1, d2 = generate_date_schedule(start_date, last_period_start, freq, 'backward', roll_conv, day_roll, roll_user_specified_dates, cal)
                 d1 = d1 + [last_period_start]
                 d2 = d2 + [end_date]
-                if first_stub == Stub.LONG:
+                if first_stub == Stub.LONG and len(d1) > 2:
                     d1 = [d1[0]] + d1[2:]
                     d2 = d2[1:]
             else:
-- 
2.43.0


From 8f624c28501ec8356cb335861b269502fdf1c575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 08/79] fix: do not generate empty or reversed periods when
 rolled dates coincide or cross the contract dates

---
 frm/utils/schedule.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index fce0113..68f7933 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -501,8 +501,10 @@ def generate_date_schedule(
         current_date = busday_offset_timestamp(current_date, 0, roll_conv.value, cal)
         
         while current_date < end_date: 
-            start_dates.append(current_date)
-            end_dates.append(current_date)
+            # Skip dates which rolled onto (or past) the previous date, these would be empty or reversed periods
+            if current_date > (start_dates[-1] if start_dates else start_date):
+                start_dates.append(current_date)
+                end_dates.append(current_date)
             current_date = start_date + freq.multiply_date_offset(i+1)
             current_date = apply_specific_day_roll(current_date, day_roll)
             current_date = busday_offset_timestamp(current_date, 0, roll_conv.value, cal)
@@ -516,8 +518,10 @@ def generate_date_schedule(
         current_date = busday_offset_timestamp(current_date, 0, roll_conv.value, cal)
         
         while current_date > start_date:   
-            start_dates.append(current_date)
-            end_dates.append(current_date)
+            # Skip dates which rolled onto (or past) the next date, these would be empty or reversed periods
+            if current_date < (start_dates[-1] if start_dates else end_date):
+                start_dates.append(current_date)
+                end_dates.append(current_date)
             current_date = end_date - freq.multiply_date_offset(i+1)
             current_date = apply_specific_day_roll(current_date, day_roll)
             current_date = busday_offset_timestamp(current_date, 0, roll_conv.value, cal)
-- 
2.43.0


From 540f417aa2d465e9d4ba64cd1e0b5af81d0f524c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 09/79] fix: honour both first_period_end and last_period_start
 when they do not align with one generated schedule, and short schedules with
 either

---
 frm/utils/schedule.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 68f7933..11223cc 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -329,7 +329,7 @@ def make_schedule(
                 elif first_period_end == d2_backward[0]:
                     direction.append('backward')
                     first_stub = Stub.SHORT
-                elif first_period_end == d2_backward[1]:
+                elif len(d2_backward) > 1 and first_period_end == d2_backward[1]:
                     direction.append('backward')
                     first_stub = Stub.LONG
                 else:
@@ -344,13 +344,21 @@ def make_schedule(
                 elif last_period_start == d1_forward[-1]:
                     direction.append('forward')
                     last_stub = Stub.SHORT
-                elif last_period_start == d1_forward[-2]:
+                elif len(d1_forward) > 1 and last_period_start == d1_forward[-2]:
                     direction.append('forward')
                     last_stub = Stub.LONG
                 else:
                     # Need to construct schedule using last_period_start
                     last_stub = Stub.DEFINED_PER_LAST_PERIOD_START_DATE
 
+            # If both are specified but they don't both align with the same generated schedule, the schedule is
+            # constructed using both first_period_end and last_period_start
+            if first_period_end is not None and last_period_start is not None:
+                if len(direction) < 2 or len(set(direction)) > 1:
+                    assert first_period_end <= last_period_start
+                    first_stub = Stub.DEFINED_PER_FIRST_PERIOD_END_DATE
+                    last_stub = Stub.DEFINED_PER_LAST_PERIOD_START_DATE
+
             # Step 2c : Set default stub values to:
             #              (i) NONE if other stub is SHORT/LONG
             #              (ii) SHORT if other stub is NONE
-- 
2.43.0


From 4c2f347c08d735a2d4d38cb5ce5140c4ad5083c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 10/79] fix: roll every user specified date of a schedule when
 asked to, whichever way the schedule is specified

---
 frm/utils/schedule.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 11223cc..e875832 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -416,6 +416,14 @@ def make_schedule(
                 else:
                     raise ValueError("Unexpected logic branch - please raise GitHub issue")
 
+    if roll_user_specified_dates and roll_conv != RollConv.UNADJUSTED:
+        # All generated dates are already rolled, this rolls the user specified dates irrespective of the branch above
+        d1, d2 = [[pd.Timestamp(d) for d in np.busday_offset(np.array(dates, dtype='datetime64[D]'), offsets=0,
+                                                             roll=roll_conv.value, busdaycal=cal)] for dates in (d1, d2)]
+        # Exclude periods which are empty once the user specified dates are rolled
+        if len(d1) > 1:
+            d1, d2 = [list(dates) for dates in zip(*[(a, b) for a, b in zip(d1, d2) if a != b])]
+
     schedule = pd.DataFrame({'period_start': d1, 'period_end': d2})
     return schedule
 
-- 
2.43.0


From 2e599f82be359bb542a97a018235133f5359d342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:21 +0000
Subject: [PATCH 11/79] fix: accept one notional per period for amortising
 schedules

---
 frm/utils/schedule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index e875832..a23ddbf 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -145,9 +145,9 @@ class NotionalSchedule(BaseSchedule):
         if notional_amount.shape == (1,):
             self.df['notional'] = notional_amount[0]
             self.df['notional_payment'] = 0
-        elif notional_amount.shape == self.df.shape[0]:
+        elif notional_amount.shape == (self.df.shape[0],):
             self.df['notional'] = notional_amount
-            self.df['notional_payment'] = notional_amount[:-1] - notional_amount[1:]
+            self.df['notional_payment'] = np.append(notional_amount[:-1] - notional_amount[1:], 0)
         else:
             raise ValueError("Invalid notional_amount shape")
 
-- 
2.43.0


From 861ab78abf89de9240a61bfc2f00ea9d760deec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:21 +0000
Subject: [PATCH 12/79] fix: add payment dates to schedules with the unadjusted
 roll convention instead of raising

---
 frm/utils/schedule.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index a23ddbf..777d4f0 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -88,7 +88,12 @@ class BaseSchedule:
 
         # Apply np.busday_offset only to non-NaT dates
         adjusted_dates = np.empty_like(dates, dtype='datetime64[D]')
-        adjusted_dates[valid_dates_mask] = np.busday_offset(valid_dates, offsets=payment_delay, roll=self.roll_conv.value, busdaycal=self.cal)
+        if self.roll_conv == RollConv.UNADJUSTED:
+            # Dates are not adjusted for business days, unless the payment is delayed by a number of business days
+            adjusted_dates[valid_dates_mask] = valid_dates if payment_delay == 0 \
+                else np.busday_offset(valid_dates, offsets=payment_delay, roll='following', busdaycal=self.cal)
+        else:
+            adjusted_dates[valid_dates_mask] = np.busday_offset(valid_dates, offsets=payment_delay, roll=self.roll_conv.value, busdaycal=self.cal)
         adjusted_dates[~valid_dates_mask] = 'NaT'
 
         # Update DataFrame
-- 
2.43.0


From 14857be4685c004bdec65f77e6c62ca0cca46390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:21 +0000
Subject: [PATCH 13/79] fix: add period year fractions to a schedule which has
 no period day counts

---
 frm/utils/schedule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 777d4f0..c22f0c3 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -128,7 +128,8 @@ class BaseSchedule:
         mask = np.logical_and(self.df['period_start'].notnull(), self.df['period_end'].notnull())
         years = np.full(self.df.shape[0], np.nan)
         years[mask] = year_frac(self.df['period_start'][mask], self.df['period_end'][mask], day_count_basis)
-        self.df.insert(loc=col_index + 2, column='period_yearfrac', value=years)
+        loc = col_index + 2 if 'period_daycount' in self.df.columns else col_index + 1
+        self.df.insert(loc=loc, column='period_yearfrac', value=years)
 
 
 @dataclass
-- 
2.43.0


From 9f0c92fa5de427396d09cf103d58e80beb65a408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 14/79] fix: support log-linear zero curves with a pillar at
 the curve date, and queries by year fraction on log-linear curves

---
 frm/term_structures/zero_curve.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index ebe7abd..a2d338a 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -132,6 +132,8 @@ class ZeroCurve:
 
         else:
             match self.interp_method:
+                case ZeroCurveInterpMethod.LINEAR_ON_LN_DISCOUNT:
+                    pass
                 case ZeroCurveInterpMethod.CUBIC_SPLINE_ON_LN_DISCOUNT:
                     x = pillar_df['years'].to_list()
                     y = np.log(pillar_df['discount_factor']).to_list()
@@ -328,7 +330,7 @@ class ZeroCurve:
             raise ValueError('Only one input among days, date, or years is allowed.')            
         
         if years is not None:
-            if self.interp_method == 'linear_on_ln_discount':
+            if self.interp_method == ZeroCurveInterpMethod.LINEAR_ON_LN_DISCOUNT:
                 ln_df_interp = np.interp(x=years, xp=self.pillar_df['years'], fp= np.log(self.pillar_df['discount_factor']))
                 cczr = -1 * ln_df_interp / years
                 discount_factor = np.exp(ln_df_interp)
-- 
2.43.0


From 76afb60f392fa1c37202a8507f237ddd1eb32e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 15/79] fix: convert simple zero rates of a curve to continuous
 compounding over the term of each pillar, not over one year

---
 frm/term_structures/zero_curve.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index a2d338a..4251a2c 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -90,7 +90,12 @@ class ZeroCurve:
             pillar_df['discount_factor'] = compounding_freq.calc_discount_factor_from_zero_rate(
                 years=pillar_df['years'],
                 zero_rate=pillar_df['zero_rate'])
-            pillar_df['cczr'] = compounding_freq.convert_rate_to(zero_rate=pillar_df['zero_rate'], target_compounding_freq=CompoundingFreq.CONTINUOUS)
+            if compounding_freq == CompoundingFreq.SIMPLE:
+                # The continuously compounded equivalent of a simple rate depends on the term
+                years = pillar_df['years'].where(pillar_df['years'] != 0)
+                pillar_df['cczr'] = (np.log1p(pillar_df['zero_rate'] * years) / years).fillna(pillar_df['zero_rate'])
+            else:
+                pillar_df['cczr'] = compounding_freq.convert_rate_to(zero_rate=pillar_df['zero_rate'], target_compounding_freq=CompoundingFreq.CONTINUOUS)
             pillar_df.drop(columns=['zero_rate'], inplace=True)
         else:
             # Add continuously compounded interest rate for internal use
-- 
2.43.0


From 6951e71c79226999d1d51485a0b0d9ac973c5480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 16/79] fix: interpolate zero rates of curves specified by
 discount factors including the curve date, instead of NaN

---
 frm/term_structures/zero_curve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 4251a2c..5901c25 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -99,6 +99,9 @@ class ZeroCurve:
             pillar_df.drop(columns=['zero_rate'], inplace=True)
         else:
             # Add continuously compounded interest rate for internal use
+            if pillar_df['years'].iloc[0] == 0:
+                # The zero rate is undefined for a discount factor at t=0. The row is re-added below.
+                pillar_df = pillar_df.iloc[1:].reset_index(drop=True)
             pillar_df['cczr'] = -1 * np.log(pillar_df['discount_factor']) / pillar_df['years']
 
         # Add pillar points at t=0. Short end extrapolation is per the 'interp_method' parameter.
-- 
2.43.0


From ef372121911852d2c4d00c4e3e3ef50540cd7067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 17/79] fix: do not add columns to the pillar table of the
 caller of ZeroCurve

---
 frm/term_structures/zero_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 5901c25..b33d41d 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -34,7 +34,7 @@ class ZeroCurve:
     
     def __post_init__(self, compounding_freq):
         
-        pillar_df = self.pillar_df
+        pillar_df = self.pillar_df.copy()
         if compounding_freq is None and 'zero_rate' in pillar_df.columns:
             raise ValueError("'compounding_freq' must be specified zero rates specified in 'pillar_df'")
             
-- 
2.43.0


From 93091c22dc972f9d7e057b7dc02d2067ec172e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 18/79] fix: accept several day counts in zero curve queries

---
 frm/term_structures/zero_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index b33d41d..2d37cc6 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -356,7 +356,7 @@ class ZeroCurve:
             return pd.DataFrame({'years': years, 'cczr': cczr, 'discount_factor': discount_factor})
         else:
             if days is not None:
-                dates = self.curve_date + dt.timedelta(days=days)
+                dates = self.curve_date + pd.to_timedelta(days, unit='D')
 
             dates = pd.to_datetime(dates)
             if not(isinstance(dates, pd.DatetimeIndex)):
-- 
2.43.0


From fd89b41cb92db3d3c02a983d62a19ca108ee6910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 19/79] fix: return one result per queried date, in order, with
 dates outside the curve extrapolated as declared instead of dropped

---
 frm/term_structures/zero_curve.py | 35 ++++++++++---------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 2d37cc6..89d7db7 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -376,32 +376,19 @@ class ZeroCurve:
             # Check if any of the dates are outside the available data
             min_date = self.daily_df['date'].min()
             below_range = dates < min_date
-            dates_below = []
-            if any(below_range):
-                bound_date = self.daily_df['date'].min()
-                for i,date in enumerate(dates[below_range]):
-                    print('Date', date.strftime('%Y-%m-%d'), 'is below the min available data of ' + bound_date.strftime('%Y-%m-%d') + msg)
-                    if self.extrap_method == 'none':
-                        dates_below.append(np.nan)
-                    elif self.extrap_method == 'flat':
-                        dates_below.append(bound_date)
-            
+            for date in dates[below_range]:
+                print('Date', date.strftime('%Y-%m-%d'), 'is below the min available data of ' + min_date.strftime('%Y-%m-%d') + msg)
+
             max_date = self.daily_df['date'].max()
             above_range = dates > max_date
-            dates_above = []
-            if any(above_range):
-                bound_date = self.daily_df['date'].max()
-                for i,date in enumerate(dates[above_range]):
-                    print('Date', date.strftime('%Y-%m-%d'), 'is above the max available data of ' + bound_date.strftime('%Y-%m-%d') + msg)
-                    if self.extrap_method == 'none':
-                        dates_above.append(np.nan)
-                    elif self.extrap_method == 'flat':
-                        dates_above.append(bound_date)
-          
-            in_range = np.logical_and(np.logical_not(below_range),np.logical_not(above_range))
-            cleaned_dates = dates_below + list(dates[in_range].values) + dates_above
-            df = pd.merge(pd.DataFrame(data=cleaned_dates, columns=['date']), self.daily_df, left_on='date',right_on='date', how='left')
-            return df    
+            for date in dates[above_range]:
+                print('Date', date.strftime('%Y-%m-%d'), 'is above the max available data of ' + max_date.strftime('%Y-%m-%d') + msg)
+
+            # Results are in the order of the requested dates.
+            if self.extrap_method == ZeroCurveExtrapMethod.FLAT:
+                dates = dates.where(~below_range, min_date).where(~above_range, max_date)
+            df = pd.merge(pd.DataFrame({'date': dates}), self.daily_df, left_on='date', right_on='date', how='left')
+            return df
 
        
     def plot(self, forward_rate_term=pd.DateOffset(months=3)):
-- 
2.43.0


From 0e91c7097d8001455a09cde38239aca75e617789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 20/79] fix: cover the dates up to the last pillar of a curve
 specified by fractional years

---
 frm/term_structures/zero_curve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 89d7db7..37bcc88 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -169,6 +169,9 @@ class ZeroCurve:
             max_date = self.curve_date + relativedelta(years=max_years)
             while year_frac(self.curve_date, max_date, self.day_count_basis) < max_years:
                 max_date += dt.timedelta(days=1)
+            # Extend to the last date within the last pillar, which can be a part of a year after a whole number of years
+            while year_frac(self.curve_date, max_date + dt.timedelta(days=1), self.day_count_basis) <= max(self.pillar_df['years']):
+                max_date += dt.timedelta(days=1)
                 
         date_range = pd.date_range(self.curve_date,max_date,freq='d')
         days = day_count(self.curve_date, date_range, self.day_count_basis)
-- 
2.43.0


From 113c1583d99bc571a43955af1a7a4a6d53e3ad0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 21/79] fix: apply the extrapolation method of a zero curve to
 queries by year fraction too

---
 frm/term_structures/zero_curve.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 37bcc88..8e27282 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -297,7 +297,7 @@ class ZeroCurve:
         
     def get_instantaneous_forward_rate(self, years):
         if self.interp_method == ZeroCurveInterpMethod.CUBIC_SPLINE_ON_CCZR:
-            zero_rate = self.get_zero_rates(years=years, compounding_freq=CompoundingFreq.CONTINUOUS)
+            zero_rate = splev(x=years, tck=self.cubic_spline_definition, der=0)
             zero_rate_1st_deriv = splev(x=years, tck=self.cubic_spline_definition, der=1)
             return zero_rate + years * zero_rate_1st_deriv
         elif self.interp_method == ZeroCurveInterpMethod.CUBIC_SPLINE_ON_LN_DISCOUNT:
@@ -341,6 +341,14 @@ class ZeroCurve:
             raise ValueError('Only one input among days, date, or years is allowed.')            
         
         if years is not None:
+            # Outside the pillars, extrapolate per 'extrap_method', as for dates
+            years = np.asarray(years, dtype=float)
+            max_years = max(self.pillar_df['years'].max(), self.daily_df['years'].max())
+            if self.extrap_method == ZeroCurveExtrapMethod.FLAT:
+                years = np.clip(years, 0.0, max_years)
+            else:
+                years = np.where((years >= 0.0) & (years <= max_years), years, np.nan)
+
             if self.interp_method == ZeroCurveInterpMethod.LINEAR_ON_LN_DISCOUNT:
                 ln_df_interp = np.interp(x=years, xp=self.pillar_df['years'], fp= np.log(self.pillar_df['discount_factor']))
                 cczr = -1 * ln_df_interp / years
-- 
2.43.0


From dfcfffe4bef47f14aebc242e9431d89900368aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 22/79] fix: return the instantaneous forward rate of
 log-linear zero curves instead of None

---
 frm/term_structures/zero_curve.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 8e27282..ba3da17 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -303,6 +303,14 @@ class ZeroCurve:
         elif self.interp_method == ZeroCurveInterpMethod.CUBIC_SPLINE_ON_LN_DISCOUNT:
             ln_discount_1st_deriv = splev(x=years, tck=self.cubic_spline_definition, der=1)
             return -ln_discount_1st_deriv
+        elif self.interp_method == ZeroCurveInterpMethod.LINEAR_ON_LN_DISCOUNT:
+            # Constant between pillars, right continuous, and flat beyond the last pillar
+            pillar_years = self.pillar_df['years'].to_numpy(dtype=float)
+            forward_rates = -np.diff(np.log(self.pillar_df['discount_factor'].to_numpy(dtype=float))) / np.diff(pillar_years)
+            index = np.searchsorted(pillar_years, years, side='right') - 1
+            return forward_rates[np.clip(index, 0, len(forward_rates) - 1)]
+        else:
+            raise ValueError(f"Invalid interpolation method {self.interp_method}")
 
 
     def get_discount_factors(self,
-- 
2.43.0


From c68a4a1c25b0c0df8dc9c7ff7852f5655dd44065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 23/79] fix: average overnight forward rates of ACT/ACT curves
 instead of returning NaN

---
 frm/term_structures/zero_curve.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index ba3da17..389123a 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -247,7 +247,11 @@ class ZeroCurve:
             dates = pd.date_range(start=period_start.min(), end=period_end.max(), freq='D')
             discount_factors = self.get_discount_factors(dates=dates)
             daily_interest_multiplier = discount_factors[:-1] / discount_factors[1:]
-            daily_simple_interest_rate = (daily_interest_multiplier - 1) * self.day_count_basis.days_per_year
+            if self.day_count_basis == DayCountBasis.ACT_ACT:
+                # The number of days per year depends on the date
+                daily_simple_interest_rate = (daily_interest_multiplier - 1) / np.asarray(year_frac(dates[:-1], dates[1:], self.day_count_basis))
+            else:
+                daily_simple_interest_rate = (daily_interest_multiplier - 1) * self.day_count_basis.days_per_year
             dates_np = dates.to_numpy(dtype='datetime64[D]')
             busday_flag = pd.Series(np.is_busday(dates_np, busdaycal=self.cal), index=dates)
             
-- 
2.43.0


From cac42d756712d73c21ae72ebb2b7671a3de9fa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 24/79] fix: shift the zero rates of a curve in parallel,
 keeping its conventions, instead of raising

---
 frm/term_structures/zero_curve.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 389123a..004da70 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -208,16 +208,16 @@ class ZeroCurve:
        
     def flat_shift(self, 
                    basis_points: float=1) -> 'ZeroCurve':
-        dates = list(self.pillar_df.keys())
-        years = year_frac(self.curve_date, dates, self.day_count_basis)
-        shifted = - np.log(list(self.pillar_df.values)) / years + basis_points / 10000
-        shifted = pd.DataFrame({'date': dates,
-                                'years': years,
-                                'discount_factor':np.exp(-shifted * years)})
-        shifted.loc[0,'discount_factor'] = 1.0 # set the discount factor on the curve date to be 1.0
-        return ZeroCurve(curve_date=self.curve_date, 
+        X_column_name = 'date' if 'date' in self.pillar_df.columns else 'years'
+        shifted = pd.DataFrame({X_column_name: self.pillar_df[X_column_name],
+                                'zero_rate': self.pillar_df['cczr'] + basis_points / 10000})
+        return ZeroCurve(curve_date=self.curve_date,
                          pillar_df=shifted,
-                         day_count_basis=self.day_count_basis)
+                         compounding_freq=CompoundingFreq.CONTINUOUS,
+                         day_count_basis=self.day_count_basis,
+                         cal=self.cal,
+                         interp_method=self.interp_method,
+                         extrap_method=self.extrap_method)
                    
     def get_forward_rates(self,
                           period_start: Union[pd.Timestamp, np.datetime64, dt.datetime, dt.date, pd.Series, pd.DatetimeIndex],
-- 
2.43.0


From 4186dc3b6d32df8b1649d2616530552184d4f617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 25/79] fix: return exactly zero for the ACT/ACT year fraction
 of an empty period

---
 frm/utils/daycount.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/frm/utils/daycount.py b/frm/utils/daycount.py
index 0f0c358..e1152e9 100644
--- a/frm/utils/daycount.py
+++ b/frm/utils/daycount.py
@@ -152,6 +152,8 @@ def year_frac(start_date,
         total_sum += diff_first.days / year_1_diff
         diff_second = end_dti - pd.DatetimeIndex([dt.datetime(v, 1, 1) for v in end_year]) 
         total_sum += diff_second.days / year_2_diff
+        # Within one year, avoid the rounding of the sum above so that the year fraction of an empty period is exactly zero
+        total_sum = total_sum.where(start_year != end_year, (end_dti - start_dti).days / year_1_diff)
 
         if scalar_output:
             return total_sum.item()
-- 
2.43.0


From fb7d0e1c8a0cd9526b8dca3e8bb7ee46188f10c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 26/79] fix: accept zero curves specified by day counts instead
 of raising NameError

---
 frm/term_structures/zero_curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 004da70..aa230b6 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -124,8 +124,8 @@ class ZeroCurve:
                     x = [0.0] + pillar_df['years'].to_list()
                     y = [0.0] + np.log(pillar_df['discount_factor']).to_list()
                     self.cubic_spline_definition = splrep(x=x, y=y, k=3)
-                    dt = 1e-6 # small number to avoid division by zero
-                    first_row['cczr'] = -1 * splev(x=dt, tck=self.cubic_spline_definition, der=0) / dt
+                    small_dt = 1e-6 # small number to avoid division by zero
+                    first_row['cczr'] = -1 * splev(x=small_dt, tck=self.cubic_spline_definition, der=0) / small_dt
                 case ZeroCurveInterpMethod.CUBIC_SPLINE_ON_CCZR:
                     x = pillar_df['years'].to_list()
                     y = pillar_df['cczr'].to_list()
-- 
2.43.0


From 6cf725765b966274207a1b2651b5a663374d1903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 27/79] fix: do not treat a rounding error beyond the last
 pillar of a zero curve as extrapolation

---
 frm/term_structures/zero_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index aa230b6..4652661 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -359,7 +359,7 @@ class ZeroCurve:
             if self.extrap_method == ZeroCurveExtrapMethod.FLAT:
                 years = np.clip(years, 0.0, max_years)
             else:
-                years = np.where((years >= 0.0) & (years <= max_years), years, np.nan)
+                years = np.where((years >= 0.0) & (years <= max_years + 1e-8), years, np.nan)
 
             if self.interp_method == ZeroCurveInterpMethod.LINEAR_ON_LN_DISCOUNT:
                 ln_df_interp = np.interp(x=years, xp=self.pillar_df['years'], fp= np.log(self.pillar_df['discount_factor']))
-- 
2.43.0


From 707e428608200e4d353748260817c1c0e02e0284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 28/79] fix: carry the previous fixing over non-publication
 days at the start and end of an accrual period

---
 frm/term_structures/historical_swap_index_fixings.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/frm/term_structures/historical_swap_index_fixings.py b/frm/term_structures/historical_swap_index_fixings.py
index 63fbae8..05a990e 100644
--- a/frm/term_structures/historical_swap_index_fixings.py
+++ b/frm/term_structures/historical_swap_index_fixings.py
@@ -37,13 +37,11 @@ class RFRFixings(HistoricalSwapIndexFixings):
         observations_start = period_start
         observations_end = period_end - pd.DateOffset(days=1)
 
-        mask = np.logical_and(self.fixings['date'] >= observations_start.min(),
-                              self.fixings['date'] <= observations_end.max())
-        applicable_fixings = self.fixings.loc[mask,:].sort_values('date', ascending=True).reset_index(drop=True)
+        applicable_fixings = self.fixings.sort_values('date', ascending=True).reset_index(drop=True)
 
-
-        if observations_end.max() > applicable_fixings['date'].max() \
-            or observations_end.min() < applicable_fixings['date'].min():
+        # A fixing carries over the following non-publication days. After the last fixing only weekends are known to be such.
+        if observations_end.max() >= applicable_fixings['date'].max() + pd.offsets.BDay(1) \
+            or observations_start.min() < applicable_fixings['date'].min():
             raise ValueError('Observation period extends beyond available fixing data.')
 
         coupon_rates = [self._calculate_coupon_rate(s, e, applicable_fixings, cpn_calc_method)
@@ -64,7 +62,7 @@ class RFRFixings(HistoricalSwapIndexFixings):
             return periods_ois_fixings['fixing'].mean()
 
         date_range = pd.date_range(start=observation_start, end=observation_end, freq='D')
-        df = pd.merge_asof(pd.DataFrame({'date': date_range}), periods_ois_fixings, on='date', direction='backward')
+        df = pd.merge_asof(pd.DataFrame({'date': date_range}), fixings, on='date', direction='backward')
 
         if method == RFRFixingCalcMethod.DAILY_COMPOUNDED:
             df['daily_interest'] = 1 + df['fixing'] / self.day_count_basis.days_per_year
-- 
2.43.0


From 22351954bf3129d2b83fd7416c00649f768bf480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 29/79] fix: accept term fixings in any date order

---
 frm/term_structures/historical_swap_index_fixings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/historical_swap_index_fixings.py b/frm/term_structures/historical_swap_index_fixings.py
index 05a990e..1957c18 100644
--- a/frm/term_structures/historical_swap_index_fixings.py
+++ b/frm/term_structures/historical_swap_index_fixings.py
@@ -88,7 +88,7 @@ class TermFixings(HistoricalSwapIndexFixings):
         date_df_sorted = date_df.sort_values('date').reset_index(drop=False)
 
         # Perform merge_asof with the sorted dates
-        df = pd.merge_asof(date_df_sorted, self.fixings, on='date', direction='backward')
+        df = pd.merge_asof(date_df_sorted, self.fixings.sort_values('date'), on='date', direction='backward')
 
         df_sorted_back = df.sort_values('index').set_index('index') # Restore the original order of the input dates
 
-- 
2.43.0


From f0207dcc269a2e54daf4fc34624203ba258be5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 30/79] fix: project future periods of term swap curves from
 the zero curve and take past periods from the fixings

---
 frm/term_structures/swap_curve.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/frm/term_structures/swap_curve.py b/frm/term_structures/swap_curve.py
index 1debf8b..70b6410 100644
--- a/frm/term_structures/swap_curve.py
+++ b/frm/term_structures/swap_curve.py
@@ -38,17 +38,19 @@ class TermSwapCurve:
         #   Would be nice to have public API to call for data whenever needed for examples.
         # Get forward fixings
         mask_future = period_start >= self.zero_curve.curve_date
-        forward_fixings = self.zero_curve.get_forward_rates(
-            period_start=period_start[mask_future],
-            period_end=period_end[mask_future],
-            forward_rate_type=cpn_calc_method)
-        fixings[mask_future] = forward_fixings
+        if mask_future.any():
+            forward_fixings = self.zero_curve.get_forward_rates(
+                period_start=period_start[mask_future],
+                period_end=period_end[mask_future],
+                forward_rate_type=cpn_calc_method)
+            fixings[mask_future] = forward_fixings
 
         # Get historical fixings
-        mask_historical = period_start >= self.zero_curve.curve_date
-        historical_fixings = self.historical_fixings.index_historical_fixings(
-            fixing_dates=period_start[mask_historical])
-        fixings[mask_historical] = historical_fixings
+        mask_historical = period_start < self.zero_curve.curve_date
+        if mask_historical.any():
+            historical_fixings = self.historical_fixings.index_historical_fixings(
+                fixing_dates=period_start[mask_historical])
+            fixings[mask_historical] = historical_fixings
 
         return fixings
 
-- 
2.43.0


From 0d19cc246773bee903c0a6d0d3ea4309e70be439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 31/79] fix: do not compound the averaged coupon rates of a
 period straddling the curve date

---
 frm/term_structures/swap_curve.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/frm/term_structures/swap_curve.py b/frm/term_structures/swap_curve.py
index 70b6410..5f2a9e5 100644
--- a/frm/term_structures/swap_curve.py
+++ b/frm/term_structures/swap_curve.py
@@ -120,9 +120,14 @@ class RFRSwapCurve:
             period_end=crossover_period_end,
             forward_rate_type=cpn_calc_method)
 
-        crossover_rate = (historical_year_frac * historical_component
-                          + (1 + historical_year_frac * historical_component) * future_year_frac * future_component) \
-                         / (historical_year_frac + future_year_frac)
+        if cpn_calc_method == RFRFixingCalcMethod.DAILY_COMPOUNDED:
+            crossover_rate = (historical_year_frac * historical_component
+                              + (1 + historical_year_frac * historical_component) * future_year_frac * future_component) \
+                             / (historical_year_frac + future_year_frac)
+        else:
+            # Averaged coupons do not compound
+            crossover_rate = (historical_year_frac * historical_component + future_year_frac * future_component) \
+                             / (historical_year_frac + future_year_frac)
 
         return crossover_rate
 
-- 
2.43.0


From dd4579e81e95c614aa7977d6f36581a40758334f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:16 +0000
Subject: [PATCH 32/79] fix: accept deposits specified by dates, and do not
 alter the quotes of the caller

---
 frm/term_structures/bootstrap_helpers.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/frm/term_structures/bootstrap_helpers.py b/frm/term_structures/bootstrap_helpers.py
index 6dc12fd..636e93c 100644
--- a/frm/term_structures/bootstrap_helpers.py
+++ b/frm/term_structures/bootstrap_helpers.py
@@ -14,18 +14,22 @@ def cash_rates_quote_helper(
         day_count_basis: DayCountBasis,
         settlement_delay: Optional[int]=None,
         settlement_date: Optional[pd.Timestamp]=None,
-        cal: np.busdaycalendar=np.busdaycalendar):
+        cal: np.busdaycalendar=np.busdaycalendar()):
 
     assert 'rate' in df.columns
     assert 'tenor' in df.columns or ('effective_date' in df.columns and 'maturity_date' in df.columns)
 
-    df['tenor'] = df['tenor'].apply(clean_tenor)
+    df = df.copy()
 
-    if settlement_date is None:
-        assert settlement_delay is not None
-        settlement_date = workday(dates=curve_date, offset=settlement_delay, cal=cal)
+    if 'tenor' in df.columns:
+        df['tenor'] = df['tenor'].apply(clean_tenor)
 
-    if 'effective_date' not in df.columns:
+    if 'effective_date' in df.columns:
+        df['has_settlement_delay'] = df['effective_date'] > curve_date
+    else:
+        if settlement_date is None:
+            assert settlement_delay is not None
+            settlement_date = workday(dates=curve_date, offset=settlement_delay, cal=cal)
         df['has_settlement_delay'] = df['tenor'] != 'on'
         df.loc[~df['has_settlement_delay'],'effective_date'] = curve_date
         df.loc[df['has_settlement_delay'],'effective_date'] = settlement_date
-- 
2.43.0


From 18ef9ee6b08a3fb32f1bc8374d2a46c784cf110d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:16 +0000
Subject: [PATCH 33/79] fix: start tomorrow-next deposits one business day
 after the curve date and not on the spot date

---
 frm/term_structures/bootstrap_helpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/frm/term_structures/bootstrap_helpers.py b/frm/term_structures/bootstrap_helpers.py
index 636e93c..16e06cd 100644
--- a/frm/term_structures/bootstrap_helpers.py
+++ b/frm/term_structures/bootstrap_helpers.py
@@ -33,9 +33,11 @@ def cash_rates_quote_helper(
         df['has_settlement_delay'] = df['tenor'] != 'on'
         df.loc[~df['has_settlement_delay'],'effective_date'] = curve_date
         df.loc[df['has_settlement_delay'],'effective_date'] = settlement_date
+        # A tomorrow-next deposit starts and ends one business day after an overnight one
+        df.loc[df['tenor'] == 'tn','effective_date'] = workday(dates=curve_date, offset=1, cal=cal)
 
     if 'maturity_date' not in df.columns:
-        date_offset = df['tenor'].apply(tenor_to_date_offset).values
+        date_offset = df['tenor'].replace('tn', '1d').apply(tenor_to_date_offset).values
         df['maturity_date'] = workday(dates=(df['effective_date'] + date_offset), offset=0, cal=cal)
 
     df['period_years'] = year_frac(df['effective_date'], df['maturity_date'], day_count_basis)
-- 
2.43.0


From f07cfabf98b17c2d46fca2a1961fcbf24544b0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:16 +0000
Subject: [PATCH 34/79] fix: bootstrap deposits whose settlement date is the
 curve date, or is after the last overnight maturity, instead of raising

---
 frm/term_structures/bootstrap_helpers.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/frm/term_structures/bootstrap_helpers.py b/frm/term_structures/bootstrap_helpers.py
index 16e06cd..7fd0262 100644
--- a/frm/term_structures/bootstrap_helpers.py
+++ b/frm/term_structures/bootstrap_helpers.py
@@ -49,6 +49,7 @@ def bootstrap_cash_rates(
         curve_date: pd.Timestamp,
         day_count_basis_years: DayCountBasis=DayCountBasis.ACT_ACT):
 
+    df = df.copy()
     df['effective_date_years'] = year_frac(curve_date, df['effective_date'], day_count_basis_years)
     df['maturity_date_years'] = year_frac(curve_date, df['maturity_date'], day_count_basis_years)
     df['effective_date_discount_factor'] = np.nan
@@ -56,16 +57,19 @@ def bootstrap_cash_rates(
 
     df.sort_values(by='maturity_date', inplace=True)
     for i, row in df.iterrows():
-        if not row['has_settlement_delay']:
+        if row['effective_date'] == curve_date:
             df.at[i, 'effective_date_discount_factor'] = 1.0
             df.at[i, 'maturity_date_discount_factor'] = 1.0 / (1 + row['rate'] * row['period_years'])
         else:
             mask = df['maturity_date'] <= row['effective_date']
 
             x = row['effective_date_years']
-            X = df.loc[mask, 'maturity_date_years'].values
-            Y = np.log(df.loc[mask, 'maturity_date_discount_factor'].values)
-            interp_func = interp1d(X, Y, kind='linear')
+            X = np.append(0.0, df.loc[mask, 'maturity_date_years'].values)
+            Y = np.append(0.0, np.log(df.loc[mask, 'maturity_date_discount_factor'].values))
+            if len(X) == 1:
+                raise ValueError('No deposit matures on or before the effective date of the deposit with tenor or maturity: '
+                                 f"{row.get('tenor', row['maturity_date'])}")
+            interp_func = interp1d(X, Y, kind='linear', fill_value='extrapolate')
             df.at[i, 'effective_date_discount_factor'] = np.exp(interp_func(x))
 
             df.at[i, 'maturity_date_discount_factor'] = df.at[i, 'effective_date_discount_factor'] \
-- 
2.43.0


From e179c7575e8b374becc7f02fd96b1aaec24614af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:16 +0000
Subject: [PATCH 35/79] fix: bootstrap futures specified by rates, and those
 effective before the first deposit maturity, without altering the quotes of
 the caller

---
 frm/term_structures/bootstrap_helpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/frm/term_structures/bootstrap_helpers.py b/frm/term_structures/bootstrap_helpers.py
index 7fd0262..694e7ae 100644
--- a/frm/term_structures/bootstrap_helpers.py
+++ b/frm/term_structures/bootstrap_helpers.py
@@ -88,10 +88,11 @@ def bootstrap_futures(
         day_count_basis: DayCountBasis,
         day_count_basis_years: DayCountBasis=DayCountBasis.ACT_ACT):
 
+    df = df.copy()
     if 'futures_rate' not in df.columns:
         df['futures_rate'] = (100 - df['price']) / 100
     if 'convexity_bps' not in df.columns:
-        df.insert(df.columns.get_loc('price') + 1, 'convexity_bps', 0)
+        df['convexity_bps'] = 0
     if 'forward_rate' not in df.columns:
         df['forward_rate'] = df['futures_rate'] - df['convexity_bps'] / 10000
 
@@ -101,6 +102,8 @@ def bootstrap_futures(
 
     X = cash_rates_df['maturity_date_years'].values
     Y = np.log(cash_rates_df['maturity_date_discount_factor'].values)
+    if 0.0 not in X:
+        X, Y = np.append(0.0, X), np.append(0.0, Y)
 
     df.sort_values(by='effective_date', inplace=True)
     df.reset_index(inplace=True, drop=True)
-- 
2.43.0


From 7744c30cc7982ce77579b2e149a42e13cbb8c1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:16 +0000
Subject: [PATCH 36/79] fix: give each futures contract its own dates whatever
 the order of the contracts, and accept 2 and 4 digit year codes

---
 frm/term_structures/bootstrap_helpers.py | 30 ++++++++++++------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/frm/term_structures/bootstrap_helpers.py b/frm/term_structures/bootstrap_helpers.py
index 694e7ae..585a401 100644
--- a/frm/term_structures/bootstrap_helpers.py
+++ b/frm/term_structures/bootstrap_helpers.py
@@ -129,6 +129,7 @@ def futures_helper_asx_90day(
 
     # From the contract code, index the effective period of the BBSW 3M fixing of the contract.
 
+    df = df.copy()
     if 'months' not in df.columns or 'years' not in df.columns:
 
         if 'ticker' in df.columns:
@@ -141,11 +142,11 @@ def futures_helper_asx_90day(
             assert futures_month_code.isin(['H', 'M', 'U', 'Z']).all() # 'H', 'M', 'U', 'Z' for Mar, Jun, Sep, Dec
             df['months'] = futures_month_code.map({'H': 3, 'M': 6, 'U': 9, 'Z': 12})
 
-            assert df['ticker'].str.len().isin([1, 2, 4]).all()
-            futures_year_code = df['ticker'].str[3:].astype(int)  # 1-4-digit year code
+            futures_year_code = df['ticker'].str[3:]  # 1, 2 or 4-digit year code
+            assert futures_year_code.str.len().isin([1, 2, 4]).all()
 
             def resolve_year(year_code):
-                year_code_str = str(year_code)
+                year_code_str = year_code
                 if len(year_code_str) == 1:
                     # Map single-digit year codes to 2020-2029
                     # TODO: does not support cases where the futures schedule spans multiple decades. i.e from 2028-2031.
@@ -169,18 +170,17 @@ def futures_helper_asx_90day(
 
 
     expiry_dates, settlement_dates = [], []
-    for years in range(df['years'].min(), df['years'].max()+1):
-        for months in [3, 6, 9, 12]:
-            if ((df['years'] == years) & (df['months'] == months)).any():
-                # Settlement Day = 2nd Friday of each delivery month (Mar, Jun, Sep, Dec).
-                # Start from the 1st of the month and get all Fridays in the month
-                month_start = pd.Timestamp(year=years, month=months, day=1)
-                fridays = [d for d in pd.date_range(month_start, month_start + pd.offsets.MonthEnd(), freq='W-FRI')]
-                settlement_date = fridays[1] # Get the second Friday
-                settlement_dates.append(settlement_date)
-
-                # Expiry date is the business day before settlement date
-                expiry_dates.append(settlement_date - pd.offsets.BDay(1))
+    for years, months in zip(df['years'], df['months']):
+        assert months in [3, 6, 9, 12]
+        # Settlement Day = 2nd Friday of each delivery month (Mar, Jun, Sep, Dec).
+        # Start from the 1st of the month and get all Fridays in the month
+        month_start = pd.Timestamp(year=years, month=months, day=1)
+        fridays = [d for d in pd.date_range(month_start, month_start + pd.offsets.MonthEnd(), freq='W-FRI')]
+        settlement_date = fridays[1] # Get the second Friday
+        settlement_dates.append(settlement_date)
+
+        # Expiry date is the business day before settlement date
+        expiry_dates.append(settlement_date - pd.offsets.BDay(1))
 
     df['expiry_date'] = expiry_dates
     df['settlement_date'] = settlement_dates
-- 
2.43.0


From 302d3c8e012e074f5f1ae3d6cfbfdbf551ce8620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 37/79] fix: include the annuity factor in the intrinsic value,
 and accept several strikes or volatilities with one expiry

---
 frm/pricing_engine/black76_bachelier.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index b3c0a6a..769fe0f 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -88,9 +88,7 @@ def black76_price(
 
     # Intrinsic / time value split
     if intrinsic_time_split:
-        intrinsic = np.full_like(X, np.nan)
-        intrinsic[tau>0] = np.maximum(0, cp * (F - K))[tau>0]
-        intrinsic[tau==0] = X[tau==0]
+        intrinsic = np.where(tau > 0, annuity_factor * np.maximum(0, cp * (F - K)), X)
         results['intrinsic'] = intrinsic
         results['time'] = X - intrinsic
 
@@ -254,9 +252,7 @@ def bachelier_price(
 
     # Intrinsic / time value split
     if intrinsic_time_split:
-        intrinsic = np.full_like(X, np.nan)
-        intrinsic[tau>0] = np.maximum(0, cp * (F - K))[tau>0]
-        intrinsic[tau==0] = X[tau==0]
+        intrinsic = np.where(tau > 0, annuity_factor * np.maximum(0, cp * (F - K)), X)
         results['intrinsic'] = intrinsic
         results['time'] = X - intrinsic
 
-- 
2.43.0


From 0f2a6ae06fb0c9a38f577636c5897e56c7ed7326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 38/79] fix: apply the log-normal shift once, not twice, in the
 numerical Black76 greeks

---
 frm/pricing_engine/black76_bachelier.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index 769fe0f..4f98f3a 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -107,9 +107,9 @@ def black76_price(
         # Delta, Δ, is the change in an option's price for a small change in the underlying assets (forward) price.
         # Δ := ∂X/∂F ≈ (X(F_plus) − X(F_minus)) / (F_plus - F_minus)
         Δ_shift = 0.01
-        results_F_plus = black76_price(F=F*(1+Δ_shift), tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=ln_shift,
+        results_F_plus = black76_price(F=F*(1+Δ_shift)-ln_shift, tau=tau, K=K-ln_shift, cp=cp, vol_sln=vol_sln, ln_shift=ln_shift,
                            annuity_factor=annuity_factor, analytical_greeks=True)
-        results_F_minus = black76_price(F=F*(1-Δ_shift), tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=ln_shift,
+        results_F_minus = black76_price(F=F*(1-Δ_shift)-ln_shift, tau=tau, K=K-ln_shift, cp=cp, vol_sln=vol_sln, ln_shift=ln_shift,
                             annuity_factor=annuity_factor, analytical_greeks=True)
         results['numerical_greeks']['delta'] = (results_F_plus['price'] - results_F_minus['price']) / (2 * F * Δ_shift)
 
@@ -117,9 +117,9 @@ def black76_price(
         # ν = ∂X/∂σ ≈ (X(σ_plus) − X(σ_minus)) / (σ_plus - σ_minus).
         # We divide by 0.01 (1%) to normalise the vega to a 1% change in the volatility input, per market convention.
         σ_shift = 0.01
-        results_σ_plus = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln+σ_shift, ln_shift=ln_shift,
+        results_σ_plus = black76_price(F=F-ln_shift, tau=tau, K=K-ln_shift, cp=cp, vol_sln=vol_sln+σ_shift, ln_shift=ln_shift,
                            annuity_factor=annuity_factor, analytical_greeks=True)
-        results_σ_minus = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln-σ_shift, ln_shift=ln_shift,
+        results_σ_minus = black76_price(F=F-ln_shift, tau=tau, K=K-ln_shift, cp=cp, vol_sln=vol_sln-σ_shift, ln_shift=ln_shift,
                             annuity_factor=annuity_factor, analytical_greeks=True)
         results['numerical_greeks']['vega'] = (results_σ_plus['price'] - results_σ_minus['price']) / (2 * (σ_shift / 0.01))
 
-- 
2.43.0


From 4fe459493bf2d09a17913a13a1415140b43f1a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 39/79] fix: normalise the Bachelier theta to one calendar day

---
 frm/pricing_engine/black76_bachelier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index 4f98f3a..ccce672 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -265,7 +265,7 @@ def bachelier_price(
         results['analytical_greeks']['vega'] = np.sqrt(tau) * norm.pdf(cp * d) * annuity_factor * 0.0001
 
         # Normalised to 1 calendar day.
-        results['analytical_greeks']['theta'] = (-0.5 * norm.pdf(d) * σN / np.sqrt(tau)) * annuity_factor / (1/365.25)
+        results['analytical_greeks']['theta'] = (-0.5 * norm.pdf(d) * σN / np.sqrt(tau)) * annuity_factor / 365.25
 
     return results
 
-- 
2.43.0


From e4d9e0df197c1f964f2cb676ba5e47212dde4178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 40/79] fix: return the analytical at-the-money log-normal
 volatility instead of discarding it

---
 frm/pricing_engine/black76_bachelier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index ccce672..04a3d94 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -458,7 +458,7 @@ def normal_vol_to_black76_sln(
     ) -> float:
     # If the forward and strike are equal, we use an analytical solution from equating the Black76 & Bachelier formulae
     if abs(F - K) < 1e-10:
-        normal_vol_atm_to_black76_sln_atm(F=F, tau=tau, vol_n_atm=vol_n, ln_shift=ln_shift)
+        return normal_vol_atm_to_black76_sln_atm(F=F, tau=tau, vol_n_atm=vol_n, ln_shift=ln_shift)
 
     # The solve is invariant to the risk-free rate or the call/put perspective.
     cp = 1
-- 
2.43.0


From d3a1c21b16c5aaa7cbdc6ab17c0b8477c336581b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 41/79] fix: solve implied volatilities to the price tolerance
 instead of silently returning a volatility bound

---
 frm/pricing_engine/black76_bachelier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index 04a3d94..73f4cc7 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -149,7 +149,7 @@ def black76_solve_implied_vol(
 
     # Want prices to be within 0.001% - i.e. if price is 100,000, acceptable range is (99999, 100001)
     # Hence set obj function tol to (0.001%)**2 = 1e-10 (due to the squaring of the relative error in the obj function)
-    xtol = 1e-6
+    xtol = 1e-14 # prices of low volatilities are sensitive to small changes of volatility, so rely on obj_func_tol
     obj_func_tol = 1e-5
     x0 = vol_sln_guess
     bounds = VOL_SLN_BOUNDS
@@ -292,7 +292,7 @@ def bachelier_solve_implied_vol(
 
     # Want prices to be within 0.001% - i.e. if price is 100,000, acceptable range is (99999, 100001)
     # Hence set obj function tol to (0.001%)**2 = 1e-10 (due to the squaring of the relative error in the obj function)
-    xtol = 1e-6
+    xtol = 1e-14 # prices of low volatilities are sensitive to small changes of volatility, so rely on obj_func_tol
     obj_func_tol = 1e-5
     x0 = vol_n_guess
     bounds = VOL_N_BOUNDS
-- 
2.43.0


From 2a03507ee165e127119b83f89dec391230fa329d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:46 +0000
Subject: [PATCH 42/79] fix: convert volatilities between models and shifts
 with the implied volatility solver on the out-of-the-money option, instead of
 silently returning a volatility bound

---
 frm/pricing_engine/black76_bachelier.py | 80 +++----------------------
 1 file changed, 9 insertions(+), 71 deletions(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index 73f4cc7..fcf901d 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -386,8 +386,8 @@ def black76_sln_to_normal_vol(
         res = (2.0 * F * norm.cdf((vol_sln * np.sqrt(tau)) / 2.0) - F) / (np.sqrt(tau) * norm.pdf(0))
     else:
         # If needed, faster method detailed in: Le Floc'h, Fabien, Fast and Accurate Analytic Basis Point Volatility (April 10, 2016).
-        # This solve is invariant to the call/put perspective and the risk-free rate / annuity factor.
-        cp = 1
+        # This solve is invariant to the risk-free rate / annuity factor. Solve the out-of-the-money option, whose price is all time value.
+        cp = 1 if K >= F else -1
         black76_px = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=ln_shift)['price'][0]
         vol_n_guess = np.atleast_1d(black76_sln_to_normal_vol_analytical(F=F, tau=tau, K=K, vol_sln=vol_sln, ln_shift=ln_shift))
         res = bachelier_solve_implied_vol(F=F, tau=tau, cp=cp, K=K, X=black76_px, vol_n_guess=vol_n_guess.item())
@@ -403,41 +403,12 @@ def shift_black76_vol(
         to_ln_shift: [float, np.float64]
     ):
 
-    # The solve is invariant to the call/put perspective, risk-free rate/annuity factor.
-    cp = 1
+    # The solve is invariant to the risk-free rate/annuity factor. Solve the out-of-the-money option, whose price is all time value.
+    cp = 1 if K >= F else -1
 
     black76_px = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=from_ln_shift)['price'][0]
-
-    def obj_func_relative_px_error(vol_new_ln_shift):
-        # Return the square of the relative error (to the price, as we want invariance to the price) to be minimised.
-        # Squared error ensures differentiability which is critical for gradient-based optimisation methods.
-        return ((black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_new_ln_shift, ln_shift=to_ln_shift)['price'][0] - black76_px) / black76_px)**2
-
-    # Want prices to be within 0.001% - i.e. if price is 100,000, acceptable range is (99999, 100001)
-    # Hence set obj function tol 'ftol' to (0.001%)**2 = 1e-10 (due to the squaring of the relative error in the obj function)
-    # We set gtol to zero, so that the optimisation is terminated based on ftol.
-    obj_func_tol = 1e-5 ** 2  # 0.001%^2
-    options = {'ftol': obj_func_tol, 'gtol': 0}
-    res = minimize(fun=obj_func_relative_px_error,
-                   x0=np.atleast_1d(vol_sln * (F / (F + (to_ln_shift - from_ln_shift)))),
-                   bounds=[VOL_SLN_BOUNDS],
-                   method='L-BFGS-B',
-                   options=options)
-    # 2nd condition required as we have overridden options to terminate based on ftol
-    if res.success or abs(res.fun) < obj_func_tol:
-        return res.x[0]
-    else:
-        # Further development could include:
-        # (i) fallback to other optimisation methods (e.g. 'trust-constr')
-        # (ii) addition of 'xtol' parameter into the optimisation (it is a parameter that is not available in 'L-BFGS-B')
-        #      'xtol' allows termination of the optimisation when the solved parameter (i.e. vol_sln) only changes by a small amount (e.g. 0.001%)
-        vol_new_ln_shift = res.x[0]
-        black76_px_shifted = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_new_ln_shift, ln_shift=to_ln_shift)['price'][0]
-        print({'F': F, 'tau': tau, 'K': K, 'vol_n': vol_sln, 'ln_shift': from_ln_shift})
-        print({'black76_px': black76_px, 'black76_px_shifted': black76_px_shifted, 'vol_new_ln_shift': vol_new_ln_shift,
-               'relative_error': obj_func_relative_px_error(vol_sln)})
-        print(res)
-        raise ValueError('Optimisation to shift Black76 volatility did not converge.')
+    vol_sln_guess = vol_sln * (F / (F + (to_ln_shift - from_ln_shift)))
+    return black76_solve_implied_vol(F=F, tau=tau, cp=cp, K=K, ln_shift=to_ln_shift, X=black76_px, vol_sln_guess=vol_sln_guess)
 
 
 def normal_vol_atm_to_black76_sln_atm(
@@ -460,40 +431,7 @@ def normal_vol_to_black76_sln(
     if abs(F - K) < 1e-10:
         return normal_vol_atm_to_black76_sln_atm(F=F, tau=tau, vol_n_atm=vol_n, ln_shift=ln_shift)
 
-    # The solve is invariant to the risk-free rate or the call/put perspective.
-    cp = 1
+    # The solve is invariant to the risk-free rate. Solve the out-of-the-money option, whose price is all time value.
+    cp = 1 if K >= F else -1
     bachelier_px = bachelier_price(F=F, tau=tau, K=K, cp=cp, vol_n=vol_n)['price'][0]
-
-    def obj_func_relative_px_error(vol_sln):
-        # Return the square of the relative error (to the price, as we want invariance to the price) to be minimised.
-        # Squared error ensures differentiability which is critical for gradient-based optimisation methods.
-        return ((bachelier_px - black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=ln_shift)['price'][0]) / bachelier_px)**2
-
-    # Want prices to be within 0.001% - i.e. if price is 100,000, acceptable range is (99999, 100001)
-    # Hence set obj function tol 'ftol' to (0.001%)**2 = 1e-10 (due to the squaring of the relative error in the obj function)
-    # We set gtol to zero, so that the optimisation is terminated based on ftol.
-    obj_func_tol = 1e-5 ** 2  # 0.001%^2
-    options = {'ftol': obj_func_tol, 'gtol': 0}
-    res = minimize(fun=obj_func_relative_px_error,
-                   x0=np.atleast_1d(vol_n / (F + ln_shift)),
-                   bounds=[VOL_SLN_BOUNDS],
-                   method='L-BFGS-B',
-                   options=options)
-    # 2nd condition required as we have overridden options to terminate based on ftol
-    if res.success or abs(res.fun) < obj_func_tol:
-        return res.x[0]
-    else:
-        # Further development could include:
-        # (i) fallback to other optimisation methods (e.g. 'trust-constr')
-        # (ii) addition of 'xtol' parameter into the optimisation (it is a parameter that is not available in 'L-BFGS-B')
-        #      'xtol' allows termination of the optimisation when solved parameter (i.e. vol_sln) only changes by a small amount (e.g. 0.001%)
-        vol_sln = res.x[0]
-        black76_px = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=ln_shift)['price'][0]
-        print({'F': F, 'tau': tau, 'K': K, 'vol_n': vol_n, 'ln_shift': ln_shift})
-        print({'bachelier_px': bachelier_px, 'black76_px': black76_px, 'vol_sln': vol_sln,
-               'relative_error': obj_func_relative_px_error(vol_sln)})
-        print(res)
-        raise ValueError('Optimisation to convert normal volatility to log-normal volatility did not converge.')
-
-
-
+    return black76_solve_implied_vol(F=F, tau=tau, cp=cp, K=K, ln_shift=ln_shift, X=bachelier_px, vol_sln_guess=vol_n / (F + ln_shift))
-- 
2.43.0


From dabac534331322b385a5261e6164db5bbf8a24b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 43/79] fix: starting point of shift_black76_vol divided by
 zero for F + to = from shift

---
 frm/pricing_engine/black76_bachelier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index fcf901d..10e63d8 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -407,7 +407,7 @@ def shift_black76_vol(
     cp = 1 if K >= F else -1
 
     black76_px = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=from_ln_shift)['price'][0]
-    vol_sln_guess = vol_sln * (F / (F + (to_ln_shift - from_ln_shift)))
+    vol_sln_guess = vol_sln * ((F + from_ln_shift) / (F + to_ln_shift))
     return black76_solve_implied_vol(F=F, tau=tau, cp=cp, K=K, ln_shift=to_ln_shift, X=black76_px, vol_sln_guess=vol_sln_guess)
 
 
-- 
2.43.0


From d94680e6da0e4238838ca415dceb6ef0393c7180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:27 +0000
Subject: [PATCH 44/79] fix: Garman-Kohlhagen price of several options with one
 expiry raised IndexError

---
 frm/pricing_engine/garman_kohlhagen.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 0ad0f8e..9481444 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -97,13 +97,11 @@ def garman_kohlhagen_price(
     d2 = d1 - σ * np.sqrt(tau)   
     X = cp * (S0 * np.exp(-q * tau) * norm.cdf(cp * d1) - K * np.exp(-r * tau) * norm.cdf(cp * d2))
 
-    X[tau==0] = np.maximum(0, cp * (S0 - K))[tau==0] # If time to maturity is 0.0, set to intrinsic value
+    X = np.where(tau==0, np.maximum(0, cp * (S0 - K)), X) # If time to maturity is 0.0, set to intrinsic value
     results = {'price': X}
 
     if intrinsic_time_split:
-        intrinsic = np.full_like(X, np.nan)
-        intrinsic[tau>0] = np.maximum(0, cp * (S0 * np.exp(-q * tau) - K * np.exp(-r * tau)))[tau>0]
-        intrinsic[tau==0] = X[tau==0]
+        intrinsic = np.where(tau>0, np.maximum(0, cp * (S0 * np.exp(-q * tau) - K * np.exp(-r * tau))), X)
         results['intrinsic'] = intrinsic
         results['time'] = X - intrinsic
 
-- 
2.43.0


From 812de8c7eac4315cdaaf0692bd876105368344e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 45/79] fix: Garman-Kohlhagen analytical theta discounted the
 spot at the domestic rate and ignored the sign of puts

---
 frm/pricing_engine/garman_kohlhagen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 9481444..d48e3a5 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -119,9 +119,9 @@ def garman_kohlhagen_price(
         results['analytical_greeks']['vega'] = analytical_formula * 0.01 # normalised to 1% change
 
         # Per market convention, theta is normalised to the price decay for 1 calendar day.
-        analytical_formula = -(S0*np.exp(-r*tau)*norm.pdf(d1 * cp)*σ)/(2*np.sqrt(tau)) \
-            + q * np.exp(-q * tau) * S0 * norm.cdf(d1 * cp) \
-            - r * np.exp(-r * tau) * K * norm.cdf(d2 * cp)
+        analytical_formula = -(S0*np.exp(-q*tau)*norm.pdf(d1 * cp)*σ)/(2*np.sqrt(tau)) \
+            + cp * q * np.exp(-q * tau) * S0 * norm.cdf(d1 * cp) \
+            - cp * r * np.exp(-r * tau) * K * norm.cdf(d2 * cp)
         results['analytical_greeks']['theta'] = analytical_formula * 1/365.25 # normalised to 1 calendar day
 
         # In practice, gamma is  normalised to measure the change in Δ, for a 1% change in the underlying assets price.
-- 
2.43.0


From a0e337640824faae22d45496c0aecc2a48cf8379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 46/79] fix: Garman-Kohlhagen analytical rho discounted the
 strike at the foreign rate and ignored the sign of puts

---
 frm/pricing_engine/garman_kohlhagen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index d48e3a5..7439999 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -131,7 +131,7 @@ def garman_kohlhagen_price(
 
         # In practice, Rho is normalised to measure the change in price for a 1% change in the underlying interest rate.
         # Hence, we have multiplied the analytical formula result by 0.01 (i.e. 1%)
-        analytical_formula = K * tau * np.exp(-q * tau) * norm.cdf(cp * d2)
+        analytical_formula = cp * K * tau * np.exp(-r * tau) * norm.cdf(cp * d2)
         results['analytical_greeks']['rho'] = analytical_formula * 0.01
 
 
-- 
2.43.0


From a877239c6dc62f6741f94f3be12787f27b0723aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:49 +0000
Subject: [PATCH 47/79] fix: Garman-Kohlhagen numerical greeks raised KeyError,
 and their rho bumped the volatility instead of the domestic rate

---
 frm/pricing_engine/garman_kohlhagen.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 7439999..7f71e24 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -136,7 +136,7 @@ def garman_kohlhagen_price(
 
 
     if numerical_greeks:
-        numerical_greeks = pd.DataFrame()
+        results['numerical_greeks'] = pd.DataFrame()
 
         Δ_shift = 1 / 100  # 1% shift
         σ_shift = 1 / 100  # 1% shift
@@ -159,7 +159,7 @@ def garman_kohlhagen_price(
         # and S0 is the fx spot price (whose units is DOM/FOR)
         # To get the Δ % applicable to the foreign currency notional multiply the below by S0.
         results['numerical_greeks']['spot_delta'] = (X_S_plus - X_S_minus) / (2 * S0 * Δ_shift)
-        results['numerical_greeks']['forward_delta'] = numerical_greeks['spot_delta'] / np.exp(-r_f * tau)
+        results['numerical_greeks']['forward_delta'] = results['numerical_greeks']['spot_delta'] / np.exp(-r_f * tau)
 
         # Vega, ν, is the change in an options price for a small change in the volatility input
         # ν = ∂X/∂σ ≈ (X(σ_plus) − X(σ_minus)) / (σ_plus - σ_minus).
@@ -175,8 +175,8 @@ def garman_kohlhagen_price(
         #               i.e., the time value price tomorrow minus the time value price today.
         # 2. Cost of carry: the interest rate sensitivity that causes the value of the portfolio to change as time progresses,
         #                   e.g., the cost of carry on spots and forwards is included in the theta value.
-        X_plus = garman_kohlhagen_price(S0=S0, tau=tau+θ_shift, r_d=r_d, r_f=r_f, cp=cp, K=K, vol=σ, F=F)['price']
-        X_minus = garman_kohlhagen_price(S0=S0, tau=tau-θ_shift, r_d=r_d, r_f=r_f, cp=cp, K=K, vol=σ, F=F)['price']
+        X_plus = garman_kohlhagen_price(S0=S0, tau=tau+θ_shift, r_d=r, r_f=r_f, cp=cp, K=K, vol=σ)['price']
+        X_minus = garman_kohlhagen_price(S0=S0, tau=tau-θ_shift, r_d=r, r_f=r_f, cp=cp, K=K, vol=σ)['price']
         results['numerical_greeks']['theta'] = (X_minus - X_plus) / 2
 
         # Gamma, Γ, is the change in an option's delta for a small change in the underlying assets price.
@@ -184,9 +184,9 @@ def garman_kohlhagen_price(
         results['numerical_greeks']['gamma'] = (analytical_greeks_S0_plus['spot_delta'] - analytical_greeks_S0_minus['spot_delta']) / (2 * (Δ_shift / 0.01))
 
         # Rho, ρ, is the rate at which the price of an option changes relative to a change in the interest rate.
-        # This formulae will yield meaningfully different results on whether the forward rate is an input (or if it is calculated from the interest rate differential)
-        X_ρ_plus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r_d, r_f=r_f+ρ_shift, cp=cp, K=K, vol=σ+σ_shift, F=F)['price']
-        X_ρ_minus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r_d, r_f=r_f+ρ_shift, cp=cp, K=K, vol=σ-σ_shift, F=F)['price']
+        # The rate is the domestic rate (adjusted to the forward rate, if the forward rate is an input), as for the analytical rho.
+        X_ρ_plus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r+ρ_shift, r_f=r_f, cp=cp, K=K, vol=σ)['price']
+        X_ρ_minus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r-ρ_shift, r_f=r_f, cp=cp, K=K, vol=σ)['price']
         results['numerical_greeks']['rho'] = (X_ρ_plus - X_ρ_minus) / 2
 
     return results
-- 
2.43.0


From 079f530ec7cf5b2cb8e57f440df1145b32b458f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:49 +0000
Subject: [PATCH 48/79] fix: at-the-money put quote among premium-adjusted
 quotes was solved as a -0.5 delta, not the delta-neutral strike

---
 frm/pricing_engine/garman_kohlhagen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 7f71e24..edb4864 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -285,7 +285,7 @@ def garman_kohlhagen_solve_strike_from_delta(
                        
         if np.any(mask_not_atm):
             for i in range(len(Δ)):
-                if Δ[i] != 0.5:
+                if mask_not_atm[i]:
                     # For premium adjusted quotes the strike must be solved numerically. Refer to [1] for full details.
 
                     def solve_delta(K_):
-- 
2.43.0


From 6657d366828da4069c4a7a5544773fe70e7cfdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:49 +0000
Subject: [PATCH 49/79] fix: lower strike bound of premium-adjusted call deltas
 ignored the forward rate given

---
 frm/pricing_engine/garman_kohlhagen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index edb4864..58b2386 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -311,8 +311,8 @@ def garman_kohlhagen_solve_strike_from_delta(
                         # For the premium adjusted call Δ, due to non-monotonicity, two strikes can be solved numerically for call options (but not put options).
                         # To avoid this, we solve a lower bound, 'K_min' to guarantee we get the correct solution in the numerical solver.
                         # The lower bound is the 'maximum' Δ, hence we numerically solve the maximum Δ
-                        def solve_k_lower_bound(K): # TODO test and remove cp, F
-                            d1 = (np.log(S0 / K) + (r_d - r_f + 0.5 * σ[i]**2) * tau) / (σ[i] * np.sqrt(tau))
+                        def solve_k_lower_bound(K):
+                            d1 = (np.log(F / K) + 0.5 * σ[i]**2 * tau) / (σ[i] * np.sqrt(tau))
                             d2 = d1 - σ[i] * np.sqrt(tau)
                             return σ[i] * np.sqrt(tau) * norm.cdf(d2) - norm.pdf(d2)
                         
-- 
2.43.0


From 9e9c0a27df97107bf3e25d952a232b3d288dac00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:08 +0000
Subject: [PATCH 50/79] fix: implied volatility solver returned Newton iterates
 that do not reprice

---
 frm/pricing_engine/garman_kohlhagen.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 58b2386..1f7b637 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -400,7 +400,13 @@ def garman_kohlhagen_solve_implied_vol(
 
     try:
         # Try Netwon's method first (it's faster but less robust)
-        return newton(lambda vol_: error_function(vol_), x0=vol_guess, tol=1e-4, maxiter=50).item()
+        tol = 1e-4
+        vol = newton(lambda vol_: error_function(vol_), x0=vol_guess, tol=tol, maxiter=50).item()
+        # Newton's method stops on a small step in volatility, which does not imply the price is met (e.g. where vega is negligible).
+        # Accept the volatility only if it reprices, or if the solution lies within the tolerance.
+        if abs(error_function(vol).item()) > 1e-12 * S0 and (error_function(vol - tol) * error_function(vol + tol)).item() > 0:
+            raise RuntimeError("Newton's method stopped away from the solution")
+        return vol
     except RuntimeError:
         # Fallback to Brent's method
         try:
-- 
2.43.0


From ffd880e7badd351e446ca942c896524c33dd8427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:00 +0000
Subject: [PATCH 51/79] fix: second cumulant of the Heston log price in the
 cosine truncation range was wrong, truncating most of the density

---
 frm/pricing_engine/cosine_method_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/cosine_method_generic.py b/frm/pricing_engine/cosine_method_generic.py
index 966d1ea..fda9bf2 100644
--- a/frm/pricing_engine/cosine_method_generic.py
+++ b/frm/pricing_engine/cosine_method_generic.py
@@ -124,7 +124,7 @@ def get_cos_truncation_range(model, L, model_param):
             (η * tau * λ * np.exp(-λ * tau) * (u0 - u_bar) * (8 * λ * rho - 4 * η))
             + λ * rho * η * (1 - np.exp(-λ * tau)) * (16 * u_bar - 8 * u0)
             + 2 * u_bar * λ * tau * (-4 * λ * rho * η + η**2 + 4 * λ**2)
-            + η**2 * ((u_bar - 2 * u0) * np.exp(-2 * λ * tau) + u_bar * (6 * np.exp(-λ * tau) - 7) + 2 * u0)
+            + η**2 * ((u_bar - 2 * u0) * np.exp(-2 * λ * tau) + u_bar * (4 * np.exp(-λ * tau) - 5) + 2 * u0)
             + 8 * λ**2 * (u0 - u_bar) * (1 - np.exp(-λ * tau))
         )
                 
-- 
2.43.0


From f0672aac578dadc77efa8f743efbcf5b90560044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:00 +0000
Subject: [PATCH 52/79] fix: Heston-Lipton integrand used kappa in place of the
 integration variable

---
 frm/pricing_engine/heston.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/heston.py b/frm/pricing_engine/heston.py
index 0f8580c..588b402 100644
--- a/frm/pricing_engine/heston.py
+++ b/frm/pricing_engine/heston.py
@@ -700,8 +700,8 @@ def heston_lipton_vanilla_european_integral(v, S0, tau, r, q, K, var0, vv, kappa
     zeta_term = v**2 * vv**2 * (1 - rho**2) + 2j * v * vv * rho * kappa_hat + kappa_hat**2 + vv**2 / 4
     zeta = np.sqrt(zeta_term)
 
-    psi_plus = - (1j * kappa * rho * vv + kappa_hat) + zeta
-    psi_minus = (1j * kappa * rho * vv + kappa_hat) + zeta
+    psi_plus = - (1j * v * rho * vv + kappa_hat) + zeta
+    psi_minus = (1j * v * rho * vv + kappa_hat) + zeta
 
     numerator = psi_minus + psi_plus * np.exp(-zeta * tau)
     denominator = 2 * zeta
-- 
2.43.0


From b2d1498c879ff401aafaee366c7c4d99f7969ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:31 +0000
Subject: [PATCH 53/79] fix: correlated draws had the wrong variance and
 correlation (Cholesky factor transposed)

---
 frm/pricing_engine/monte_carlo_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/monte_carlo_generic.py b/frm/pricing_engine/monte_carlo_generic.py
index 004003c..fb6443d 100644
--- a/frm/pricing_engine/monte_carlo_generic.py
+++ b/frm/pricing_engine/monte_carlo_generic.py
@@ -77,7 +77,7 @@ def normal_corr(C: np.array,
     np.ndarray: Correlated pseudo random normal variates.
     """    
     
-    M = np.linalg.cholesky(C).T
+    M = np.linalg.cholesky(C) # lower triangular, M @ M.T = C
     return (M @ rand_nbs.T).T
 
 
-- 
2.43.0


From 6a8610dbe27aa971afb63aa0f3ca83b1fcc7c7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:31 +0000
Subject: [PATCH 54/79] fix: antithetic draws for an odd number of simulations
 lost a path and paired wrong paths

---
 frm/pricing_engine/monte_carlo_generic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/frm/pricing_engine/monte_carlo_generic.py b/frm/pricing_engine/monte_carlo_generic.py
index fb6443d..cbb6169 100644
--- a/frm/pricing_engine/monte_carlo_generic.py
+++ b/frm/pricing_engine/monte_carlo_generic.py
@@ -56,7 +56,9 @@ def generate_rand_nbs(nb_steps: int,
         rand_nbs = np.concatenate([rand_nbs_normal, rand_nbs_antithetic_variate], axis=2)
 
         # Reindex to pair normal with antithetic variates
-        idx = np.column_stack((np.arange(nb_pairs), np.arange(nb_pairs) + nb_pairs)).flatten()
+        nb_normal = nb_simulations - nb_pairs
+        idx = np.column_stack((np.arange(nb_pairs), np.arange(nb_pairs) + nb_normal)).flatten()
+        idx = np.append(idx, np.arange(nb_pairs, nb_normal)) # for an odd number of simulations, the last one is unpaired
         rand_nbs = rand_nbs[:, :, idx]
     else:    
         rand_nbs = np.random.normal(0, 1, (nb_steps, nb_rand_vars, nb_simulations))
-- 
2.43.0


From 53c58cea72ebef13be3591baccbbccea6f29191c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:25 +0000
Subject: [PATCH 55/79] fix: cosine pricer without put-call parity raised
 UnboundLocalError when all options were on one side

---
 frm/pricing_engine/heston.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/heston.py b/frm/pricing_engine/heston.py
index 588b402..ac35e11 100644
--- a/frm/pricing_engine/heston.py
+++ b/frm/pricing_engine/heston.py
@@ -645,8 +645,10 @@ def heston_cosine_price_vanilla_european(S0, tau, r, q, cp, K, var0, vv, kappa,
         if (cp == -1).any():
             put_px = K * np.multiply(Fk, Uk_put).sum(axis=0) * np.exp(-r * tau)
 
-    result[cp == 1] = call_px[cp == 1]
-    result[cp == -1] = put_px[cp == -1]
+    if (cp == 1).any():
+        result[cp == 1] = call_px[cp == 1]
+    if (cp == -1).any():
+        result[cp == -1] = put_px[cp == -1]
 
     return result
 
-- 
2.43.0


From 558209848eeeb4a3178f1c2fe45107cdb106f0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:38 +0000
Subject: [PATCH 56/79] fix: cosine pricer did not shift the truncation range
 by ln(S0/K), mispricing strikes far from spot (long dated or high carry)

---
 frm/pricing_engine/heston.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/frm/pricing_engine/heston.py b/frm/pricing_engine/heston.py
index ac35e11..1ab3322 100644
--- a/frm/pricing_engine/heston.py
+++ b/frm/pricing_engine/heston.py
@@ -539,7 +539,6 @@ def calculate_Uk_european_options(cp, a, b, k):
 
     def calc_chi(k, c, d):
         # Calculate χ, chi, Per equation 22 from [1] (page 6 of 21)
-        χ = np.zeros(shape=k.shape)
         term1 = 1.0 / (1.0 + np.power((k * np.pi / (b - a)) , 2.0))
         term2 = np.cos(k * np.pi * (d - a)/(b - a)) * np.exp(d)
         term3 = np.cos(k * np.pi  * (c - a) / (b - a)) * np.exp(c)
@@ -550,21 +549,23 @@ def calculate_Uk_european_options(cp, a, b, k):
 
     def calc_psi(k, c, d):
         # Calculate Ψ, psi, per equation 23 from [1] (page 6 of 21)
-        Ψ = np.zeros(shape=k.shape)
+        Ψ = np.zeros(shape=np.broadcast(k, d - c).shape)
         Ψ[1:] = (np.sin(k[1:] * np.pi * (d-a) / (b-a)) - np.sin(k[1:] * np.pi * (c-a) / (b-a))) * (b-a) / (k[1:] * np.pi)
         Ψ[0] = d - c
         return Ψ
 
     if cp == 1:
         # For call, c=0, d=b per equation 29 from [1] (page 7 of 21)
-        χ = calc_chi(k=k, c=0, d=b)
-        Ψ = calc_psi(k=k, c=0, d=b)
+        c = np.clip(0, a, b)
+        χ = calc_chi(k=k, c=c, d=b)
+        Ψ = calc_psi(k=k, c=c, d=b)
         Uk_call = (2 / (b-a)) * (χ - Ψ)
         return Uk_call
     elif cp == -1:
         # For put, c=a, d]0, per equation 29 from [1] (page 7 of 21)
-        χ = calc_chi(k=k, c=a, d=0)
-        Ψ = calc_psi(k=k, c=a, d=0)
+        d = np.clip(0, a, b)
+        χ = calc_chi(k=k, c=a, d=d)
+        Ψ = calc_psi(k=k, c=a, d=d)
         Uk_put = (2 / (b-a)) * (-χ + Ψ)
         return Uk_put
 
@@ -625,15 +626,16 @@ def heston_cosine_price_vanilla_european(S0, tau, r, q, cp, K, var0, vv, kappa,
 
     u = (k*np.pi)/(b-a)
     chf = chf_heston_fang2008(u=u, tau=tau, r=r, q=q, var0=var0, vv=vv, kappa=kappa, theta=theta, rho=rho)
-    Fk = np.real(chf[:, np.newaxis]  * np.exp(1j * k[:, np.newaxis] * np.pi * (x0 - a)/(b-a)))
+    # [a, b] is the truncation range of ln(S_T/S0). Each strike's range, for ln(S_T/K), is this shifted by x0 per section 3.1 of [1]
+    Fk = np.real(chf * np.exp(-1j * k * np.pi * a/(b-a)))[:, np.newaxis]
     Fk[0] = 0.5 * Fk[0] # Per page 3/21 of [1], "where Σ′ indicates that the first term in the summation is weighted by one-half"
 
 
     if calculate_via_put_call_parity or (cp == -1).any():
-        Uk_put = calculate_Uk_european_options(cp=-1, a=a, b=b, k=k)[:, np.newaxis] # Per equation 29 of [1] (page 8 of 21)
+        Uk_put = calculate_Uk_european_options(cp=-1, a=x0+a, b=x0+b, k=k[:, np.newaxis]) # Per equation 29 of [1] (page 8 of 21)
 
     if not calculate_via_put_call_parity and (cp == 1).any():
-        Uk_call = calculate_Uk_european_options(cp=1, a=a, b=b, k=k)[:, np.newaxis] # Per equation 29 of [1] (page 8 of 21)
+        Uk_call = calculate_Uk_european_options(cp=1, a=x0+a, b=x0+b, k=k[:, np.newaxis]) # Per equation 29 of [1] (page 8 of 21)
 
     if calculate_via_put_call_parity:
         # Method by put-call parity is more stable
-- 
2.43.0


From 047e12418117ed9fe072e8b150e6a54ce5904321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:12 +0000
Subject: [PATCH 57/79] fix: Heston calibration returned poor fits when the
 gradient search stalled next to a parameter bound

---
 frm/pricing_engine/heston.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/frm/pricing_engine/heston.py b/frm/pricing_engine/heston.py
index 1ab3322..49d7d04 100644
--- a/frm/pricing_engine/heston.py
+++ b/frm/pricing_engine/heston.py
@@ -190,9 +190,13 @@ def heston_calibrate_vanilla_smile(
     # Set initial values for vv, theta, rho (the parameters we are solving for)
     init_param = np.array([2 * np.sqrt(var0), 2*var0, 0])
 
-    res = scipy.optimize.minimize(
-        lambda param: calibration_helper(param, var0=var0, kappa=kappa, S0=S0, tau=tau, r=r, q=q, cp=cp, K=strikes, volatility_quotes=volatility_quotes, method=0),
-        init_param)
+    sse_func = lambda param: calibration_helper(param, var0=var0, kappa=kappa, S0=S0, tau=tau, r=r, q=q, cp=cp, K=strikes, volatility_quotes=volatility_quotes, method=0)
+    res = scipy.optimize.minimize(sse_func, init_param)
+    if not res.success:
+        # The gradient based search can stall next to the bounds of vv, theta or rho; continue with a derivative free search
+        res_nelder_mead = scipy.optimize.minimize(sse_func, res.x, method='Nelder-Mead')
+        if res_nelder_mead.fun < res.fun:
+            res = res_nelder_mead
     vv, theta, rho = res.x
 
     if 2 * kappa * theta - vv**2 <= 0.0:
-- 
2.43.0


From 65e74564b5a377a10bc7133e069a8d4d9024e4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:52 +0000
Subject: [PATCH 58/79] fix: Euler Heston paths left the last variance negative

---
 frm/pricing_engine/heston.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/frm/pricing_engine/heston.py b/frm/pricing_engine/heston.py
index 49d7d04..54110f4 100644
--- a/frm/pricing_engine/heston.py
+++ b/frm/pricing_engine/heston.py
@@ -818,12 +818,12 @@ def heston_simulate_scalar(
     elif method[:5] == 'euler':
         x[0, :] = [S0, var0]
         for i in range(1, nb_timesteps + 1):
+            x[i, 1] = x[i - 1, 1] + kappa * (theta - x[i - 1, 1]) * dt + vv * np.sqrt(x[i - 1, 1]) * u[i - 1, 1]
             if method == 'euler_with_absorption_of_volatility_process':
-                x[i - 1, 1] = max(x[i - 1, 1], 0)
+                x[i, 1] = max(x[i, 1], 0)
             elif method == 'euler_with_reflection_of_volatility_process':
-                x[i - 1, 1] = abs(x[i - 1, 1])
+                x[i, 1] = abs(x[i, 1])
 
-            x[i, 1] = x[i - 1, 1] + kappa * (theta - x[i - 1, 1]) * dt + vv * np.sqrt(x[i - 1, 1]) * u[i - 1, 1]
             x[i, 0] = x[i - 1, 0] + x[i - 1, 0] * (mu * dt + np.sqrt(x[i - 1, 1]) * u[i - 1, 0])
 
     return x
@@ -939,13 +939,13 @@ def heston_simulate(
         x[0, 1, :] = var0
 
         for i in range(1, nb_timesteps + 1):
+            x[i, 1, :] = x[i - 1, 1, :] \
+                         + kappa * (theta - x[i - 1, 1, :]) * dt + vv * np.sqrt(x[i - 1, 1, :]) * u[i - 1, 1, :]
             if method == 'euler_with_absorption_of_volatility_process':
-                x[i - 1, 1, :] = np.maximum(0, x[i - 1, 1, :])
+                x[i, 1, :] = np.maximum(0, x[i, 1, :])
             elif method == 'euler_with_reflection_of_volatility_process':
-                x[i - 1, 1, :] = np.abs(x[i - 1, 1, :])
+                x[i, 1, :] = np.abs(x[i, 1, :])
 
-            x[i, 1, :] = x[i - 1, 1, :] \
-                         + kappa * (theta - x[i - 1, 1, :]) * dt + vv * np.sqrt(x[i - 1, 1, :]) * u[i - 1, 1, :]
             x[i, 0, :] = x[i - 1, 0, :] \
                          + x[i - 1, 0, :] * (mu * dt + np.sqrt(x[i - 1, 1, :]) * u[i - 1, 0, :])
 
-- 
2.43.0


From 7933f84e0d747ecec4d60fa1c80bd9efdeab86c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:39 +0000
Subject: [PATCH 59/79] fix: fitting SABR to a smile without a shift raised
 TypeError (default shift None)

---
 frm/pricing_engine/sabr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/sabr.py b/frm/pricing_engine/sabr.py
index f084f74..3fd219e 100644
--- a/frm/pricing_engine/sabr.py
+++ b/frm/pricing_engine/sabr.py
@@ -190,7 +190,7 @@ def fit_sabr_params_to_sln_smile(tau: float,
                                  F: float,
                                  K: NDArray[float],
                                  vols_sln: NDArray[float],
-                                 ln_shift: float=None,
+                                 ln_shift: float=0.0,
                                  beta_overide: Optional[float]=None)-> tuple:
     """
     Calibrates SABR parameters to a volatility smile of European option prices using the Hagan 2002 (lognormal) SABR model and the Black76 formula.
-- 
2.43.0


From 34649ac697e301e407817a0bc4744029205cc6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:41 +0000
Subject: [PATCH 60/79] fix: SABR smile fit stopped far from the optimum or
 failed: the sum of squared volatility errors is below the stopping tolerances
 of the general minimiser

---
 frm/pricing_engine/sabr.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frm/pricing_engine/sabr.py b/frm/pricing_engine/sabr.py
index 3fd219e..300ccdc 100644
--- a/frm/pricing_engine/sabr.py
+++ b/frm/pricing_engine/sabr.py
@@ -222,7 +222,7 @@ def fit_sabr_params_to_sln_smile(tau: float,
         SABR parameters (alpha, beta, rho, volvol), scipy.optimize.OptimizeResult
     """
 
-    def vol_sse(param):
+    def vol_errors(param):
         if beta_overide is None:
             beta_, rho_, volvol_ = param
         else:
@@ -231,7 +231,7 @@ def fit_sabr_params_to_sln_smile(tau: float,
 
         alpha_ = solve_alpha_from_sln_vol(tau=tau, F=F, beta=beta_, rho=rho_, volvol=volvol_, vol_sln_atm=vol_sln_atm, ln_shift=ln_shift)
         sabr_vols = calc_sln_vol_for_strike_from_sabr_params(tau=tau, F=F, alpha=alpha_, beta=beta_, rho=rho_, volvol=volvol_ ,K=K, ln_shift=ln_shift)
-        return sum((vols_sln - sabr_vols) ** 2)
+        return vols_sln - sabr_vols
 
     # ATM volatility check
     vol_sln_atm = vols_sln[np.isclose(K, F)]
@@ -245,8 +245,8 @@ def fit_sabr_params_to_sln_smile(tau: float,
     # rho has a valid range of -1≤ρ≤1
     # volvol has a valid range of 0<v≤∞
     x0 = np.array([0.00, 0.10]) if beta_overide is not None else np.array([0.0, 0.0, 0.1])
-    bounds = [(-1.0, 1.0), (0.0001, None)] if beta_overide is not None else [(-1.0, 1.0), (-1.0, 1.0), (0.0001, None)]
-    res = scipy.optimize.minimize(fun=lambda param: vol_sse(param), x0=x0, bounds=bounds)
+    bounds = ([-1.0, 0.0001], [1.0, np.inf]) if beta_overide is not None else ([-1.0, -1.0, 0.0001], [1.0, 1.0, np.inf])
+    res = scipy.optimize.least_squares(fun=vol_errors, x0=x0, bounds=bounds, ftol=1e-10, xtol=1e-10, gtol=1e-10, max_nfev=1000)
 
     if res.success:
         beta, rho, volvol = (beta_overide, *res.x) if beta_overide is not None else res.x
-- 
2.43.0


From 941598c8c89a02fba2b8fc6850ceb3d0588dc1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:34 +0000
Subject: [PATCH 61/79] fix: simulate_gbm_path: give each underlying its own
 start, drift and volatility across paths, and accept a single timestep

---
 frm/pricing_engine/geometric_brownian_motion.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/frm/pricing_engine/geometric_brownian_motion.py b/frm/pricing_engine/geometric_brownian_motion.py
index 4676e87..2d481af 100644
--- a/frm/pricing_engine/geometric_brownian_motion.py
+++ b/frm/pricing_engine/geometric_brownian_motion.py
@@ -56,15 +56,16 @@ def simulate_gbm_path(initial_px: np.array,
     # if initial_px.ndim == 1:
     #     initial_px = initial_px.reshape(1, -1)
 
-    if drift.shape[0] == 1:
+    # A single row is one underlying over many timesteps, unless there is only one timestep
+    nb_timesteps = timestep_length.shape[0]
+    if drift.shape[0] == 1 and nb_timesteps != 1:
         drift = drift.reshape(-1, 1)
-    if forward_volatility.shape[0] == 1:
+    if forward_volatility.shape[0] == 1 and nb_timesteps != 1:
         forward_volatility = forward_volatility.reshape(-1, 1)
     if initial_px.shape[0] == 1:
         initial_px = initial_px.reshape(1, -1)
 
     # Shape checks
-    nb_timesteps = timestep_length.shape[0]
     assert nb_timesteps == drift.shape[0]
     assert nb_timesteps == forward_volatility.shape[0]
     assert nb_timesteps == rand_nbs.shape[0]
@@ -77,12 +78,13 @@ def simulate_gbm_path(initial_px: np.array,
 
     # Initialise shape and set initial value of underlying(s)
     x = np.zeros((rand_nbs.shape[0]+1, rand_nbs.shape[1], rand_nbs.shape[2]))
-    x[0, :, :] = initial_px
+    x[0, :, :] = initial_px.T
 
     # Simulate per geometric brownian motion process
     for i in range(0, nb_timesteps):
-        x[i+1, :, :] = x[i, :, :] * np.exp((drift[i, :] - 0.5 * (forward_volatility[i, :] ** 2)) *
-                                           timestep_length[i] + forward_volatility[i, :] * np.sqrt(timestep_length[i]) * rand_nbs[i, :, :])
+        drift_i, vol_i = drift[i, :, np.newaxis], forward_volatility[i, :, np.newaxis]
+        x[i+1, :, :] = x[i, :, :] * np.exp((drift_i - 0.5 * (vol_i ** 2)) *
+                                           timestep_length[i] + vol_i * np.sqrt(timestep_length[i]) * rand_nbs[i, :, :])
 
     return x
 
-- 
2.43.0


From aac0b23ad78e857cb8d90f6df86d1c91c616e363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 62/79] fix: forward_volatility / flat_forward_interp: accept
 the documented scalars and integers, refuse reversed times even when others
 coincide, and stay within the boundaries as documented

---
 frm/pricing_engine/volatility_generic.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/frm/pricing_engine/volatility_generic.py b/frm/pricing_engine/volatility_generic.py
index 1c91c05..3edbc62 100644
--- a/frm/pricing_engine/volatility_generic.py
+++ b/frm/pricing_engine/volatility_generic.py
@@ -35,11 +35,13 @@ def forward_volatility(t1: float | np.ndarray,
     - Negative values under the square root indicate inconsistent input volatilities and will raise an error.
     """
 
-    tau = t2 - t1
+    tau = np.subtract(t2, t1, dtype=float)
     if np.any(tau == 0):
         mask = tau == 0
-        warnings.warn(f"t2 and t1 are equal. NaN will be returned for these values: t1 {t1[mask]}, t2 {t2[mask]}")
-    elif np.any(tau < 0):
+        t1_equal = np.broadcast_to(t1, tau.shape)[mask]
+        warnings.warn(f"t2 and t1 are equal. NaN will be returned for these values: t1 {t1_equal}, t2 {t1_equal}")
+        tau = np.where(mask, np.nan, tau)
+    if np.any(tau < 0):
         raise ValueError("t2 is less than t1.")
 
     var_t1_t2 = (vol_t2 ** 2 * t2 - vol_t1 ** 2 * t1) / tau
@@ -71,8 +73,10 @@ def flat_forward_interp(t1: float | np.ndarray,
     - If t is outside the range [t1, t2], the function will not compute interpolation and will use the input boundaries.
     - Assumes a flat forward interpolation model, where volatilities are averaged in a time-weighted manner.
     """
+    t1, vol_t1, t2, vol_t2, t = np.broadcast_arrays(*[np.asarray(x, dtype=float) for x in (t1, vol_t1, t2, vol_t2, t)])
+    t = np.clip(t, t1, t2)
     vol_t12 = np.zeros_like(vol_t1)
-    mask = (t1 != t2).flatten()
+    mask = t1 != t2
     vol_t12[mask] = forward_volatility(t1[mask], vol_t1[mask], t2[mask], vol_t2[mask])
     return np.sqrt((vol_t1 ** 2 * t1 + vol_t12 ** 2 * (t - t1)) / t)
 
-- 
2.43.0


From f905ab54aba6319370ba5d57aa2cf74b83181047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:47 +0000
Subject: [PATCH 63/79] fix: HullWhite1Factor.get_thetas: use the forward
 curve, a debugging branch replaced it with a flat curve at r0

---
 frm/pricing_engine/hw1f.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index cd606b5..6f9bea3 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -135,14 +135,9 @@ class HullWhite1Factor:
         f_t_minus_dt = self.zero_curve.get_instantaneous_forward_rate(years=years-self.dt)
         df_dt = (f_t_plus_dt - f_t_minus_dt) / (2 * self.dt)
 
-        if True:
-            f_t = np.full_like(years, self.r0)
-            return α * f_t + (σ**2 / (2*α)) * (1 - np.exp(-2 * α * years))
-        else:
-
-            return df_dt \
-                   + α * f_t \
-                   + (σ**2 / (2*α)) * (1 - np.exp(-2 * α * years))
+        return df_dt \
+               + α * f_t \
+               + (σ**2 / (2*α)) * (1 - np.exp(-2 * α * years))
 
 
     def get_forward_rate_by_integration(self,t, T):
-- 
2.43.0


From 47402bbf99e1cbea52121ce98eaad457e249ca17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:47 +0000
Subject: [PATCH 64/79] fix: HullWhite1Factor.price_zero_coupon_bond_option:
 restore the parameter names its callers (optionlet, swaption) use

---
 frm/pricing_engine/hw1f.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index 6f9bea3..74fccc1 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -300,8 +300,8 @@ class HullWhite1Factor:
 
 
     def price_zero_coupon_bond_option(self,
-                                      option_expiry: float,
-                                      bond_maturity: float,
+                                      expiry_years: float,
+                                      maturity_years: float,
                                       K: float,
                                       cp: int,
                                       t0: float=0):
@@ -331,8 +331,8 @@ class HullWhite1Factor:
 
         σ = self.vol
         α = self.mean_rev_lvl
-        T = np.atleast_1d(option_expiry) # Aligning to the notation in [1]
-        S = np.atleast_1d(bond_maturity) # Aligning to the notation in [1]
+        T = np.atleast_1d(expiry_years) # Aligning to the notation in [1]
+        S = np.atleast_1d(maturity_years) # Aligning to the notation in [1]
         K = np.atleast_1d(K)
         cp = np.atleast_1d(cp)
 
@@ -363,7 +363,7 @@ class HullWhite1Factor:
             price[zero_σ_mask] = np.maximum(cp * (F - K), 0.0)[zero_σ_mask]
 
         # Set option value to zero if maturity is before expiry
-        price[bond_maturity < option_expiry] = 0.0
+        price[maturity_years < expiry_years] = 0.0
 
         return price
 
-- 
2.43.0


From cba091be2c3e3c7d4b744c02d214e529346b8ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:47 +0000
Subject: [PATCH 65/79] fix: HullWhite1Factor.price_zero_coupon_bond_option:
 broadcast size-1 inputs and discount the zero-variance intrinsic value

---
 frm/pricing_engine/hw1f.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index 74fccc1..bbe013f 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -338,6 +338,7 @@ class HullWhite1Factor:
 
         max_dim = np.maximum.reduce([x.size for x in [T, S, K, cp]])
         assert all((x.size == 1) or (x.size == max_dim) for x in [T, S, K, cp]), "Arrays must be of size 1 or match maximum dimension"
+        T, S, K, cp = np.broadcast_arrays(*[x.ravel() for x in (T, S, K, cp)])
 
         if not np.all(S > T):
             warnings.warn("Bond maturities should be after the bond option expiries")
@@ -359,11 +360,10 @@ class HullWhite1Factor:
 
         # Handle zero variance case (set to intrinsic value)
         if np.any(zero_σ_mask):
-            F = P_t_S / P_t_T # forward bond price
-            price[zero_σ_mask] = np.maximum(cp * (F - K), 0.0)[zero_σ_mask]
+            price[zero_σ_mask] = np.maximum(cp * (P_t_S - K * P_t_T), 0.0)[zero_σ_mask]
 
         # Set option value to zero if maturity is before expiry
-        price[maturity_years < expiry_years] = 0.0
+        price[S < T] = 0.0
 
         return price
 
-- 
2.43.0


From 3755d6837f5d8fc1e0f0159ce2ef04d6022d267b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:47 +0000
Subject: [PATCH 66/79] fix: HullWhite1Factor.price_swaption: pair every coupon
 with its own strike and option value, accept a single coupon

---
 frm/pricing_engine/hw1f.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index bbe013f..1293d00 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -625,7 +625,7 @@ class HullWhite1Factor:
         if not all(x < y for x, y in zip(coupon_payment_times[:-1], coupon_payment_times[1:])):
             raise ValueError("coupon_payment_times must be strictly increasing")
 
-        if notional_payment_time < coupon_payment_times[-2]:
+        if len(coupon_payment_times) > 1 and notional_payment_time < coupon_payment_times[-2]:
             raise ValueError("notional_payment_time must not be earlier than the 2nd to last coupon payment")
 
         # Find critical rate r* (x* in paper) by solving _zero_function(r*) = 0
@@ -688,7 +688,7 @@ class HullWhite1Factor:
         )
 
         # Determine strikes and coefficients for each component bond option
-        coupon_strikes = critical_bond_prices[:-1]
+        coupon_strikes = critical_bond_prices[:len(coupon_payment_times)] # the notional may be paid with the last coupon
         notional_strike = critical_bond_prices[-1]
 
         # For a payer swaption:
@@ -706,7 +706,7 @@ class HullWhite1Factor:
                 maturity_years=payment_time,
                 K=strike,
                 cp=cp
-            ) for payment_time, strike in zip(coupon_payment_times, coupon_strikes)
+            )[0] for payment_time, strike in zip(coupon_payment_times, coupon_strikes)
         ])
 
         # Price the bond option for notional payment
@@ -715,7 +715,7 @@ class HullWhite1Factor:
             maturity_years=notional_payment_time,
             K=notional_strike,
             cp=cp
-        )
+        )[0]
 
         # Sum up the components with their coefficients:
         # 1. Coupon payments: multiply by fixed_rate * year_fraction
-- 
2.43.0


From 87c957cd9946f9dc15fee03b21e1573f5bcf3278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:47 +0000
Subject: [PATCH 67/79] fix: HullWhite1Factor.fit_theta: skip the t=0 pillar
 and leave the best fit set up

---
 frm/pricing_engine/hw1f.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index 1293d00..311f630 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -73,12 +73,14 @@ class HullWhite1Factor:
         dt, num, _ = results[0]
         self.dt = dt
         self.num = num
+        self.setup_theta()
 
 
     def calc_error_for_theta_fit(self, print_results=False):
         """Calculate the basis point error between the pillar zero rates and the theta fit."""
-        years_pillars = self.zero_curve.pillar_df['years'].values
-        cczr_pillars = self.zero_curve.pillar_df['cczr'].values
+        mask = self.zero_curve.pillar_df['years'] > 0 # no zero rate to compare at t=0
+        years_pillars = self.zero_curve.pillar_df.loc[mask, 'years'].values
+        cczr_pillars = self.zero_curve.pillar_df.loc[mask, 'cczr'].values
 
         cczr_recalcs = np.array([-1*np.log(self.calc_discount_factor_by_solving_ode_1(0, yr))/yr for yr in years_pillars])
         diff_bps = 1e4 * (cczr_pillars - cczr_recalcs)
-- 
2.43.0


From c4c3edd4b6ffd204fced361b1e8d03043b501131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:07 +0000
Subject: [PATCH 68/79] fix:
 HullWhite1Factor.calc_discount_factor_by_solving_ode_1: break the theta
 integral at the pillars (quadrature converged to a wrong value)

---
 frm/pricing_engine/hw1f.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index 311f630..e5e3a53 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -462,8 +462,11 @@ class HullWhite1Factor:
                 return scipy.interpolate.splev(t, self.theta_spline) * self.calc_b(t, t2)
 
             integrand_1_res = scipy.integrate.quad(func=integrand_1, a=t1, b=t2)[0]
-            # The 2nd integral is trickier. Increase limit to 100 (from default of 50) for better accuracy.
-            integrand_2_res = scipy.integrate.quad(func=integrand_2, a=t1, b=t2, limit=100)[0]
+            # The 2nd integral is trickier. Increase limit to 100 (from default of 50) for better accuracy,
+            # and break it at the pillars, where θ(t) has kinks.
+            years_pillars = self.zero_curve.pillar_df['years'].values.astype(float)
+            integrand_2_res = scipy.integrate.quad(func=integrand_2, a=t1, b=t2, limit=100,
+                                                   points=years_pillars[(years_pillars > t1) & (years_pillars < t2)])[0]
 
             return 0.5 * self.vol ** 2 * integrand_1_res - integrand_2_res
 
-- 
2.43.0


From 6a6412d21417f6675e1543a34536e2231fe15974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 69/79] fix: fx_term_structure_helper: derive the missing
 fixing or delivery date (spot lag forward from fixing, backward from
 delivery), tenor column optional as documented

---
 frm/term_structures/fx_helpers.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index 8f26775..355f4ac 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -21,7 +21,8 @@ def fx_term_structure_helper(df: pd.DataFrame,
                              cal: np.busdaycalendar,
                              rate_set_date_str: str) -> pd.DataFrame:
 
-    df['tenor'] = df['tenor'].apply(clean_tenor)
+    if 'tenor' in df.columns:
+        df['tenor'] = df['tenor'].apply(lambda tenor: clean_tenor(tenor) if pd.notna(tenor) else tenor)
 
     mandatory_columns_at_least_one_of = [['tenor',rate_set_date_str,'delivery_date']]
     for column_set in mandatory_columns_at_least_one_of:
@@ -38,11 +39,13 @@ def fx_term_structure_helper(df: pd.DataFrame,
     # 3. Otherwise, calculate the rate-set date and delivery date from the tenor
     for i, row in df.iterrows():
         if pd.notna(row['delivery_date']):
-            pass
+            if pd.isna(row[rate_set_date_str]):
+                delivery_date_np = row['delivery_date'].to_numpy().astype('datetime64[D]')
+                df.at[i,rate_set_date_str] = np.busday_offset(delivery_date_np, offsets=-1*spot_offset, roll='preceding',busdaycal=cal)
         elif pd.notna(row[rate_set_date_str]):
-            rate_set_date_np = row[rate_set_date_str].astype('datetime64[D]')
-            df.at[i,'delivery_date'] = np.busday_offset(rate_set_date_np, offsets=-1*spot_offset, roll='preceding',busdaycal=cal)
-        elif pd.notna(row['tenor']):
+            rate_set_date_np = row[rate_set_date_str].to_numpy().astype('datetime64[D]')
+            df.at[i,'delivery_date'] = np.busday_offset(rate_set_date_np, offsets=spot_offset, roll='following',busdaycal=cal)
+        elif pd.notna(row.get('tenor')):
             date_offset = tenor_to_date_offset(row['tenor'])
             rate_set_date = curve_date + date_offset
             rate_set_date_np = rate_set_date.to_numpy().astype('datetime64[D]')
-- 
2.43.0


From f7ed22d3aa2270b375ac08fcca298184f8a1492d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 70/79] fix: check_delta_convention: eurusd is the
 market-convention pair (was the non-existent nzdeur); do not require a tenor
 column

---
 frm/term_structures/fx_helpers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index 355f4ac..12a630d 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -107,17 +107,18 @@ def validate_ccy_pair(ccy_pair):
 
 def check_delta_convention(df: pd.DataFrame, ccy_pair: str) -> pd.DataFrame:
 
-    bool_cond = np.logical_and(ccy_pair in ['audusd', 'nzdeur', 'gbpusd', 'nzdusd'],
+    bool_cond = np.logical_and(ccy_pair in ['audusd', 'eurusd', 'gbpusd', 'nzdusd'],
                                df['delta_convention'].str.contains('premium_adjusted'))
+    term_column = next(column for column in ['tenor', 'expiry_date', 'delivery_date'] if column in df.columns)
     df.loc[bool_cond, 'warnings'] += 'the regular delta is the market delta_convention for this currency pair\n'
     if bool_cond.any():
         warnings.warn('The delta_convention is premium_adjusted for the following tenors: '
-                      f'{df.loc[bool_cond, "tenor"].unique()} for the currency pair {ccy_pair}. '
+                      f'{df.loc[bool_cond, term_column].unique()} for the currency pair {ccy_pair}. '
                       'The market convention is to use the regular delta. '
                       'Please ensure that the delta_convention is consistent with the market convention.')
 
     conditions_for_premium_adjusted_delta_convention = [
-        np.full(len(df), np.logical_not(ccy_pair in ['audusd', 'nzdeur', 'gbpusd', 'nzdusd', 'usdaud', 'usdeur', 'usdgbp', 'usdnzd'])),
+        np.full(len(df), np.logical_not(ccy_pair in ['audusd', 'eurusd', 'gbpusd', 'nzdusd', 'usdaud', 'usdeur', 'usdgbp', 'usdnzd'])),
         np.full(len(df), 'usd' in ccy_pair),
         df['delta_convention'].str.contains('regular').values]
     bool_cond = np.logical_and.reduce(conditions_for_premium_adjusted_delta_convention)
@@ -125,7 +126,7 @@ def check_delta_convention(df: pd.DataFrame, ccy_pair: str) -> pd.DataFrame:
 
     if bool_cond.any():
         warnings.warn('The delta_convention is regular for the following tenors: '
-                      f'{df.loc[bool_cond, "tenor"].unique()} for the currency pair {ccy_pair}. '
+                      f'{df.loc[bool_cond, term_column].unique()} for the currency pair {ccy_pair}. '
                       'The market convention is to use the premium adjusted delta. '
                       'Please ensure that the delta_convention is consistent with the market convention.')
 
-- 
2.43.0


From 8cba5200270bc7c0c4d46ebbe309cbea76f7a3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 71/79] fix: FX quote helpers: work on copies, building a
 volatility surface renamed and dropped columns of the caller's quotes and
 rewrote its forward curve

---
 frm/term_structures/fx_helpers.py | 6 +++++-
 frm/utils/utilities.py            | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index 12a630d..11e10ff 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -21,6 +21,7 @@ def fx_term_structure_helper(df: pd.DataFrame,
                              cal: np.busdaycalendar,
                              rate_set_date_str: str) -> pd.DataFrame:
 
+    df = df.copy()
     if 'tenor' in df.columns:
         df['tenor'] = df['tenor'].apply(lambda tenor: clean_tenor(tenor) if pd.notna(tenor) else tenor)
 
@@ -107,6 +108,7 @@ def validate_ccy_pair(ccy_pair):
 
 def check_delta_convention(df: pd.DataFrame, ccy_pair: str) -> pd.DataFrame:
 
+    df = df.copy()
     bool_cond = np.logical_and(ccy_pair in ['audusd', 'eurusd', 'gbpusd', 'nzdusd'],
                                df['delta_convention'].str.contains('premium_adjusted'))
     term_column = next(column for column in ['tenor', 'expiry_date', 'delivery_date'] if column in df.columns)
@@ -149,7 +151,7 @@ def clean_vol_quotes_column_names(vol_quotes_df):
             match = re.match(pattern, col_name)
             if match:
                 new_col_name = func(match)
-                vol_quotes_df.rename(columns={col_name: new_col_name}, inplace=True)
+                vol_quotes_df = vol_quotes_df.rename(columns={col_name: new_col_name})
                 break
 
     return vol_quotes_df
@@ -157,6 +159,8 @@ def clean_vol_quotes_column_names(vol_quotes_df):
 
 def solve_call_put_quotes_from_strategy_quotes(vol_quotes_df):
 
+    vol_quotes_df = vol_quotes_df.copy()
+
     risk_reversal_deltas = sorted([col_name.split('_')[0] for col_name in vol_quotes_df.columns if 'riskreversal' in col_name])
     butterfly_deltas = sorted([col_name.split('_')[0] for col_name in vol_quotes_df.columns if 'butterfly' in col_name])
 
diff --git a/frm/utils/utilities.py b/frm/utils/utilities.py
index b121818..1bc5002 100644
--- a/frm/utils/utilities.py
+++ b/frm/utils/utilities.py
@@ -7,6 +7,7 @@ import pandas as pd
 #from frm.utils.tenor import get_tenor_settlement_date
 
 def convert_column_to_consistent_data_type(df: pd.DataFrame):
+    df = df.copy()
     for col in df.columns:
        if df[col].apply(isinstance, args=(float,)).all():
            df[col] = pd.to_numeric(df[col])
-- 
2.43.0


From 427403591e1c5d0e5e61e0933163cd6f51e7a4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 72/79] fix: rate option quote headers: whole basis points were
 truncated (3bps became 2bps), percentages were labelled as basis points
 unscaled (0.5% became 0.5bps), upper-case BPS raised

---
 frm/term_structures/interest_rate_option_helpers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/frm/term_structures/interest_rate_option_helpers.py b/frm/term_structures/interest_rate_option_helpers.py
index c8d0fb2..3c1da2a 100644
--- a/frm/term_structures/interest_rate_option_helpers.py
+++ b/frm/term_structures/interest_rate_option_helpers.py
@@ -166,14 +166,14 @@ def standardise_relative_quote_col_names(col_names: list[str]):
     # Relative Quotes
     for col_name in col_names:
         if re.search(bps_quote, col_name, re.IGNORECASE):
-            v = round(float(col_name.replace('bps', '').replace('bp', '').replace(' ', '')) / 10000,8)
-            new_col_name = (str(int(v * 10000)) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
+            v = round(float(col_name.lower().replace('bps', '').replace('bp', '').replace(' ', '')) / 10000,8)
+            new_col_name = (str(int(round(v * 10000,8))) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_adj_to_forward[new_col_name] = v
 
         elif re.search(percentage_quote, col_name, re.IGNORECASE):
             v = round(float(col_name.replace('%', '').replace(' ', '')) / 100,8)
-            new_col_name = (str(int(v * 100)) if (round(v * 100,8)).is_integer() else str(round(v * 100, 8))) + 'bps'
+            new_col_name = (str(int(round(v * 10000,8))) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_adj_to_forward[new_col_name] = v
 
@@ -188,14 +188,14 @@ def standardise_absolute_quote_col_names(col_names: list[str]):
 
     for col_name in col_names:
         if re.search(bps_quote, col_name, re.IGNORECASE):
-            v = round(float(col_name.replace('bps', '').replace('bp', '').replace(' ', '')) / 10000,8)
-            new_col_name = (str(int(v * 10000)) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
+            v = round(float(col_name.lower().replace('bps', '').replace('bp', '').replace(' ', '')) / 10000,8)
+            new_col_name = (str(int(round(v * 10000,8))) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_strike[new_col_name] = v
 
         elif re.search(percentage_quote, col_name, re.IGNORECASE):
             v = round(float(col_name.replace('%', '').replace(' ', '')) / 100,8)
-            new_col_name = (str(int(v * 100)) if (round(v * 100,8)).is_integer() else str(round(v * 100, 8))) + 'bps'
+            new_col_name = (str(int(round(v * 10000,8))) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_strike[new_col_name] = v
 
-- 
2.43.0


From 883db886ab581104535128f1a8ab1441adbb4b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 73/79] fix: process_capfloor_quotes: schedule call with names
 that do not exist, caller's quote table modified, longest quote assumed last

---
 frm/term_structures/interest_rate_option_helpers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/frm/term_structures/interest_rate_option_helpers.py b/frm/term_structures/interest_rate_option_helpers.py
index 3c1da2a..5563ba1 100644
--- a/frm/term_structures/interest_rate_option_helpers.py
+++ b/frm/term_structures/interest_rate_option_helpers.py
@@ -36,6 +36,7 @@ def process_capfloor_quotes(
     effective_date_np = (settlement_date + optionlet_date_offset).to_numpy().astype('datetime64[D]')
     effective_date = np.busday_offset(effective_date_np, offsets=0, roll='following', busdaycal=busdaycal)
 
+    vol_ln_df = vol_ln_df.copy()
     vol_ln_df['tenor'] = vol_ln_df['tenor'].apply(clean_tenor)
     vol_ln_df['settlement_date'] = settlement_date
     vol_ln_df['effective_date'] = effective_date
@@ -68,15 +69,14 @@ def process_capfloor_quotes(
     vol_ln_df.rename(columns=col_name_update_dict, inplace=True)
     vol_ln_df.reset_index(drop=True, inplace=True)
 
-    N = len(vol_ln_df) - 1
-    effective_date = vol_ln_df.loc[N,'effective_date']
-    termination_date = vol_ln_df.loc[N,'termination_date']
+    effective_date = vol_ln_df['effective_date'].iloc[0]
+    termination_date = vol_ln_df['termination_date'].max()
     optionlet_df = make_schedule(start_date=effective_date,
                                 end_date=termination_date,
-                                frequency=PeriodFreq.QUARTERLY,
-                                busdaycal=busdaycal)
+                                freq=PeriodFreq.QUARTERLY,
+                                cal=busdaycal)
     optionlet_df['coupon_term'] = year_frac(optionlet_df['period_start'], optionlet_df['period_end'], day_count_basis)
-    optionlet_df['discount_factors'] = zero_curve.get_discount_factors(dates=optionlet_df['payment_dates'])
+    optionlet_df['discount_factors'] = zero_curve.get_discount_factors(dates=optionlet_df['period_end'])
     optionlet_df['annuity_factor'] = optionlet_df['coupon_term'] * optionlet_df['discount_factors']
     optionlet_df['expiry_years'] = year_frac(curve_date, optionlet_df['period_start'], day_count_basis)
     optionlet_df['F'] = zero_curve.get_forward_rates(period_start=optionlet_df['period_start'],
-- 
2.43.0


From d8ac173f759dedb974e4f3138c99c68ecd27bfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 74/79] fix: black76_price and bachelier_price greeks raised
 when only the option side (or the annuity factor) is a vector

---
 frm/pricing_engine/black76_bachelier.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index 10e63d8..1c4dd71 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -75,6 +75,8 @@ def black76_price(
     assert len(shapes) in [1, 2]
     if len(shapes) == 2:
         assert (1,) in shapes
+        # Broadcast so that the greeks which do not depend on every parameter have the length of the other results
+        F, tau, cp, K, σB, ln_shift, annuity_factor = np.broadcast_arrays(F, tau, cp, K, σB, ln_shift, annuity_factor)
 
     F = F + ln_shift
     K = K + ln_shift
@@ -243,6 +245,8 @@ def bachelier_price(
     assert len(shapes) in [1, 2]
     if len(shapes) == 2:
         assert (1,) in shapes
+        # Broadcast so that the greeks which do not depend on every parameter have the length of the other results
+        F, tau, cp, K, σN, annuity_factor = np.broadcast_arrays(F, tau, cp, K, σN, annuity_factor)
 
     # Price per Bachelier formula
     d = (F - K) / (σN * np.sqrt(tau))
-- 
2.43.0


From 3ddff72a68e980d3189171505d0bb258229defe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:32 +0000
Subject: [PATCH 75/79] fix: the SABR level solved from the at-the-money
 volatility is positive whenever the cubic has a positive root

---
 frm/pricing_engine/sabr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/frm/pricing_engine/sabr.py b/frm/pricing_engine/sabr.py
index 300ccdc..d53e14b 100644
--- a/frm/pricing_engine/sabr.py
+++ b/frm/pricing_engine/sabr.py
@@ -179,6 +179,8 @@ def solve_alpha_from_sln_vol(
 
     roots = np.roots(cubic_polynomial)
     roots_real = np.extract(np.isreal(roots), np.real(roots))
+    if np.any(roots_real > 0): # alpha is a volatility, a negative root isn't admissible when there is a positive one
+        roots_real = roots_real[roots_real > 0]
 
     # Note: the double real roots case is not tested
     alpha_first_guess = vol_sln_atm * F**(1-β)
-- 
2.43.0


From 66922ee89525ad0485ab886f75fd3d1290e5b981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:11 +0000
Subject: [PATCH 76/79] fix: Quadratic-exponential Heston paths keep a finite
 variance for draws far in the upper tail

---
 frm/pricing_engine/heston.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/heston.py b/frm/pricing_engine/heston.py
index 54110f4..906ef5a 100644
--- a/frm/pricing_engine/heston.py
+++ b/frm/pricing_engine/heston.py
@@ -809,7 +809,7 @@ def heston_simulate_scalar(
                 if 0 <= norm.cdf(rand_nbs[i - 1, 1]) <= p:
                     x[i, 1] = 0
                 elif p < norm.cdf(rand_nbs[i - 1, 1]) <= 1:
-                    x[i, 1] = 1 / beta * np.log((1 - p) / (1 - norm.cdf(rand_nbs[i - 1, 1])))
+                    x[i, 1] = 1 / beta * np.log((1 - p) / norm.sf(rand_nbs[i - 1, 1]))
 
             x[i, 0] = x[i - 1, 0] + mu * dt + K0 + K1 * x[i - 1, 1] + K2 * x[i, 1] + \
                       np.sqrt(K3 * x[i - 1, 1] + K4 * x[i, 1]) * rand_nbs[i - 1, 0]
@@ -927,7 +927,7 @@ def heston_simulate(
             mask_p_1 = np.logical_and(p < norm.cdf(rand_nbs[i - 1, 1, :]), norm.cdf(rand_nbs[i - 1, 1, :]) <= 1)
             mask_net = np.logical_and(mask, mask_p_1)
             x[i, 1, mask_net] = 1 / beta[mask_net] * np.log(
-                (1 - p[mask_net]) / (1 - norm.cdf(rand_nbs[i - 1, 1, mask_net])))
+                (1 - p[mask_net]) / norm.sf(rand_nbs[i - 1, 1, mask_net]))
 
             x[i, 0, :] = x[i - 1, 0, :] + mu * dt + K0 + K1 * x[i - 1, 1, :] + K2 * x[i, 1, :] + \
                          np.sqrt(K3 * x[i - 1, 1, :] + K4 * x[i, 1, :]) * rand_nbs[i - 1, 0, :]
-- 
2.43.0


From c52602c9e0b06afd65df48d9238e5076f6d47c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:56 +0000
Subject: [PATCH 77/79] fix: keep the elasticity found by a free SABR fit
 within its documented range of 0 to 1

---
 frm/pricing_engine/sabr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/sabr.py b/frm/pricing_engine/sabr.py
index d53e14b..6a2f5b2 100644
--- a/frm/pricing_engine/sabr.py
+++ b/frm/pricing_engine/sabr.py
@@ -247,7 +247,7 @@ def fit_sabr_params_to_sln_smile(tau: float,
     # rho has a valid range of -1≤ρ≤1
     # volvol has a valid range of 0<v≤∞
     x0 = np.array([0.00, 0.10]) if beta_overide is not None else np.array([0.0, 0.0, 0.1])
-    bounds = ([-1.0, 0.0001], [1.0, np.inf]) if beta_overide is not None else ([-1.0, -1.0, 0.0001], [1.0, 1.0, np.inf])
+    bounds = ([-1.0, 0.0001], [1.0, np.inf]) if beta_overide is not None else ([0.0, -1.0, 0.0001], [1.0, 1.0, np.inf])
     res = scipy.optimize.least_squares(fun=vol_errors, x0=x0, bounds=bounds, ftol=1e-10, xtol=1e-10, gtol=1e-10, max_nfev=1000)
 
     if res.success:
-- 
2.43.0


From e5889ad935b811a558bbdb529fd8a0b0522dbb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:56 +0000
Subject: [PATCH 78/79] fix: interpolate FX forward curves quoted in whole
 numbers instead of stepping between the pillars

---
 frm/term_structures/fx_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index 11e10ff..99326cb 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -224,7 +224,7 @@ def interp_fx_forward_curve_df(
 
     unique_dates = pd.DatetimeIndex(dates.drop_duplicates())
     combined_dates = unique_dates.union(pd.DatetimeIndex(fx_forward_curve_df[date_type]))
-    df = pd.Series(fx_forward_curve_df['fx_forward_rate'].values, index=fx_forward_curve_df[date_type].values)
+    df = pd.Series(fx_forward_curve_df['fx_forward_rate'].values.astype(float), index=fx_forward_curve_df[date_type].values)
 
     result = df.reindex(combined_dates.values).copy()
     start_date = fx_forward_curve_df[date_type].min()
-- 
2.43.0


From c6887a3f998b7e8433852a92782eb3adcd0ca83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:32 +0000
Subject: [PATCH 79/79] fix: premium-adjusted strikes of currencies quoted far
 below one (e.g. LBP/USD) solve, to an accuracy in proportion to the strike

---
 frm/pricing_engine/garman_kohlhagen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 1f7b637..c49b883 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -304,7 +304,7 @@ def garman_kohlhagen_solve_strike_from_delta(
     
                     # Put Option
                     if Δ[i] < 0: 
-                        solution = root_scalar(solve_delta, x0=F, bracket=[0.000001, K_max])
+                        solution = root_scalar(solve_delta, x0=F, bracket=[min(0.000001, 0.000001 * K_max), K_max], xtol=min(2e-12, 1e-12 * K_max))
                         
                     # Call Option
                     if Δ[i] > 0: 
@@ -317,7 +317,7 @@ def garman_kohlhagen_solve_strike_from_delta(
                             return σ[i] * np.sqrt(tau) * norm.cdf(d2) - norm.pdf(d2)
                         
                         try: 
-                            solution = root_scalar(solve_k_lower_bound, x0=F ,bracket=[0.00001, K_max])
+                            solution = root_scalar(solve_k_lower_bound, x0=F ,bracket=[min(0.00001, 0.00001 * K_max), K_max], xtol=min(2e-12, 1e-12 * K_max))
                         except ValueError('the numerical solve for K_min, for delta', Δ[i], ', resulted in an error'):
                             pass
                     
@@ -327,7 +327,7 @@ def garman_kohlhagen_solve_strike_from_delta(
                             raise ValueError('the numerical solver for K_min, for delta', Δ[i], ', did not converge')
                         
                         try:
-                            solution = root_scalar(solve_delta, x0=K_max, bracket=[K_min,K_max])
+                            solution = root_scalar(solve_delta, x0=K_max, bracket=[K_min,K_max], xtol=min(2e-12, 1e-12 * K_max))
                         except ValueError('the numerical solve for premium adjusted strike for delta', Δ[i], ', resulted in an error'):
                             print('This is likely due to an error in the input, for example typos or specifying the delta_convention as spot-delta when it is actually forward-delta')
                         
-- 
2.43.0

