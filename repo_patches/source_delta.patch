From b530d1377e03e819246f0080a1d2d2b47bcaad40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:29 +0000
Subject: [PATCH 01/18] fix: day-of-year conversions follow the Gregorian
 calendar in every century

modified_julian_day::to_ydoy and ydoy2mjd assumed a leap year every four
years (and truncated towards zero before 1901), so they were wrong before
March 1900 and after February 2100, and disagreed with to_ymd/cal2mjd.
---
 src/dtfund.cpp | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/dtfund.cpp b/src/dtfund.cpp
index 1e84911..2862e91 100644
--- a/src/dtfund.cpp
+++ b/src/dtfund.cpp
@@ -164,19 +164,7 @@ ngpt::day_of_month::is_valid(ngpt::year y, ngpt::month m) const noexcept
 ngpt::ydoy_date
 ngpt::modified_julian_day::to_ydoy() const noexcept
 {
-  long days_fr_jan1_1901 { m_mjd - ngpt::jan11901 };
-  long num_four_yrs      { days_fr_jan1_1901/1461L };
-  long years_so_far      { 1901L + 4*num_four_yrs };
-  long days_left         { days_fr_jan1_1901 - 1461*num_four_yrs };
-  long delta_yrs         { days_left/365 - days_left/1460 };
-  
-  ydoy_date ydoy;
-  ydoy.__doy = day_of_year{static_cast<day_of_year::underlying_type>
-              (days_left-365*delta_yrs+1)};
-  ydoy.__year= year{static_cast<year::underlying_type>
-              (years_so_far + delta_yrs)};
-
-  return ydoy;
+  return this->to_ymd().to_ydoy();
 }
 
 ///
@@ -214,11 +202,11 @@ ngpt::modified_julian_day::to_ymd() const noexcept
 ngpt::modified_julian_day
 ngpt::ydoy2mjd(ngpt::year yr, ngpt::day_of_year doy) noexcept
 {
-    long iyr {static_cast<long>(yr.as_underlying_type())};
-    long idy {static_cast<long>(doy.as_underlying_type())};
+    // MJD of January 1st (of year yr) in the Gregorian calendar; this date is
+    // always valid, so cal2mjd can not throw
+    long jan1 { ngpt::cal2mjd(yr.as_underlying_type(), 1, 1) };
 
-    return modified_julian_day {((iyr-1901)/4)*1461 + ((iyr-1901)%4)*365 +
-        idy - 1 + ngpt::jan11901};
+    return modified_julian_day {jan1 + doy.as_underlying_type() - 1L};
 }
 
 /// 
-- 
2.43.0


From e46a628b5f617eb45d57f66dd2255de4b4dfd73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:29 +0000
Subject: [PATCH 02/18] fix: ydoy_date::to_ymd asserted on every day of year
 from 344 on

The debug assertion bounded guess by 11, but guess is 11 in December.
---
 src/dtfund.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dtfund.cpp b/src/dtfund.cpp
index 2862e91..a4475a9 100644
--- a/src/dtfund.cpp
+++ b/src/dtfund.cpp
@@ -232,7 +232,7 @@ ngpt::ydoy_date::to_ymd() const noexcept
   int guess = __doy.as_underlying_type() * 0.032;
   int leap = __year.is_leap();
 #ifdef DEBUG
-  assert( guess >= 0 && guess < 11 );
+  assert( guess >= 0 && guess < 12 );
 #endif
   int more = (( __doy.as_underlying_type() - month_day[leap][guess+1] ) > 0);
   yd.__month = month{guess + more + 1};
-- 
2.43.0


From 6b556523bad066b29e1066433f4be2b692f1f3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:59 +0000
Subject: [PATCH 03/18] fix: constructor from GPS week and seconds of week left
 negative times of day

remove_days() keeps the sign of the seconds; normalize() as all other
constructors do.
---
 src/dtcalendar.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index 39bf625..e8e4732 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -403,11 +403,10 @@ public:
   explicit
   datetime(gps_week w, S sow) noexcept
     : m_mjd{w.as_underlying_type()*7
-           +sow.as_underlying_type()/S::max_in_day
            +jan61980},
     m_sec{sow}
   {
-    m_sec.remove_days();
+    this->normalize();
   }
 
   /// Get the Modified Julian Day (const).
-- 
2.43.0


From 3485af4d9bfe06a4a72cf45b833c3f31cb894ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:14 +0000
Subject: [PATCH 04/18] fix: cast_to overflowed for long durations although the
 result fits

Casting between milliseconds and microseconds multiplied by the target's
factor before dividing by the source's.
---
 src/dtfund.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/dtfund.hpp b/src/dtfund.hpp
index 8c58f2f..74250d7 100644
--- a/src/dtfund.hpp
+++ b/src/dtfund.hpp
@@ -2093,13 +2093,14 @@ template<typename Ssrc,
   inline Strg
   cast_to(Ssrc s) noexcept
 {
-  // this is tricky! We must first compute the numerator and then the fraction.
-  // why? check this out
-  // seconds _s1 = cast_to<milliseconds, seconds>(milliseconds{2000L});
-  // this is: (1/1000)*2000 which is 0 because 1/1000 is 0, but
-  // (2000*1)/1000 = 2 which is correct
-  auto numerator { s.__member_ref__() * Strg::template sec_factor<long>() };
-  return Strg {numerator / Ssrc::template sec_factor<long>()};
+  // The sec_factor's are powers of ten, so one always divides the other; do
+  // not compute value*target_factor/source_factor, because the product
+  // overflows long before the result does (e.g. microseconds to milliseconds
+  // for intervals of more than 292 years).
+  constexpr auto src { Ssrc::template sec_factor<long>() };
+  constexpr auto trg { Strg::template sec_factor<long>() };
+  if constexpr (trg >= src) return Strg {s.__member_ref__() * (trg / src)};
+  else                      return Strg {s.__member_ref__() / (src / trg)};
 }
 
 /// For user-defined literals, i am going to replace long with
-- 
2.43.0


From 1b154d1355d27ede4b72582fdae0a611b79e1d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:29 +0000
Subject: [PATCH 05/18] fix: fractional seconds lost a unit when converted to
 milli- or microseconds

static_cast<long>(fs*1000) truncates products such as 1.001*1000 =
1000.9999999999999, so 1.001 s became 1000 ms.
---
 src/dtfund.hpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/dtfund.hpp b/src/dtfund.hpp
index 74250d7..ecd8d17 100644
--- a/src/dtfund.hpp
+++ b/src/dtfund.hpp
@@ -881,6 +881,26 @@ struct ydoy_date
 };// ydoy_date
 
 
+/// @brief Whole number of (1/factor)-second units in (fractional) seconds fs.
+///
+/// The result is truncated, but a product that misses the next integer only by
+/// the rounding error of its factors counts as that integer; e.g. 1.001 seconds
+/// are 1001 milliseconds, although 1.001e0 * 1000e0 is 1000.9999999999999.
+///
+/// @param[in] fs     The (fractional) seconds
+/// @param[in] factor Number of units in one second
+inline constexpr long
+__fsec_to_units__(double fs, double factor) noexcept
+{
+  double units { fs * factor };
+  double eps   { std::numeric_limits<double>::epsilon() };
+  long   whole { static_cast<long>(units) };
+  double frac  { units - static_cast<double>(whole) };
+  if (frac > 0e0 && 1e0 - frac <=  4e0 * eps * units) return whole + 1L;
+  if (frac < 0e0 && 1e0 + frac <= -4e0 * eps * units) return whole - 1L;
+  return whole;
+}
+
 /// @brief A wrapper class for hours.
 ///
 /// An hour is just an integer number representing hours; there is no
@@ -1361,7 +1381,7 @@ public:
   /// the fs input argument).
   explicit constexpr
   milliseconds(hours h, minutes m, double fs) noexcept
-    : m_sec{ static_cast<underlying_type>(fs * sec_factor<double>())
+    : m_sec{ __fsec_to_units__(fs, sec_factor<double>())
              + (m.as_underlying_type()*60L + h.as_underlying_type()*3600L)
              * sec_factor<underlying_type>()}
   {
@@ -1601,7 +1621,7 @@ public:
   ///       up to 10e-6.
   explicit constexpr
   microseconds(hours h, minutes m, double fs) noexcept
-    : m_sec{ static_cast<underlying_type>(fs * sec_factor<double>())
+    : m_sec{ __fsec_to_units__(fs, sec_factor<double>())
             + (m.as_underlying_type()*60L
             + h.as_underlying_type()*3600L) * sec_factor<underlying_type>() }
   {};
-- 
2.43.0


From 083fe96bd3f831a687d0af97738561ffc1ab4f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 06/18] fix: readers read past the end of a string that ends
 early

After each field the readers skipped one delimiter without checking for the
terminating null, so a truncated date made them read beyond the string.
---
 src/datetime_read.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index ab0b47b..de0dafa 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -51,7 +51,7 @@ template<typename T>
         ("Invalid date format: \"" + std::string(str) 
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = *end ? end+1 : end;
   }
   if (stop) *stop = end - 1;
   return datetime<T> {year{ints[0]},
@@ -87,7 +87,7 @@ template<typename T>
         ("Invalid date format: \"" + std::string(str)
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = *end ? end+1 : end;
   }
   if (stop) *stop = end - 1;
   return datetime<T> {year{ints[0]},
@@ -123,7 +123,7 @@ template<typename T>
         ("Invalid date format: \""+std::string(str)+
           "\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = *end ? end+1 : end;
   }
   secs = std::strtod(start, &end);
   if (errno == ERANGE) {
@@ -168,15 +168,16 @@ template<typename T>
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #1).");
   }
-  start = end+1;
+  start = *end ? end+1 : end;
 
-  if ( !std::isalpha(*start) ) ++start;
-  std::memcpy(month_str, start, 3);
+  if ( *start && !std::isalpha(*start) ) ++start;
+  std::strncpy(month_str, start, 3);
   month_str[0] = std::toupper(month_str[0]);
   month_str[1] = std::tolower(month_str[1]);
   month_str[2] = std::tolower(month_str[2]);
   month mnt {month_str};
-  start += 4;
+  start += 3;
+  if ( *start ) ++start;
 
   for (int i = 2; i < 5; ++i) {
     ints[i] = static_cast<int>( std::abs(std::strtol(start, &end, 10)) );
@@ -186,7 +187,7 @@ template<typename T>
         ("Invalid date format: \"" + std::string(str) 
          +"\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = *end ? end+1 : end;
   }
 
   secs = std::strtod(start, &end);
@@ -232,7 +233,7 @@ template<typename T>
         ("Invalid date format: \"" + std::string(str) 
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = *end ? end+1 : end;
   }
   secs = std::strtod(start, &end);
   if (errno == ERANGE) {
-- 
2.43.0


From 91488afdc301d874060013c4437d39e0fc6eb282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 07/18] fix: constructing a datetime from an invalid date
 terminated the process

The constructors from year, month and day of month were noexcept, but
cal2mjd throws for invalid dates.
---
 src/dtcalendar.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index e8e4732..b45f876 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -264,7 +264,7 @@ public:
     
   /// Constructor from year, month, day of month and sec type.
   explicit constexpr
-  datetime(year y, month m, day_of_month d, S s) noexcept
+  datetime(year y, month m, day_of_month d, S s)
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{s}
   {
@@ -285,7 +285,7 @@ public:
                 std::is_same<S, decltype(static_cast<S>(T{}))>::value, bool>
                >
   explicit
-  datetime(year y, month m, day_of_month d, T t) noexcept
+  datetime(year y, month m, day_of_month d, T t)
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{S(t)}
   {
@@ -316,7 +316,6 @@ public:
                >
   explicit
   datetime(year y, month m, day_of_month d, hours hr, minutes mn, T sec)
-  noexcept
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{hr, mn, S(sec)}
   {
@@ -341,7 +340,6 @@ public:
   /// Constructor from year, month, day of month and fractional seconds.
   explicit
   datetime(year y, month m, day_of_month d, hours hr, minutes mn, double fsecs)
-  noexcept
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{hr, mn, fsecs}
   {
@@ -361,7 +359,7 @@ public:
   /// second type S.
   explicit
   datetime(year y, month m, day_of_month d, hours hr=hours(),
-           minutes mn=minutes(), S sec=S()) noexcept
+           minutes mn=minutes(), S sec=S())
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{hr, mn, sec}
   {
-- 
2.43.0


From 246d9277da6ced261c0485d72a0116e4328f4e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:00 +0000
Subject: [PATCH 08/18] fix: readers wrapped integer fields that do not fit in
 an int

---
 src/datetime_read.hpp | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index de0dafa..7d6039a 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -26,6 +26,13 @@
 
 namespace ngpt {
 
+/// Check that the absolute value of an integer field can be stored in an int.
+inline bool fits_in_int(long field) noexcept
+{
+  constexpr long imax = std::numeric_limits<int>::max();
+  return field >= -imax && field <= imax;
+}
+
 /// @brief Read from YYYY-MM-DD
 ///
 /// Read and return a date from a c-string of type: YYYY-MM-DD, where the 
@@ -44,13 +51,14 @@ template<typename T>
   int ints[3];
 
   for (int i = 0; i < 3; ++i) {
-    ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-    if (errno == ERANGE || start == end) {
+    const long field = std::strtol(start, &end, 10);
+    if (errno == ERANGE || start == end || !fits_in_int(field)) {
       errno = 0;
       throw std::invalid_argument
         ("Invalid date format: \"" + std::string(str) 
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
+    ints[i] = static_cast<int>(std::abs(field));
     start = *end ? end+1 : end;
   }
   if (stop) *stop = end - 1;
@@ -80,13 +88,14 @@ template<typename T>
   int ints[2];
 
   for (int i = 0; i < 2; ++i) {
-    ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-    if (errno == ERANGE || start == end) {
+    const long field = std::strtol(start, &end, 10);
+    if (errno == ERANGE || start == end || !fits_in_int(field)) {
       errno = 0;
       throw std::invalid_argument
         ("Invalid date format: \"" + std::string(str)
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
+    ints[i] = static_cast<int>(std::abs(field));
     start = *end ? end+1 : end;
   }
   if (stop) *stop = end - 1;
@@ -116,13 +125,14 @@ template<typename T>
   double secs;
 
   for (int i = 0; i < 5; ++i) {
-    ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-    if (errno == ERANGE || start == end) {
+    const long field = std::strtol(start, &end, 10);
+    if (errno == ERANGE || start == end || !fits_in_int(field)) {
       errno = 0;
       throw std::invalid_argument
         ("Invalid date format: \""+std::string(str)+
           "\" (argument #" + std::to_string(i+1) + ").");
     }
+    ints[i] = static_cast<int>(std::abs(field));
     start = *end ? end+1 : end;
   }
   secs = std::strtod(start, &end);
@@ -162,12 +172,13 @@ template<typename T>
   month_str[3] = '\0';
   double secs;
 
-  ints[0] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-  if (errno == ERANGE || start == end) {
+  const long yr = std::strtol(start, &end, 10);
+  if (errno == ERANGE || start == end || !fits_in_int(yr)) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #1).");
   }
+  ints[0] = static_cast<int>(std::abs(yr));
   start = *end ? end+1 : end;
 
   if ( *start && !std::isalpha(*start) ) ++start;
@@ -180,13 +191,14 @@ template<typename T>
   if ( *start ) ++start;
 
   for (int i = 2; i < 5; ++i) {
-    ints[i] = static_cast<int>( std::abs(std::strtol(start, &end, 10)) );
-    if (errno == ERANGE || start == end) {
+    const long field = std::strtol(start, &end, 10);
+    if (errno == ERANGE || start == end || !fits_in_int(field)) {
       errno = 0;
       throw std::invalid_argument
         ("Invalid date format: \"" + std::string(str) 
          +"\" (argument #" + std::to_string(i+1) + ").");
     }
+    ints[i] = static_cast<int>(std::abs(field));
     start = *end ? end+1 : end;
   }
 
@@ -226,13 +238,14 @@ template<typename T>
   double secs;
 
   for (int i = 0; i < 4; ++i) {
-    ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-    if (errno == ERANGE || start == end) {
+    const long field = std::strtol(start, &end, 10);
+    if (errno == ERANGE || start == end || !fits_in_int(field)) {
       errno = 0;
       throw std::invalid_argument
         ("Invalid date format: \"" + std::string(str) 
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
+    ints[i] = static_cast<int>(std::abs(field));
     start = *end ? end+1 : end;
   }
   secs = std::strtod(start, &end);
-- 
2.43.0


From 37d37d4e37b3778322ba9b78b7260a6574156e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:26 +0000
Subject: [PATCH 09/18] fix: readers accepted a day of year that does not exist

---
 src/datetime_read.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index 7d6039a..f29c2ea 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -98,6 +98,10 @@ template<typename T>
     ints[i] = static_cast<int>(std::abs(field));
     start = *end ? end+1 : end;
   }
+  if (!day_of_year{ints[1]}.is_valid(year{ints[0]})) {
+    throw std::invalid_argument
+      ("Invalid date format: \"" + std::string(str) + "\" (day of year).");
+  }
   if (stop) *stop = end - 1;
   return datetime<T> {year{ints[0]},
     day_of_year{ints[1]},
@@ -254,6 +258,10 @@ template<typename T>
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #5)");
   }
+  if (!day_of_year{ints[1]}.is_valid(year{ints[0]})) {
+    throw std::invalid_argument
+      ("Invalid date format: \"" + std::string(str) + "\" (day of year).");
+  }
   if (stop) *stop = end;
   return datetime<T> {year{ints[0]},
     day_of_year{ints[1]},
-- 
2.43.0


From 2b8f7525e659f834bd12142d7d777154fd437c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:33 +0000
Subject: [PATCH 10/18] fix: readers accepted missing, non-finite and oversized
 seconds

---
 src/datetime_read.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index f29c2ea..78e4887 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -140,7 +140,7 @@ template<typename T>
     start = *end ? end+1 : end;
   }
   secs = std::strtod(start, &end);
-  if (errno == ERANGE) {
+  if (errno == ERANGE || start == end || !(std::abs(secs) < 1e12)) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #6)");
@@ -207,7 +207,7 @@ template<typename T>
   }
 
   secs = std::strtod(start, &end);
-  if (errno == ERANGE) {
+  if (errno == ERANGE || start == end || !(std::abs(secs) < 1e12)) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \"" + std::string(str) + "\" (argument #6)");
@@ -253,7 +253,7 @@ template<typename T>
     start = *end ? end+1 : end;
   }
   secs = std::strtod(start, &end);
-  if (errno == ERANGE) {
+  if (errno == ERANGE || start == end || !(std::abs(secs) < 1e12)) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #5)");
-- 
2.43.0


From 7094711504293c271475536c074b6a449aa6a3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 11/18] fix: stringify printed the fraction instead of the
 seconds

---
 src/dtcalendar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index b45f876..4a1a06d 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -740,7 +740,7 @@ public:
     double fsec { st.as_underlying_type() / S::template sec_factor<double>() };
     std::ostringstream out;
     out << std::fixed << std::setprecision(9) 
-        << (fsec + static_cast<double>(st.as_underlying_type()));
+        << (fsec + static_cast<double>(std::get<2>(hms).as_underlying_type()));
 
     return std::string {
                  std::to_string( ymd.__year.as_underlying_type() )
-- 
2.43.0


From 937d3fce90bfdf5d9a21049607f8c69da8159b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:31 +0000
Subject: [PATCH 12/18] fix: readers rejected valid dates when errno was
 already ERANGE

---
 src/datetime_read.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index 78e4887..2150c57 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -14,6 +14,7 @@
 #ifndef __NGPT_DT_READERS__
 #define __NGPT_DT_READERS__
 
+#include <cerrno>
 #include <cstdlib>
 #include <cctype>         // for std::isalpha
 #include <stdexcept>
@@ -51,6 +52,7 @@ template<typename T>
   int ints[3];
 
   for (int i = 0; i < 3; ++i) {
+    errno = 0;
     const long field = std::strtol(start, &end, 10);
     if (errno == ERANGE || start == end || !fits_in_int(field)) {
       errno = 0;
@@ -88,6 +90,7 @@ template<typename T>
   int ints[2];
 
   for (int i = 0; i < 2; ++i) {
+    errno = 0;
     const long field = std::strtol(start, &end, 10);
     if (errno == ERANGE || start == end || !fits_in_int(field)) {
       errno = 0;
@@ -129,6 +132,7 @@ template<typename T>
   double secs;
 
   for (int i = 0; i < 5; ++i) {
+    errno = 0;
     const long field = std::strtol(start, &end, 10);
     if (errno == ERANGE || start == end || !fits_in_int(field)) {
       errno = 0;
@@ -139,6 +143,7 @@ template<typename T>
     ints[i] = static_cast<int>(std::abs(field));
     start = *end ? end+1 : end;
   }
+  errno = 0;
   secs = std::strtod(start, &end);
   if (errno == ERANGE || start == end || !(std::abs(secs) < 1e12)) {
     errno = 0;
@@ -176,6 +181,7 @@ template<typename T>
   month_str[3] = '\0';
   double secs;
 
+  errno = 0;
   const long yr = std::strtol(start, &end, 10);
   if (errno == ERANGE || start == end || !fits_in_int(yr)) {
     errno = 0;
@@ -195,6 +201,7 @@ template<typename T>
   if ( *start ) ++start;
 
   for (int i = 2; i < 5; ++i) {
+    errno = 0;
     const long field = std::strtol(start, &end, 10);
     if (errno == ERANGE || start == end || !fits_in_int(field)) {
       errno = 0;
@@ -206,6 +213,7 @@ template<typename T>
     start = *end ? end+1 : end;
   }
 
+  errno = 0;
   secs = std::strtod(start, &end);
   if (errno == ERANGE || start == end || !(std::abs(secs) < 1e12)) {
     errno = 0;
@@ -242,6 +250,7 @@ template<typename T>
   double secs;
 
   for (int i = 0; i < 4; ++i) {
+    errno = 0;
     const long field = std::strtol(start, &end, 10);
     if (errno == ERANGE || start == end || !fits_in_int(field)) {
       errno = 0;
@@ -252,6 +261,7 @@ template<typename T>
     ints[i] = static_cast<int>(std::abs(field));
     start = *end ? end+1 : end;
   }
+  errno = 0;
   secs = std::strtod(start, &end);
   if (errno == ERANGE || start == end || !(std::abs(secs) < 1e12)) {
     errno = 0;
-- 
2.43.0


From db01d3ab9833ef9e67475608d25385286e88d9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:01 +0000
Subject: [PATCH 13/18] fix: readers took the decimal point of the seconds from
 the C locale

---
 src/datetime_read.hpp | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index 2150c57..cb76061 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -15,6 +15,7 @@
 #define __NGPT_DT_READERS__
 
 #include <cerrno>
+#include <charconv>
 #include <cstdlib>
 #include <cctype>         // for std::isalpha
 #include <stdexcept>
@@ -34,6 +35,22 @@ inline bool fits_in_int(long field) noexcept
   return field >= -imax && field <= imax;
 }
 
+/// Resolve a floating point number just like std::strtod does for decimal 
+/// numbers, but with a '.' as decimal point whatever the current locale is. 
+/// If str does not start with a number, end is set to str; if the number is 
+/// out of range, a NaN is returned.
+inline double
+read_seconds(const char* str, char** end) noexcept
+{
+  double secs = std::numeric_limits<double>::quiet_NaN();
+  const char* first = str + std::strspn(str, " \t\n\v\f\r");
+  if (*first == '+' && first[1] != '-') ++first;
+  auto res = std::from_chars(first,
+    first + std::strspn(first, "+-.0123456789eE"), secs);
+  *end = const_cast<char*>(res.ec == std::errc::invalid_argument ? str : res.ptr);
+  return secs;
+}
+
 /// @brief Read from YYYY-MM-DD
 ///
 /// Read and return a date from a c-string of type: YYYY-MM-DD, where the 
@@ -143,10 +160,8 @@ template<typename T>
     ints[i] = static_cast<int>(std::abs(field));
     start = *end ? end+1 : end;
   }
-  errno = 0;
-  secs = std::strtod(start, &end);
-  if (errno == ERANGE || start == end || !(std::abs(secs) < 1e12)) {
-    errno = 0;
+  secs = read_seconds(start, &end);
+  if (start == end || !(std::abs(secs) < 1e12)) {
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #6)");
   }
@@ -213,10 +228,8 @@ template<typename T>
     start = *end ? end+1 : end;
   }
 
-  errno = 0;
-  secs = std::strtod(start, &end);
-  if (errno == ERANGE || start == end || !(std::abs(secs) < 1e12)) {
-    errno = 0;
+  secs = read_seconds(start, &end);
+  if (start == end || !(std::abs(secs) < 1e12)) {
     throw std::invalid_argument
       ("Invalid date format: \"" + std::string(str) + "\" (argument #6)");
   }
@@ -261,10 +274,8 @@ template<typename T>
     ints[i] = static_cast<int>(std::abs(field));
     start = *end ? end+1 : end;
   }
-  errno = 0;
-  secs = std::strtod(start, &end);
-  if (errno == ERANGE || start == end || !(std::abs(secs) < 1e12)) {
-    errno = 0;
+  secs = read_seconds(start, &end);
+  if (start == end || !(std::abs(secs) < 1e12)) {
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #5)");
   }
-- 
2.43.0


From 72b6a06394f103981e2a6bcb83a5dba520a66289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 14/18] fix: month names were compared with the case rules of
 the C locale

---
 src/datetime_read.hpp | 7 ++-----
 src/dtfund.cpp        | 4 +++-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index cb76061..5e08234 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -17,7 +17,6 @@
 #include <cerrno>
 #include <charconv>
 #include <cstdlib>
-#include <cctype>         // for std::isalpha
 #include <stdexcept>
 #include "dtfund.hpp"
 #include "dtcalendar.hpp"
@@ -206,11 +205,9 @@ template<typename T>
   ints[0] = static_cast<int>(std::abs(yr));
   start = *end ? end+1 : end;
 
-  if ( *start && !std::isalpha(*start) ) ++start;
+  if ( *start && !((*start >= 'a' && *start <= 'z')
+                || (*start >= 'A' && *start <= 'Z')) ) ++start;
   std::strncpy(month_str, start, 3);
-  month_str[0] = std::toupper(month_str[0]);
-  month_str[1] = std::tolower(month_str[1]);
-  month_str[2] = std::tolower(month_str[2]);
   month mnt {month_str};
   start += 3;
   if ( *start ) ++start;
diff --git a/src/dtfund.cpp b/src/dtfund.cpp
index a4475a9..5acafa6 100644
--- a/src/dtfund.cpp
+++ b/src/dtfund.cpp
@@ -85,9 +85,11 @@ ngpt::cal2mjd(ngpt::year y, ngpt::month m, ngpt::day_of_month d)
 int
 __lower_strncmp__(const char *str1, const char *str2, std::size_t n=0)
 {
+  // only the (ASCII) letters of the english names, whatever the locale is
+  auto lower = [](char c) { return c >= 'A' && c <= 'Z' ? c - 'A' + 'a' : c; };
   if (!n) n = std::max(std::strlen(str1), std::strlen(str2));
   for (std::size_t i = 0; i < n; i++) 
-    if ( !(std::tolower(str1[i]) == std::tolower(str2[i])) ) 
+    if ( !(lower(str1[i]) == lower(str2[i])) ) 
       return 1;
   return 0;
 }
-- 
2.43.0


From 49b8ee1ce7a0548873093d5ebf7939cfe560b4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 15/18] fix: writers used the digit grouping and decimal point
 of the global locale

---
 src/datetime_write.hpp | 2 ++
 src/dtcalendar.hpp     | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/datetime_write.hpp b/src/datetime_write.hpp
index 484b79e..f698804 100644
--- a/src/datetime_write.hpp
+++ b/src/datetime_write.hpp
@@ -28,6 +28,7 @@ inline std::string
 _d2s_(double d, int n=2) noexcept
 {
   std::stringstream stream;
+  stream.imbue(std::locale::classic());
   stream << std::fixed << std::setprecision(n) << d;
   return stream.str();
 }
@@ -37,6 +38,7 @@ inline std::string
 _i2s_(int i, int w=2) noexcept
 {
   std::stringstream stream;
+  stream.imbue(std::locale::classic());
   stream << std::setfill('0') << std::setw(w) << i;
   return stream.str();
 }
diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index 4a1a06d..4c8d38d 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -739,6 +739,7 @@ public:
     S st { std::get<3>(hms) };
     double fsec { st.as_underlying_type() / S::template sec_factor<double>() };
     std::ostringstream out;
+    out.imbue(std::locale::classic());
     out << std::fixed << std::setprecision(9) 
         << (fsec + static_cast<double>(std::get<2>(hms).as_underlying_type()));
 
-- 
2.43.0


From 146f94189ef84df0af8269a553ff4f6e5785dc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 16/18] fix: with the optional checks a positive delta_sec was
 stopped when the time of day is earlier

---
 src/dtcalendar.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index 4c8d38d..a348ee7 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -598,7 +598,7 @@ public:
   constexpr S
   delta_sec(const datetime& d) const noexcept
   {
-    return (m_sec - d.m_sec) + mjd_sec_diff<S>(m_mjd, d.m_mjd);
+    return mjd_sec_diff<S>(m_mjd, d.m_mjd) + m_sec - d.m_sec;
   }
 
   /// Overload equality operator.
@@ -901,7 +901,7 @@ template<typename S1,
 {
   S1 diff  = mjd_sec_diff<S1>(d1.mjd(), d2.mjd()); // days dif in S1
   S1 s2sec = ngpt::cast_to<S2, S1>(d2.sec());      // cast d2 secs to S1
-  return diff + (d1.sec() - s2sec);
+  return diff + d1.sec() - s2sec;
 }
 
 /// Difference of two datetime instances in seconds, when they are of different
@@ -932,7 +932,7 @@ template<typename S1,
 {
   S2 diff  = mjd_sec_diff<S2>(d1.mjd(), d2.mjd()); // days dif in S2
   S2 s1sec = ngpt::cast_to<S1, S2>(d1.sec());      // cast d1 secs to S2
-  return diff + (s1sec - d2.sec());
+  return diff + s1sec - d2.sec();
 }
 
 /// Because we have a function of type:
-- 
2.43.0


From 3acedd12d4f74e52a1ccb375401564ac4c7769c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:45 +0000
Subject: [PATCH 17/18] fix: with the optional checks delta_date to an earlier
 time of day was stopped

---
 src/dtcalendar.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index a348ee7..1304939 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -674,7 +674,14 @@ public:
   constexpr datetime_interval<S>
   delta_date(const datetime& d) const noexcept
   {
-    datetime_interval<S> dt { m_mjd - d.m_mjd, m_sec - d.m_sec };
+    modified_julian_day days { m_mjd - d.m_mjd };
+    S secs { m_sec };
+    // borrow a day if needed, so that the seconds never get negative
+    if (secs < d.m_sec) {
+      --days;
+      secs += S{S::max_in_day};
+    }
+    datetime_interval<S> dt { days, secs - d.m_sec };
     dt.normalize();
     return dt;
   }
-- 
2.43.0


From 78f1fc39318ee849ba13d7ff3faffe58a125e535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 18/18] fix: with the optional checks removing a finer amount
 across midnight was stopped

---
 src/dtcalendar.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index 1304939..cdcea45 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -855,7 +855,8 @@ private:
   {
     T sect = ngpt::cast_to<S, T>(m_sec);
     sect -= sec;
-    m_sec = ngpt::cast_to<T, S>(sect);
+    // sect may be negative here; normalize() borrows the days
+    m_sec = sect.as_underlying_type() / (T::max_in_day / S::max_in_day);
     this->normalize();
 #ifdef USE_DATETIME_CHECKS
     assert(m_mjd >= modified_julian_day{0} && m_sec >= S{0});
-- 
2.43.0

