From 6dc77354111ca4e5de3199eb66e5dc1f07d8f934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:09 +0000
Subject: [PATCH 01/16] fix: debug assertion of ydoy_date::to_ymd aborts for
 days 344 to 366

The first guess of the month (0.032*doy) is 11 for the last days of a year,
which is a valid index (the month table has 13 entries).
---
 src/dtfund.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dtfund.cpp b/src/dtfund.cpp
index 1e84911..909e3b3 100644
--- a/src/dtfund.cpp
+++ b/src/dtfund.cpp
@@ -244,7 +244,7 @@ ngpt::ydoy_date::to_ymd() const noexcept
   int guess = __doy.as_underlying_type() * 0.032;
   int leap = __year.is_leap();
 #ifdef DEBUG
-  assert( guess >= 0 && guess < 11 );
+  assert( guess >= 0 && guess < 12 );
 #endif
   int more = (( __doy.as_underlying_type() - month_day[leap][guess+1] ) > 0);
   yd.__month = month{guess + more + 1};
-- 
2.43.0


From 9562a61cc6737585d0454ba352f6243408e68395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:09 +0000
Subject: [PATCH 02/16] fix: datetime::stringify prints the seconds of the time
 of day

It printed the sub-second part twice (as integer and as fraction) and left the
seconds out: 12:50:30 came out as 12:50:0.000000000.
---
 src/dtcalendar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index 39bf625..a40a76c 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -739,8 +739,8 @@ public:
   {
     auto ymd { this->as_ymd() };
     auto hms { this->as_hmsf() };
-    S st { std::get<3>(hms) };
-    double fsec { st.as_underlying_type() / S::template sec_factor<double>() };
+    seconds st { std::get<2>(hms) };
+    double fsec { std::get<3>(hms) / S::template sec_factor<double>() };
     std::ostringstream out;
     out << std::fixed << std::setprecision(9) 
         << (fsec + static_cast<double>(st.as_underlying_type()));
-- 
2.43.0


From 2f0ba5c4ddea3681946178e613b6b28114c3f625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:09 +0000
Subject: [PATCH 03/16] fix: cast_to between second types overflows for
 representable amounts

cast_to<microseconds, milliseconds> (and back) went through a product with the
target's factor, which overflows past 292 years although both the argument and
the result fit.
---
 src/dtfund.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/dtfund.hpp b/src/dtfund.hpp
index 8c58f2f..db2286c 100644
--- a/src/dtfund.hpp
+++ b/src/dtfund.hpp
@@ -2093,13 +2093,15 @@ template<typename Ssrc,
   inline Strg
   cast_to(Ssrc s) noexcept
 {
-  // this is tricky! We must first compute the numerator and then the fraction.
-  // why? check this out
-  // seconds _s1 = cast_to<milliseconds, seconds>(milliseconds{2000L});
-  // this is: (1/1000)*2000 which is 0 because 1/1000 is 0, but
-  // (2000*1)/1000 = 2 which is correct
-  auto numerator { s.__member_ref__() * Strg::template sec_factor<long>() };
-  return Strg {numerator / Ssrc::template sec_factor<long>()};
+  // one factor is always a multiple of the other; scale by their ratio only,
+  // or else the intermediate product overflows for amounts that both types can
+  // hold.
+  constexpr long fsrc { Ssrc::template sec_factor<long>() };
+  constexpr long ftrg { Strg::template sec_factor<long>() };
+  if constexpr (ftrg >= fsrc)
+    return Strg {s.as_underlying_type() * (ftrg / fsrc)};
+  else
+    return Strg {s.as_underlying_type() / (fsrc / ftrg)};
 }
 
 /// For user-defined literals, i am going to replace long with
-- 
2.43.0


From d89088f93b3a4720576a9810ce534b0d4c80a48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:38 +0000
Subject: [PATCH 04/16] fix: an invalid calendar date terminates the program

The datetime constructors from (year, month, day_of_month, ...) call cal2mjd,
which throws std::out_of_range for an invalid month or day, but were declared
noexcept: reading e.g. "2015-02-29" ended in std::terminate instead of an
exception.
---
 src/dtcalendar.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index a40a76c..a0efd74 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -264,7 +264,7 @@ public:
     
   /// Constructor from year, month, day of month and sec type.
   explicit constexpr
-  datetime(year y, month m, day_of_month d, S s) noexcept
+  datetime(year y, month m, day_of_month d, S s)
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{s}
   {
@@ -285,7 +285,7 @@ public:
                 std::is_same<S, decltype(static_cast<S>(T{}))>::value, bool>
                >
   explicit
-  datetime(year y, month m, day_of_month d, T t) noexcept
+  datetime(year y, month m, day_of_month d, T t)
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{S(t)}
   {
@@ -316,7 +316,6 @@ public:
                >
   explicit
   datetime(year y, month m, day_of_month d, hours hr, minutes mn, T sec)
-  noexcept
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{hr, mn, S(sec)}
   {
@@ -341,7 +340,6 @@ public:
   /// Constructor from year, month, day of month and fractional seconds.
   explicit
   datetime(year y, month m, day_of_month d, hours hr, minutes mn, double fsecs)
-  noexcept
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{hr, mn, fsecs}
   {
@@ -361,7 +359,7 @@ public:
   /// second type S.
   explicit
   datetime(year y, month m, day_of_month d, hours hr=hours(),
-           minutes mn=minutes(), S sec=S()) noexcept
+           minutes mn=minutes(), S sec=S())
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{hr, mn, sec}
   {
-- 
2.43.0


From 5fa9a5c4a8e14320abb9f3d00c9d01e5c11537e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:38 +0000
Subject: [PATCH 05/16] fix: day-of-year conversions are wrong before 1901 and
 after 2099

ydoy2mjd and modified_julian_day::to_ydoy assumed that every fourth year is
leap, so that e.g. (2101, 001) and 2101-01-01 were different days. Go through
the (Gregorian) calendar date instead, like the rest of the conversions.
---
 src/dtfund.cpp | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/dtfund.cpp b/src/dtfund.cpp
index 909e3b3..163a84b 100644
--- a/src/dtfund.cpp
+++ b/src/dtfund.cpp
@@ -164,19 +164,7 @@ ngpt::day_of_month::is_valid(ngpt::year y, ngpt::month m) const noexcept
 ngpt::ydoy_date
 ngpt::modified_julian_day::to_ydoy() const noexcept
 {
-  long days_fr_jan1_1901 { m_mjd - ngpt::jan11901 };
-  long num_four_yrs      { days_fr_jan1_1901/1461L };
-  long years_so_far      { 1901L + 4*num_four_yrs };
-  long days_left         { days_fr_jan1_1901 - 1461*num_four_yrs };
-  long delta_yrs         { days_left/365 - days_left/1460 };
-  
-  ydoy_date ydoy;
-  ydoy.__doy = day_of_year{static_cast<day_of_year::underlying_type>
-              (days_left-365*delta_yrs+1)};
-  ydoy.__year= year{static_cast<year::underlying_type>
-              (years_so_far + delta_yrs)};
-
-  return ydoy;
+  return this->to_ymd().to_ydoy();
 }
 
 ///
@@ -214,11 +202,10 @@ ngpt::modified_julian_day::to_ymd() const noexcept
 ngpt::modified_julian_day
 ngpt::ydoy2mjd(ngpt::year yr, ngpt::day_of_year doy) noexcept
 {
-    long iyr {static_cast<long>(yr.as_underlying_type())};
+    int  iyr {yr.as_underlying_type()};
     long idy {static_cast<long>(doy.as_underlying_type())};
 
-    return modified_julian_day {((iyr-1901)/4)*1461 + ((iyr-1901)%4)*365 +
-        idy - 1 + ngpt::jan11901};
+    return modified_julian_day {ngpt::cal2mjd(iyr, 1, 1) + idy - 1};
 }
 
 /// 
-- 
2.43.0


From 9bb06999ef449f7955202f79f1cd949fdd10b42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:17 +0000
Subject: [PATCH 06/16] fix: readers reject valid text after an unrelated
 ERANGE

strtol/strtod never clear errno, so an ERANGE left behind by any earlier
call made the date readers throw on well formed input. Clear errno before
each conversion.
---
 src/datetime_read.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index ab0b47b..0e7e560 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -14,6 +14,7 @@
 #ifndef __NGPT_DT_READERS__
 #define __NGPT_DT_READERS__
 
+#include <cerrno>
 #include <cstdlib>
 #include <cctype>         // for std::isalpha
 #include <stdexcept>
@@ -44,6 +45,7 @@ template<typename T>
   int ints[3];
 
   for (int i = 0; i < 3; ++i) {
+    errno = 0;
     ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
     if (errno == ERANGE || start == end) {
       errno = 0;
@@ -80,6 +82,7 @@ template<typename T>
   int ints[2];
 
   for (int i = 0; i < 2; ++i) {
+    errno = 0;
     ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
     if (errno == ERANGE || start == end) {
       errno = 0;
@@ -116,6 +119,7 @@ template<typename T>
   double secs;
 
   for (int i = 0; i < 5; ++i) {
+    errno = 0;
     ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
     if (errno == ERANGE || start == end) {
       errno = 0;
@@ -125,6 +129,7 @@ template<typename T>
     }
     start = end+1;
   }
+  errno = 0;
   secs = std::strtod(start, &end);
   if (errno == ERANGE) {
     errno = 0;
@@ -162,6 +167,7 @@ template<typename T>
   month_str[3] = '\0';
   double secs;
 
+  errno = 0;
   ints[0] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
   if (errno == ERANGE || start == end) {
     errno = 0;
@@ -179,6 +185,7 @@ template<typename T>
   start += 4;
 
   for (int i = 2; i < 5; ++i) {
+    errno = 0;
     ints[i] = static_cast<int>( std::abs(std::strtol(start, &end, 10)) );
     if (errno == ERANGE || start == end) {
       errno = 0;
@@ -189,6 +196,7 @@ template<typename T>
     start = end+1;
   }
 
+  errno = 0;
   secs = std::strtod(start, &end);
   if (errno == ERANGE) {
     errno = 0;
@@ -225,6 +233,7 @@ template<typename T>
   double secs;
 
   for (int i = 0; i < 4; ++i) {
+    errno = 0;
     ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
     if (errno == ERANGE || start == end) {
       errno = 0;
@@ -234,6 +243,7 @@ template<typename T>
     }
     start = end+1;
   }
+  errno = 0;
   secs = std::strtod(start, &end);
   if (errno == ERANGE) {
     errno = 0;
-- 
2.43.0


From 8d100cd5f1caf226833ffd7bf2fa8359236b1dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:48 +0000
Subject: [PATCH 07/16] fix: readers run past the end of truncated text

When a field ends the string, the next field was looked for behind the
terminating null character (and the three letter month was copied from
there). Never step over the terminator.
---
 src/datetime_read.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index 0e7e560..4ce07fa 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -53,7 +53,7 @@ template<typename T>
         ("Invalid date format: \"" + std::string(str) 
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = (*end) ? end+1 : end;
   }
   if (stop) *stop = end - 1;
   return datetime<T> {year{ints[0]},
@@ -90,7 +90,7 @@ template<typename T>
         ("Invalid date format: \"" + std::string(str)
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = (*end) ? end+1 : end;
   }
   if (stop) *stop = end - 1;
   return datetime<T> {year{ints[0]},
@@ -127,7 +127,7 @@ template<typename T>
         ("Invalid date format: \""+std::string(str)+
           "\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = (*end) ? end+1 : end;
   }
   errno = 0;
   secs = std::strtod(start, &end);
@@ -174,15 +174,16 @@ template<typename T>
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #1).");
   }
-  start = end+1;
+  start = (*end) ? end+1 : end;
 
-  if ( !std::isalpha(*start) ) ++start;
-  std::memcpy(month_str, start, 3);
+  if ( *start && !std::isalpha(static_cast<unsigned char>(*start)) ) ++start;
+  std::strncpy(month_str, start, 3);
   month_str[0] = std::toupper(month_str[0]);
   month_str[1] = std::tolower(month_str[1]);
   month_str[2] = std::tolower(month_str[2]);
   month mnt {month_str};
-  start += 4;
+  start += 3;
+  if (*start) ++start;
 
   for (int i = 2; i < 5; ++i) {
     errno = 0;
@@ -193,7 +194,7 @@ template<typename T>
         ("Invalid date format: \"" + std::string(str) 
          +"\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = (*end) ? end+1 : end;
   }
 
   errno = 0;
@@ -241,7 +242,7 @@ template<typename T>
         ("Invalid date format: \"" + std::string(str) 
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = (*end) ? end+1 : end;
   }
   errno = 0;
   secs = std::strtod(start, &end);
-- 
2.43.0


From e08e645578258c044a41597e6ab4a82c2fb8977c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:09 +0000
Subject: [PATCH 08/16] fix: readers accept fields that do not fit and missing
 seconds

A number that does not fit an int was silently truncated to an unrelated
date, nan/inf/huge seconds were cast to an integer (undefined behaviour)
and a missing seconds field was taken to be zero. Report all of these as
std::invalid_argument, as documented.
---
 src/datetime_read.hpp | 83 ++++++++++++++++++++++++-------------------
 1 file changed, 47 insertions(+), 36 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index 4ce07fa..6aa9951 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -17,6 +17,7 @@
 #include <cerrno>
 #include <cstdlib>
 #include <cctype>         // for std::isalpha
+#include <limits>
 #include <stdexcept>
 #include "dtfund.hpp"
 #include "dtcalendar.hpp"
@@ -27,6 +28,43 @@
 
 namespace ngpt {
 
+namespace ddetail {
+
+/// @brief Read one integral field (its absolute value).
+/// @return false if there is no number, or it does not fit an int.
+inline bool
+read_int(const char* start, char** end, int& value) noexcept
+{
+  errno = 0;
+  const long l = std::strtol(start, end, 10);
+  if (errno == ERANGE || start == *end
+      || l > std::numeric_limits<int>::max()
+      || l < -std::numeric_limits<int>::max()) {
+    errno = 0;
+    return false;
+  }
+  value = static_cast<int>(std::abs(l));
+  return true;
+}
+
+/// @brief Read the (fractional) seconds field.
+/// @return false if there is no number, or it is not a usable number of
+///         seconds (e.g. infinite).
+inline bool
+read_secs(const char* start, char** end, double& value) noexcept
+{
+  errno = 0;
+  value = std::strtod(start, end);
+  if (errno == ERANGE || start == *end
+      || !(std::abs(value) <= std::numeric_limits<int>::max())) {
+    errno = 0;
+    return false;
+  }
+  return true;
+}
+
+} // namespace ddetail
+
 /// @brief Read from YYYY-MM-DD
 ///
 /// Read and return a date from a c-string of type: YYYY-MM-DD, where the 
@@ -45,10 +83,7 @@ template<typename T>
   int ints[3];
 
   for (int i = 0; i < 3; ++i) {
-    errno = 0;
-    ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-    if (errno == ERANGE || start == end) {
-      errno = 0;
+    if (!ddetail::read_int(start, &end, ints[i])) {
       throw std::invalid_argument
         ("Invalid date format: \"" + std::string(str) 
          + "\" (argument #" + std::to_string(i+1) + ").");
@@ -82,10 +117,7 @@ template<typename T>
   int ints[2];
 
   for (int i = 0; i < 2; ++i) {
-    errno = 0;
-    ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-    if (errno == ERANGE || start == end) {
-      errno = 0;
+    if (!ddetail::read_int(start, &end, ints[i])) {
       throw std::invalid_argument
         ("Invalid date format: \"" + std::string(str)
          + "\" (argument #" + std::to_string(i+1) + ").");
@@ -119,20 +151,14 @@ template<typename T>
   double secs;
 
   for (int i = 0; i < 5; ++i) {
-    errno = 0;
-    ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-    if (errno == ERANGE || start == end) {
-      errno = 0;
+    if (!ddetail::read_int(start, &end, ints[i])) {
       throw std::invalid_argument
         ("Invalid date format: \""+std::string(str)+
           "\" (argument #" + std::to_string(i+1) + ").");
     }
     start = (*end) ? end+1 : end;
   }
-  errno = 0;
-  secs = std::strtod(start, &end);
-  if (errno == ERANGE) {
-    errno = 0;
+  if (!ddetail::read_secs(start, &end, secs)) {
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #6)");
   }
@@ -167,10 +193,7 @@ template<typename T>
   month_str[3] = '\0';
   double secs;
 
-  errno = 0;
-  ints[0] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-  if (errno == ERANGE || start == end) {
-    errno = 0;
+  if (!ddetail::read_int(start, &end, ints[0])) {
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #1).");
   }
@@ -186,10 +209,7 @@ template<typename T>
   if (*start) ++start;
 
   for (int i = 2; i < 5; ++i) {
-    errno = 0;
-    ints[i] = static_cast<int>( std::abs(std::strtol(start, &end, 10)) );
-    if (errno == ERANGE || start == end) {
-      errno = 0;
+    if (!ddetail::read_int(start, &end, ints[i])) {
       throw std::invalid_argument
         ("Invalid date format: \"" + std::string(str) 
          +"\" (argument #" + std::to_string(i+1) + ").");
@@ -197,10 +217,7 @@ template<typename T>
     start = (*end) ? end+1 : end;
   }
 
-  errno = 0;
-  secs = std::strtod(start, &end);
-  if (errno == ERANGE) {
-    errno = 0;
+  if (!ddetail::read_secs(start, &end, secs)) {
     throw std::invalid_argument
       ("Invalid date format: \"" + std::string(str) + "\" (argument #6)");
   }
@@ -234,20 +251,14 @@ template<typename T>
   double secs;
 
   for (int i = 0; i < 4; ++i) {
-    errno = 0;
-    ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-    if (errno == ERANGE || start == end) {
-      errno = 0;
+    if (!ddetail::read_int(start, &end, ints[i])) {
       throw std::invalid_argument
         ("Invalid date format: \"" + std::string(str) 
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
     start = (*end) ? end+1 : end;
   }
-  errno = 0;
-  secs = std::strtod(start, &end);
-  if (errno == ERANGE) {
-    errno = 0;
+  if (!ddetail::read_secs(start, &end, secs)) {
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #5)");
   }
-- 
2.43.0


From ea5380bd68b20278cc1080be65df46397b710002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:42 +0000
Subject: [PATCH 09/16] fix: fractional seconds lose a milli/microsecond

seconds*factor is computed in floating point and was truncated, so that
e.g. 1.001 seconds became 1000 milliseconds. Take a product which only
differs from an integer by its rounding error to be that integer; further
digits are still truncated.
---
 src/dtfund.hpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/dtfund.hpp b/src/dtfund.hpp
index db2286c..e34963f 100644
--- a/src/dtfund.hpp
+++ b/src/dtfund.hpp
@@ -98,6 +98,26 @@ class  microseconds;
 constexpr long
 cal2mjd(int iy, int im, int id);
 
+namespace ddetail {
+/// @brief Integral part of a number of (second) units.
+///
+/// Digits beyond the integral part are truncated, but a value which differs
+/// from the next integer only because of the binary representation of the
+/// (decimal) seconds it was computed from, is taken to be that integer; e.g.
+/// 1.001 * 1000 evaluates to 1000.9999999999999, meaning 1001 milliseconds.
+constexpr long
+whole_units(double u) noexcept
+{
+  const long t = static_cast<long>(u);
+  if (static_cast<double>(t) == u) return t;
+  const double next = static_cast<double>(t) + (u < 0e0 ? -1e0 : 1e0);
+  const double tol = 2e0 * std::numeric_limits<double>::epsilon()
+                     * (u < 0e0 ? -next : next);
+  const double diff = u < 0e0 ? u - next : next - u;
+  return diff <= tol ? static_cast<long>(next) : t;
+}
+} // namespace ddetail
+
 /// @brief Check if year is leap.
 ///
 /// @param[in] iy The year to check (int).
@@ -1361,7 +1381,7 @@ public:
   /// the fs input argument).
   explicit constexpr
   milliseconds(hours h, minutes m, double fs) noexcept
-    : m_sec{ static_cast<underlying_type>(fs * sec_factor<double>())
+    : m_sec{ ddetail::whole_units(fs * sec_factor<double>())
              + (m.as_underlying_type()*60L + h.as_underlying_type()*3600L)
              * sec_factor<underlying_type>()}
   {
@@ -1601,7 +1621,7 @@ public:
   ///       up to 10e-6.
   explicit constexpr
   microseconds(hours h, minutes m, double fs) noexcept
-    : m_sec{ static_cast<underlying_type>(fs * sec_factor<double>())
+    : m_sec{ ddetail::whole_units(fs * sec_factor<double>())
             + (m.as_underlying_type()*60L
             + h.as_underlying_type()*3600L) * sec_factor<underlying_type>() }
   {};
-- 
2.43.0


From c6c9c2f4b1e2c895a31eb5f1cd2340fa00c198b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:28 +0000
Subject: [PATCH 10/16] fix: hms readers report the wrong stop position

The stop argument is documented as the last character interpreted, which
is what the date-only readers return; the readers with a time of day
returned the character after it.
---
 src/datetime_read.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index 6aa9951..09416ab 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -162,7 +162,7 @@ template<typename T>
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #6)");
   }
-  if (stop) *stop = end;
+  if (stop) *stop = end - 1;
   return datetime<T> {year{ints[0]},
     month{ints[1]},
     day_of_month{ints[2]},
@@ -222,7 +222,7 @@ template<typename T>
       ("Invalid date format: \"" + std::string(str) + "\" (argument #6)");
   }
 
-  if (stop) *stop = end;
+  if (stop) *stop = end - 1;
 
   return datetime<T> {year{ints[0]},
     mnt,
@@ -262,7 +262,7 @@ template<typename T>
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #5)");
   }
-  if (stop) *stop = end;
+  if (stop) *stop = end - 1;
   return datetime<T> {year{ints[0]},
     day_of_year{ints[1]},
     hours{ints[2]},
-- 
2.43.0


From 10e6bbd98dbc1e1b349eb08270842c3e6af38c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:25 +0000
Subject: [PATCH 11/16] fix: date-time from a Modified Julian Day alone is
 ambiguous

---
 src/dtcalendar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index a0efd74..ab924ed 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -380,7 +380,7 @@ public:
   /// Constructor from modified julian day, hours, minutes and 
   /// second type S.
   explicit
-  datetime(modified_julian_day mjd, hours hr=hours(), minutes mn=minutes(),
+  datetime(modified_julian_day mjd, hours hr, minutes mn=minutes(),
            S sec=S()) noexcept
     : m_mjd{mjd},
       m_sec{hr, mn, sec}
-- 
2.43.0


From 8562a10f73b866af09c31519379b6840665705dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 12/16] fix: written text depends on the global locale

A program that sets the global locale (e.g. to the user's) got years with a
thousands separator and seconds with another decimal point.
---
 src/datetime_write.hpp | 3 +++
 src/dtcalendar.hpp     | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/datetime_write.hpp b/src/datetime_write.hpp
index 484b79e..e0fc7df 100644
--- a/src/datetime_write.hpp
+++ b/src/datetime_write.hpp
@@ -15,6 +15,7 @@
 
 #include <iostream>
 #include <iomanip>
+#include <locale>
 #include <sstream>
 #include <stdexcept>
 #include "dtfund.hpp"
@@ -28,6 +29,7 @@ inline std::string
 _d2s_(double d, int n=2) noexcept
 {
   std::stringstream stream;
+  stream.imbue(std::locale::classic()); // whatever the global locale is
   stream << std::fixed << std::setprecision(n) << d;
   return stream.str();
 }
@@ -37,6 +39,7 @@ inline std::string
 _i2s_(int i, int w=2) noexcept
 {
   std::stringstream stream;
+  stream.imbue(std::locale::classic()); // whatever the global locale is
   stream << std::setfill('0') << std::setw(w) << i;
   return stream.str();
 }
diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index ab924ed..33db7ac 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -15,6 +15,7 @@
 #define __DTCALENDAR_NGPT__HPP__
 
 #include <cassert>
+#include <locale>
 #include "dtfund.hpp"
 
 #ifdef DEBUG
@@ -740,6 +741,7 @@ public:
     seconds st { std::get<2>(hms) };
     double fsec { std::get<3>(hms) / S::template sec_factor<double>() };
     std::ostringstream out;
+    out.imbue(std::locale::classic()); // whatever the global locale is
     out << std::fixed << std::setprecision(9) 
         << (fsec + static_cast<double>(st.as_underlying_type()));
 
-- 
2.43.0


From 535a5bdabf37b84563c4485d4ec32ac747b99b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 13/16] fix: readers and month names depend on the locale of
 the program

With a decimal comma in force the fraction of the seconds was dropped, and
upper case names containing an I were rejected in a Turkish locale.
---
 src/datetime_read.hpp | 37 ++++++++++++++++++++++++++++++++-----
 src/dtfund.cpp        |  7 ++++++-
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index 09416ab..ebf1c82 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -16,7 +16,7 @@
 
 #include <cerrno>
 #include <cstdlib>
-#include <cctype>         // for std::isalpha
+#include <locale.h>       // for newlocale, uselocale (POSIX)
 #include <limits>
 #include <stdexcept>
 #include "dtfund.hpp"
@@ -30,11 +30,40 @@ namespace ngpt {
 
 namespace ddetail {
 
+/// @brief While an instance exists, this thread is in the "C" locale (so that
+///        the decimal point is '.', whatever locale the program has set).
+class c_locale_guard {
+public:
+  c_locale_guard() noexcept
+    : m_user{ uselocale(c_locale()) }
+  {};
+  ~c_locale_guard() noexcept
+  { uselocale(m_user); }
+  c_locale_guard(const c_locale_guard&) = delete;
+  c_locale_guard& operator=(const c_locale_guard&) = delete;
+
+private:
+  static locale_t
+  c_locale() noexcept
+  {
+    static const locale_t loc { newlocale(LC_ALL_MASK, "C", nullptr) };
+    return loc;
+  }
+
+  locale_t m_user; ///< the locale to restore
+}; // class c_locale_guard
+
+/// @brief Check for an (english) letter, whatever the locale is.
+inline bool
+is_letter(char c) noexcept
+{ return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
+
 /// @brief Read one integral field (its absolute value).
 /// @return false if there is no number, or it does not fit an int.
 inline bool
 read_int(const char* start, char** end, int& value) noexcept
 {
+  const c_locale_guard guard;
   errno = 0;
   const long l = std::strtol(start, end, 10);
   if (errno == ERANGE || start == *end
@@ -53,6 +82,7 @@ read_int(const char* start, char** end, int& value) noexcept
 inline bool
 read_secs(const char* start, char** end, double& value) noexcept
 {
+  const c_locale_guard guard;
   errno = 0;
   value = std::strtod(start, end);
   if (errno == ERANGE || start == *end
@@ -199,11 +229,8 @@ template<typename T>
   }
   start = (*end) ? end+1 : end;
 
-  if ( *start && !std::isalpha(static_cast<unsigned char>(*start)) ) ++start;
+  if ( *start && !ddetail::is_letter(*start) ) ++start;
   std::strncpy(month_str, start, 3);
-  month_str[0] = std::toupper(month_str[0]);
-  month_str[1] = std::tolower(month_str[1]);
-  month_str[2] = std::tolower(month_str[2]);
   month mnt {month_str};
   start += 3;
   if (*start) ++start;
diff --git a/src/dtfund.cpp b/src/dtfund.cpp
index 163a84b..80aba40 100644
--- a/src/dtfund.cpp
+++ b/src/dtfund.cpp
@@ -82,12 +82,17 @@ ngpt::cal2mjd(ngpt::year y, ngpt::month m, ngpt::day_of_month d)
   return ngpt::modified_julian_day{mjd};
 }
 
+/// Lowercase an (english) letter, whatever the locale is.
+static char
+__lower__(char c) noexcept
+{ return (c >= 'A' && c <= 'Z') ? static_cast<char>(c - 'A' + 'a') : c; }
+
 int
 __lower_strncmp__(const char *str1, const char *str2, std::size_t n=0)
 {
   if (!n) n = std::max(std::strlen(str1), std::strlen(str2));
   for (std::size_t i = 0; i < n; i++) 
-    if ( !(std::tolower(str1[i]) == std::tolower(str2[i])) ) 
+    if ( !(__lower__(str1[i]) == __lower__(str2[i])) ) 
       return 1;
   return 0;
 }
-- 
2.43.0


From c98f12e793d12b05569eced60f4e0879c63acb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:37 +0000
Subject: [PATCH 14/16] fix: with argument checks valid differences of
 date-times abort

---
 src/dtcalendar.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index 33db7ac..6e99675 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -600,7 +600,9 @@ public:
   constexpr S
   delta_sec(const datetime& d) const noexcept
   {
-    return (m_sec - d.m_sec) + mjd_sec_diff<S>(m_mjd, d.m_mjd);
+    // not as S: the difference of the times of day may be negative
+    auto sec = m_sec.as_underlying_type() - d.m_sec.as_underlying_type();
+    return S {sec + mjd_sec_diff<S>(m_mjd, d.m_mjd).as_underlying_type()};
   }
 
   /// Overload equality operator.
@@ -676,7 +678,13 @@ public:
   constexpr datetime_interval<S>
   delta_date(const datetime& d) const noexcept
   {
-    datetime_interval<S> dt { m_mjd - d.m_mjd, m_sec - d.m_sec };
+    modified_julian_day days { m_mjd - d.m_mjd };
+    S sec { m_sec };
+    if (sec < d.m_sec) { // borrow a day
+      --days;
+      sec += S{S::max_in_day};
+    }
+    datetime_interval<S> dt { days, sec - d.m_sec };
     dt.normalize();
     return dt;
   }
@@ -903,7 +911,9 @@ template<typename S1,
 {
   S1 diff  = mjd_sec_diff<S1>(d1.mjd(), d2.mjd()); // days dif in S1
   S1 s2sec = ngpt::cast_to<S2, S1>(d2.sec());      // cast d2 secs to S1
-  return diff + (d1.sec() - s2sec);
+  // not as S1: the difference of the times of day may be negative
+  auto sec = d1.sec().as_underlying_type() - s2sec.as_underlying_type();
+  return S1 {diff.as_underlying_type() + sec};
 }
 
 /// Difference of two datetime instances in seconds, when they are of different
@@ -934,7 +944,9 @@ template<typename S1,
 {
   S2 diff  = mjd_sec_diff<S2>(d1.mjd(), d2.mjd()); // days dif in S2
   S2 s1sec = ngpt::cast_to<S1, S2>(d1.sec());      // cast d1 secs to S2
-  return diff + (s1sec - d2.sec());
+  // not as S2: the difference of the times of day may be negative
+  auto sec = s1sec.as_underlying_type() - d2.sec().as_underlying_type();
+  return S2 {diff.as_underlying_type() + sec};
 }
 
 /// Because we have a function of type:
-- 
2.43.0


From f686e645fcf6828722e1aa30a4f90026043a5c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:37 +0000
Subject: [PATCH 15/16] fix: with argument checks removing finer seconds across
 midnight aborts

---
 src/dtcalendar.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index 6e99675..b8dc258 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -858,7 +858,8 @@ private:
   {
     T sect = ngpt::cast_to<S, T>(m_sec);
     sect -= sec;
-    m_sec = ngpt::cast_to<T, S>(sect);
+    // not as S: the time of day may be negative until it is normalized
+    m_sec = sect.as_underlying_type() / (T::max_in_day / S::max_in_day);
     this->normalize();
 #ifdef USE_DATETIME_CHECKS
     assert(m_mjd >= modified_julian_day{0} && m_sec >= S{0});
-- 
2.43.0


From 488a427791b391cde98be31ece04279e477d453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:28 +0000
Subject: [PATCH 16/16] fix: TAI-UTC of far future years is read outside the
 table

12 times the year overflows an int from year 178956971 on.
---
 src/dat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dat.cpp b/src/dat.cpp
index 5fd60f7..8301899 100644
--- a/src/dat.cpp
+++ b/src/dat.cpp
@@ -74,7 +74,7 @@ ngpt::dat(ngpt::year iy, ngpt::month im) noexcept
   constexpr int NDAT { (int) (sizeof changes / sizeof changes[0]) };
 
   // Combine year and month to form a date-ordered integer...
-  int m = 12*iy.as_underlying_type() + im.as_underlying_type();
+  long m = 12L*iy.as_underlying_type() + im.as_underlying_type();
   // ...and use it to find the preceding table entry.
   int idx = NDAT-1;
   for (; idx >= 0; idx--) {
-- 
2.43.0

