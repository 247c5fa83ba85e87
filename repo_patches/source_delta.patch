From 4906c1aa3e7f43cdc27fc80600c5b7855dc54249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 01/31] fix: year 1162 is covered by the Naw-Ruz coefficients,
 so year 1161 is not a leap year

The last P1 range stopped one year short of the table's end, which put
Naw-Ruz 1162 a day late and gave year 1161 a fifth intercalary day one
year after the leap year 1160.  date.max.toordinal() moves with it.
---
 badidatetime/_coefficients.py | 2 +-
 badidatetime/datetime.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/_coefficients.py b/badidatetime/_coefficients.py
index 6ebd958..24053f7 100644
--- a/badidatetime/_coefficients.py
+++ b/badidatetime/_coefficients.py
@@ -15,7 +15,7 @@ class Coefficients:
           (-1251, -1215), (-1099, -1083), (-983, -947), (-851, -815),
           (-699, -683), (-583, -547), (-451, -415), (-299, -283), (-179, -143),
           (-47, -11), (101, 117), (213, 249), (345, 381), (501, 513),
-          (609, 645), (741, 777), (901, 909), (1005, 1041), (1137, 1162))
+          (609, 645), (741, 777), (901, 909), (1005, 1041), (1137, 1163))
     P1100 = ((-1699, -1683), (-1299, -1283), (-899, -883), (-499, -483),
              (-99, -79), (301, 313), (701, 709), (1101, 1105))
     P1110 = ((-1799, -1783), (-1683, -1651), (-1399, -1383), (-1283, -1251),
diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 2ccd727..68dfb8e 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -18,7 +18,7 @@ from .badi_calendar import BahaiCalendar
 from ._timedateutils import _td_utils
 
 
-_MAXORDINAL = 1097267  # date.max.toordinal()
+_MAXORDINAL = 1097266  # date.max.toordinal()
 MINYEAR = BahaiCalendar.MINYEAR
 MAXYEAR = BahaiCalendar.MAXYEAR
 BADI_IANA = BahaiCalendar._BAHAI_LOCATION[3]  # Asia/Tehran
-- 
2.43.0


From f58613fb7a9d921eda1766077187d754037d3417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 02/31] fix: the last Rata Die is the last day of the last
 supported year

_RD_END was the first day of MAXYEAR, so every later day of that year was
rejected when converted from a JD, ordinal or timestamp.
---
 badidatetime/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/__init__.py b/badidatetime/__init__.py
index e5e87c3..d63b078 100644
--- a/badidatetime/__init__.py
+++ b/badidatetime/__init__.py
@@ -114,7 +114,7 @@ def init_leap_cache():
     """
     bc = BahaiCalendar
     bc._YEAR_START = BahaiCalendar()._build_badi_year_start()
-    bc._RD_END = bc._YEAR_START[bc.MAXYEAR]
+    bc._RD_END = bc._YEAR_START[bc.MAXYEAR + 1] - 1
 
 
 if BahaiCalendar._YEAR_START is None:
-- 
2.43.0


From 116db94cb5919d817f9de94bcc73a26b6bd11c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 03/31] fix: dates and datetimes order chronologically in short
 and long form

Comparison used the raw fields: Ayyam-i-Ha (month 0) sorted before month 1,
a long form datetime lost its Kull-i-Shay and Vahid, and comparing a long
with a short form date raised AttributeError.  Hashes follow equality.
---
 badidatetime/datetime.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 68dfb8e..f85df23 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -776,16 +776,18 @@ class date(BahaiCalendar):
         """
         assert isinstance(other, date)
 
-        if self.is_short:
-            d0 = self._year, self._month, self._day
-            d1 = other._year, other._month, other._day
-        else:
-            d0 = (self._kull_i_shay, self._vahid, self._year,
-                  self._month, self._day)
-            d1 = (other._kull_i_shay, other._vahid, other._year,
-                  other._month, other._day)
+        return _cmp(self._cmp_key(), other._cmp_key())
+
+    def _cmp_key(self) -> tuple:
+        """
+        The short form year, month, and day in chronological order, month 0
+        (Ayyám-i-Há) falls between months 18 and 19.
 
-        return _cmp(d0, d1)
+        :returns: A tuple that compares in the same way as the date does.
+        :rtype: tuple
+        """
+        year, month, day = self._short_from_long_form()[:3]
+        return year, month if month else 18.5, day
 
     def __hash__(self) -> int:
         """
@@ -795,7 +797,7 @@ class date(BahaiCalendar):
         :rtype: int
         """
         if self._hashcode == -1:
-            self._hashcode = hash(self._getstate())
+            self._hashcode = hash(self._cmp_key())
 
         return self._hashcode
 
@@ -2397,10 +2399,10 @@ class datetime(date):
             base_compare = myoff == otoff
 
         if base_compare:
-            return _cmp((self._year, self._month, self._day, self._hour,
-                         self._minute, self._second, self._microsecond),
-                        (other._year, other._month, other._day, other._hour,
-                         other._minute, other._second, other._microsecond))
+            return _cmp((*self._cmp_key(), self._hour, self._minute,
+                         self._second, self._microsecond),
+                        (*other._cmp_key(), other._hour, other._minute,
+                         other._second, other._microsecond))
 
         if myoff is None or otoff is None:
             if allow_mixed:
@@ -2500,9 +2502,9 @@ class datetime(date):
             tzoff = t.utcoffset()
 
             if tzoff is None:
-                self._hashcode = hash(t._getstate()[0])
+                self._hashcode = hash((*self._cmp_key(), *self.b_time))
             else:
-                days = _td_utils._ymd2ord(self.year, self.month, self.day)
+                days = self.toordinal()
                 seconds = self.hour * 3600 + self.minute * 60 + self.second
                 self._hashcode = hash(timedelta(days, seconds,
                                                 self.microsecond) - tzoff)
-- 
2.43.0


From 69f4ef36c52fefa7c7eeab10f46c3cd44e27fe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:57 +0000
Subject: [PATCH 04/31] fix: a long form datetime keeps its Kull-i-Shay and
 Vahid

date(), isoformat() and timestamp() took the year within the Vahid for the
year, so date() of (1, 10, 10, 9, 6) was year 10, not year 181.
---
 badidatetime/datetime.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index f85df23..8c0c837 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1950,8 +1950,8 @@ class datetime(date):
         :returns: The POSIX timestamp.
         :rtype: float
         """
-        return self.timestamp_from_badi_date(self.b_date + self.b_time,
-                                             *LOCAL_COORD)
+        date = self._short_from_long_form()[:3]
+        return self.timestamp_from_badi_date(date + self.b_time, *LOCAL_COORD)
 
     def timestamp(self) -> float:
         """
@@ -1994,7 +1994,7 @@ class datetime(date):
         :returns: The date part of the `datetime` instance.
         :rtype: date
         """
-        return date(self._year, self._month, self._day)
+        return date(*self.b_date)
 
     def time(self):
         """
@@ -2192,7 +2192,8 @@ class datetime(date):
         :returns: An ISO formatted string.
         :rtype: str
         """
-        s = (f"{self._year:04d}-{self._month:02d}-{self._day:02d}{sep}" +
+        year, month, day = self._short_from_long_form()[:3]
+        s = (f"{year:04d}-{month:02d}-{day:02d}{sep}" +
              _format_time(self._hour, self._minute, self._second,
                           self._microsecond, timespec))
 
-- 
2.43.0


From e41bfb493862daab9170597303c67854a501f366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:57 +0000
Subject: [PATCH 05/31] fix: the timestamp of a naive datetime counts its
 microseconds once

_mktime() already includes them.
---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 8c0c837..078e7dc 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1961,7 +1961,7 @@ class datetime(date):
         :rtype: float
         """
         if self.tzinfo is None:
-            return self._mktime() + self.microsecond / 1e6
+            return self._mktime()
         else:
             return (self - _EPOCH).total_seconds()
 
-- 
2.43.0


From 03d6ae6e7742e4255deb8d955f572693d34c103b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:57 +0000
Subject: [PATCH 06/31] fix: dates in Ayyam-i-Ha and times with hour 24 survive
 pickling

The pickle data test rejected month 0 and hour 24, which are valid, so
loading (and copying) such an object raised an exception.
---
 badidatetime/datetime.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 078e7dc..b82262b 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -912,8 +912,8 @@ class date(BahaiCalendar):
                 f"Invalid string {a} had length of {a_len} for pickle.")
             short = True if a_len == 4 else False
 
-            if ((short and 1 <= ord(a[2:3]) <= 19)
-                or not short and 1 <= ord(a[3:4]) <= 19):
+            if ((short and 0 <= ord(a[2:3]) <= 19)
+                or not short and 0 <= ord(a[3:4]) <= 19):
                 if isinstance(a, str):
                     try:
                         a = a.encode('latin1')
@@ -1104,7 +1104,7 @@ class time:
         :rtype: time
         """
         if (isinstance(hour, (bytes, str)) and len(hour) == 6 and
-            ord(hour[0:1]) & 0x7F < 24):
+            ord(hour[0:1]) & 0x7F < 25):
             # Pickle support
             if isinstance(hour, str):
                 try:
@@ -2533,8 +2533,8 @@ class datetime(date):
                 f"Invalid string {a} had length of {a_len} for pickle.")
             short = True if a_len == 10 else False
 
-            if ((short and 1 <= ord(a[2:3]) & 0x7F <= 19)
-                or not short and 1 <= ord(a[3:4]) & 0x7F <= 19):
+            if ((short and 0 <= ord(a[2:3]) & 0x7F <= 19)
+                or not short and 0 <= ord(a[3:4]) & 0x7F <= 19):
                 if isinstance(a, str):
                     try:
                         a = a.encode('latin1')
-- 
2.43.0


From 03d09348f653b26fe06a59ce86d40d8b947c9700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:57 +0000
Subject: [PATCH 07/31] fix: TZWithCoords.fromzoneinfo keeps the zoneinfo on
 the new instance

It was stored on the class, so dst() of every other TZWithCoords, UTC
included, changed with the last call.
---
 badidatetime/datetime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index b82262b..866cde2 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2908,8 +2908,9 @@ class TZWithCoords(timezone):
         :returns: A TZWithCoords object.
         :rtype: TZWithCoords
         """
-        cls._zi = zoneinfo
-        return cls(lat, lon, zone, key=zoneinfo.key)
+        self = cls(lat, lon, zone, key=zoneinfo.key)
+        self._zi = zoneinfo
+        return self
 
     def __str__(self) -> str:
         """
-- 
2.43.0


From bc5e512ca2567b313f0ee10f00884ff2c8d14642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 08/31] fix: a pickled TZWithCoords keeps its zone, name, and
 zoneinfo

Unpickling and copying left zone and the name unset, so str() and tzname()
differed from the original's.
---
 badidatetime/datetime.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 866cde2..2e96393 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2933,8 +2933,12 @@ class TZWithCoords(timezone):
         :returns: The class data.
         :rtype: tuple
         """
-        return (self.__class__, (self.lat, self.lon),
-                {"zone": self._coords[2], "key": self.key})
+        state = {"zone": self._coords[2], "key": self.key}
+
+        if hasattr(self, '_zi'):
+            state["zi"] = self._zi
+
+        return (self.__class__, (self.lat, self.lon), state)
 
     def __setstate__(self, state: dict) -> None:
         """
@@ -2949,7 +2953,12 @@ class TZWithCoords(timezone):
         if zone is not None:
             self._offset = timedelta(hours=zone)
 
+        if (zi := state.get("zi")) is not None:
+            self._zi = zi
+
         self.key = key
+        self.zone = zone
+        self._name = key or None
         self._coords = (self.lat, self.lon, zone)
 
 
-- 
2.43.0


From aa628fddb38900b3c1b0a997cf7f085765aa757c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 09/31] fix: a negative ISO time zone offset negates its
 minutes too

-03:30 was parsed as -02:30.
---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 2456039..a13664b 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1409,7 +1409,7 @@ class TimeDateUtils(BahaiCalendar):
                 tz = timezone.badi
             else:
                 offset = [int(x) for x in tzstr[1:].split(':')]
-                offset[0] = offset[0] * -1 if nc else offset[0]
+                offset = [x * -1 if nc else x for x in offset]
                 offset += [0] if len(offset) == 1 else []
                 tz = timezone(timedelta(hours=offset[0], minutes=offset[1]))
         else:
-- 
2.43.0


From 67518397a8fc3e36a65d668e4c92a13a4710075a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 10/31] fix: the YYYYMMDD ISO format parses both digits of the
 day

---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index a13664b..ac0ca57 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1244,7 +1244,7 @@ class TimeDateUtils(BahaiCalendar):
         if dc == 1 and d_len == 7 and not wc:    # YYYY-MM
             date = (year, int(dtstr[5:7]), 1)
         elif dc == 0 and d_len == 8 and not wc:  # YYYYMMDD
-            date = (year, int(dtstr[4:6]), int(dtstr[7:9]))
+            date = (year, int(dtstr[4:6]), int(dtstr[6:8]))
         elif dc == 2 and not wc:                 # YYYY-MM-DD
             date = (year, int(dtstr[5:7]), int(dtstr[8:10]))
         # YYYYWww, YYYY-Www, YYYYWwwD, YYYY-Www-D
-- 
2.43.0


From 26a6078c98e519dcc9380d15e929ae0c74c2d714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 11/31] fix: fromisoformat parses the years -999 to -1 that
 isoformat writes

isoformat pads the year to four characters including the minus sign, as
in -261-11-08, which the parser did not accept.
---
 badidatetime/_timedateutils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index ac0ca57..35f51f9 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1226,6 +1226,11 @@ class TimeDateUtils(BahaiCalendar):
 
         if dtstr != '':
             neg = dtstr[0] == '-'
+
+            # The isoformat methods use 3 digits for years -999 to -1.
+            if neg and dtstr[4:5] == '-':
+                dtstr = '-0' + dtstr[1:]
+
             year = int(dtstr[:4 + neg])
             assert _td_utils.MINYEAR <= year <= _td_utils.MAXYEAR, (
                 f"Year is out of range: {year}, min {_td_utils.MINYEAR}, "
-- 
2.43.0


From 42fde8121dcc89b6f77429959ebdc2f7774298fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 12/31] fix: microseconds are rounded from the fraction of a
 second, not truncated

int(0.000249 * 1e6) is 248, so times read back from a fraction could lose
a microsecond, and a fraction that rounds up gave 1000000 microseconds.
---
 badidatetime/base_calendar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/badidatetime/base_calendar.py b/badidatetime/base_calendar.py
index b18648b..a11ce5b 100644
--- a/badidatetime/base_calendar.py
+++ b/badidatetime/base_calendar.py
@@ -39,7 +39,8 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
     _PARTIAL_DAY_TO_HOURS = lambda self, x: round((x % 1) * 24, 6)
     _PARTIAL_HOUR_TO_MINUTE = lambda self, x: round((x % 1) * 60, 6)
     _PARTIAL_MINUTE_TO_SECOND = _PARTIAL_HOUR_TO_MINUTE
-    _PARTIAL_SECOND_TO_MICROSECOND = lambda self, x: int(round(x % 1, 6) * 1e6)
+    _PARTIAL_SECOND_TO_MICROSECOND = lambda self, x: min(
+        round((x % 1) * 1e6), 999999)
 
     _MEAN_TROPICAL_YEAR = 365.2421897
     # MEAN_SIDEREAL_YEAR = 365.256363004
@@ -1209,7 +1210,7 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
         sec = (seconds - hours * 3600) - minutes * 60
 
         if us:
-            sms = (math.floor(sec), int(round(sec % 1, 6) * 1e6))
+            sms = (math.floor(sec), self._PARTIAL_SECOND_TO_MICROSECOND(sec))
         else:
             sms = (sec,)
 
-- 
2.43.0


From 78f8e73cdc16c3f4f3906893367854ba4840301f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 13/31] fix: the nutation at J2000 is computed on a new
 calendar object too

The empty cache entry claimed to be the value for the century 0.
---
 badidatetime/base_calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/base_calendar.py b/badidatetime/base_calendar.py
index a11ce5b..b68d122 100644
--- a/badidatetime/base_calendar.py
+++ b/badidatetime/base_calendar.py
@@ -64,7 +64,7 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
 
     def __init__(self, *args, **kwargs):
         self._time = None
-        self._nutation = {'lon': (0, 0, False), 'obl': (0, 0, False)}
+        self._nutation = {'lon': (None, 0, False), 'obl': (None, 0, False)}
         self._sun_tss = {'trn': (), 'rsn': (), 'stn': ()}
 
     #
-- 
2.43.0


From 008396d6929f273396511528bdedf51324ab8fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 14/31] fix: a fractional hour or minute never gives minute or
 second 60

59.9999999 minutes rounded to 60.0 and was stored unchecked.
---
 badidatetime/datetime.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 2e96393..813eafe 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1684,15 +1684,15 @@ class datetime(date):
         fractionals(second, (microsecond,))
 
         if hour % 1:
-            mm = self._PARTIAL_HOUR_TO_MINUTE(hour)
-            ss = self._PARTIAL_MINUTE_TO_SECOND(mm)
+            mm = min(self._PARTIAL_HOUR_TO_MINUTE(hour), 59.999999)
+            ss = min(self._PARTIAL_MINUTE_TO_SECOND(mm), 59.999999)
             self._hour = _math.floor(hour)
             self._minute = _math.floor(mm)
             self._second = _math.floor(ss)
             self._microsecond = self._PARTIAL_SECOND_TO_MICROSECOND(ss)
         elif minute % 1:
             self._hour = hour
-            ss = self._PARTIAL_MINUTE_TO_SECOND(minute)
+            ss = min(self._PARTIAL_MINUTE_TO_SECOND(minute), 59.999999)
             self._minute = _math.floor(minute)
             self._second = _math.floor(ss)
             self._microsecond = self._PARTIAL_SECOND_TO_MICROSECOND(ss)
-- 
2.43.0


From c8e8f147e8481f16e54e8561552a4d78803bc008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 15/31] fix: time <= raises TypeError for mixed naive and aware
 times like <, >, >=

---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 813eafe..132ef17 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1204,7 +1204,7 @@ class time:
                 if isinstance(other, time) else NotImplemented)
 
     def __le__(self, other):
-        return (self._cmp(other, time) <= 0 if isinstance(other, time)
+        return (self._cmp(other) <= 0 if isinstance(other, time)
                 else NotImplemented)
 
     def __lt__(self, other):
-- 
2.43.0


From b67b5a6a0b848c02c77c9cb6a2792dbc6e8c9624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 16/31] fix: three or more exclusive options are rejected like
 two

---
 badidatetime/base_calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/base_calendar.py b/badidatetime/base_calendar.py
index b68d122..4fc335c 100644
--- a/badidatetime/base_calendar.py
+++ b/badidatetime/base_calendar.py
@@ -1623,7 +1623,7 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
         :rtype: bool
         """
         count = sum(booleans)
-        return (count % 2 == 1) or (count == 0)
+        return count in (0, 1)
 
     def _local_zone_correction(self, jd_ut: float, zone: float=None,
                                lon: float=None, *, inverse: bool=False,
-- 
2.43.0


From 923d6fe34afd7df3a4ab39fa71aa157e8df5c3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 17/31] fix: set_local_coordinates accepts whole number
 coordinates

set_local_coordinates(40, -74) silently used Tehran.
---
 badidatetime/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/__init__.py b/badidatetime/__init__.py
index d63b078..814e72f 100644
--- a/badidatetime/__init__.py
+++ b/badidatetime/__init__.py
@@ -53,8 +53,8 @@ def _get_local_coordinates() -> tuple | None:
     """
     offset, dst, key = _local_timezone_info()
 
-    if (_LOCAL_COORDS and isinstance(_LOCAL_COORDS[0], float)
-        and isinstance(_LOCAL_COORDS[1], float)):
+    if (_LOCAL_COORDS and isinstance(_LOCAL_COORDS[0], (int, float))
+        and isinstance(_LOCAL_COORDS[1], (int, float))):
         lat = _LOCAL_COORDS[0]
         lon = _LOCAL_COORDS[1]
     elif _LOCAL_COORDS and _LOCAL_COORDS[2]:
-- 
2.43.0


From 825f2fd78b8725628f02c77446de72f229b63a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:46 +0000
Subject: [PATCH 18/31] fix: dates beside 29 February of a century year convert
 to and from a JD

---
 badidatetime/badi_calendar.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index 91df1e2..5ab41e8 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -201,11 +201,12 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         # The day may have a decimal component. ex. 1.5 = (1 day and 12 hours)
         # This day is relative to UTC time, so we need to compensate for Badí'
         # time since a Badí' day starts at sunset, not at midnight.
+        jd += self._get_day_coeff(year)
         jd0 = self._meeus_from_exact(jd)
-        coeff = self._get_day_coeff(year)
-        jd0 += coeff
         jd_ss = self._sun_setting(jd0, lat, lon)
-        a_ss = self._exact_from_meeus(jd_ss)
+        # The sunset belongs to the same civil day, so it is converted back
+        # with the difference of this day.
+        a_ss = jd_ss - (jd0 - jd)
         day_frac = self._decimal_day_from_hms(hh, mm, ss, us)
         return round(a_ss + day_frac, self._ROUNDING_PLACES)
 
@@ -791,9 +792,11 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         """
         def get_sunset(hist_jd, inc):
             ss = self._sun_setting(hist_jd + inc, lat, lon)
-            return self._exact_from_meeus(ss)
+            return ss - diff
 
         hist_jd = self._meeus_from_exact(jd)
+        # A sunset is converted back with the difference of its day.
+        diff = round(hist_jd - jd)
         ss_prev = get_sunset(hist_jd, -1)
         ss_curr = get_sunset(hist_jd, 0)
         astro_ss = ss_curr if jd >= ss_curr else ss_prev
-- 
2.43.0


From 6a683068316df2afcb472aaae15d3efa56afacac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 19/31] fix: date and datetime reject the years -1843 and 1162
 outside MINYEAR..MAXYEAR

---
 badidatetime/_timedateutils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 35f51f9..3a7cc87 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1446,6 +1446,10 @@ class TimeDateUtils(BahaiCalendar):
             b_date = (a, b, c, d, e)
 
         self._check_valid_badi_date(b_date, short_in=short_in)
+        year = a if short_in else (a - 1) * 361 + (b - 1) * 19 + c
+        assert self.MINYEAR <= year <= self.MAXYEAR, (
+            f"Invalid year '{year}' it must be in the range of "
+            f"[{self.MINYEAR}, {self.MAXYEAR}].")
 
     def _check_time_fields(self, hour: int, minute: int, second: int,
                            microsecond: int, fold: int) -> None:
-- 
2.43.0


From cceb086013856ea7efe3a23d98ab554d81783d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:50 +0000
Subject: [PATCH 20/31] fix: reject kull_i_shay=0 and vahid=0 when replacing
 fields of a short form date

---
 badidatetime/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 132ef17..10cd720 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -644,7 +644,7 @@ class date(BahaiCalendar):
         :returns: A date instance with replaced items.
         :rtype: date
         """
-        if self.is_short and (kull_i_shay or vahid):
+        if self.is_short and (kull_i_shay is not None or vahid is not None):
             msg = "Cannot convert from a short to a long form date."
             raise ValueError(msg)
         elif (not self.is_short and year is not None and
@@ -2055,7 +2055,7 @@ class datetime(date):
         if fold is None:  # pragma: no cover
             fold = self.fold
 
-        if self.is_short and (kull_i_shay or vahid):
+        if self.is_short and (kull_i_shay is not None or vahid is not None):
             msg = "Cannot convert from a short to a long form date."
             raise ValueError(msg)
         elif (not self.is_short and year is not None and
-- 
2.43.0


From 3ba5b50b67e487cd836c5cda4ce60fe148f46ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:53 +0000
Subject: [PATCH 21/31] fix: match every accepted spelling of latitude in
 _dms_from_decimal

_dms_from_decimal(-33.9, 'latitude') returned the letter W (and E for a
northern latitude); only the abbreviation 'lat' was recognised.
---
 badidatetime/base_calendar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/base_calendar.py b/badidatetime/base_calendar.py
index 4fc335c..1d15250 100644
--- a/badidatetime/base_calendar.py
+++ b/badidatetime/base_calendar.py
@@ -1101,9 +1101,9 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
         seconds = (abs(coord) - degrees - (minutes / 60)) * 3600
 
         if coord < 0:
-            direc = 'S' if direction == 'LAT' else 'W'
+            direc = 'S' if direction.startswith('LAT') else 'W'
         else:
-            direc = 'N' if direction == 'LAT' else 'E'
+            direc = 'N' if direction.startswith('LAT') else 'E'
 
         return degrees, minutes, seconds, direc
 
-- 
2.43.0


From 66fb2158e8298b5174a918c6589aa83f4702a2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:53 +0000
Subject: [PATCH 22/31] fix: posix_timestamp of the last day of a year

The first day has number 1, so that 31 December has the number of days of
the year; it was carried into the next year and then rejected as day 0.
---
 badidatetime/gregorian_calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/gregorian_calendar.py b/badidatetime/gregorian_calendar.py
index 19212ff..725d1a9 100644
--- a/badidatetime/gregorian_calendar.py
+++ b/badidatetime/gregorian_calendar.py
@@ -214,7 +214,7 @@ class GregorianCalendar(BaseCalendar):
         while True:
             leap = self._is_leap_year(year)
             diy = 365 + leap
-            if days < diy: break
+            if days <= diy: break
             days -= diy
             year += 1
 
-- 
2.43.0


From 8ae37c50740c8fa3b4f491d1c9d94db45acf84bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:25 +0000
Subject: [PATCH 23/31] fix: posix_timestamp returned a second of 60.0

A time less than half a microsecond before a full minute, 51048299.9999996
for example, gave 20:04:60.0 instead of 20:05:00.
---
 badidatetime/gregorian_calendar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/badidatetime/gregorian_calendar.py b/badidatetime/gregorian_calendar.py
index 725d1a9..abfa53b 100644
--- a/badidatetime/gregorian_calendar.py
+++ b/badidatetime/gregorian_calendar.py
@@ -204,7 +204,8 @@ class GregorianCalendar(BaseCalendar):
         :returns: The time of the day corrected for the timezone.
         :rtype: tuple
         """
-        t += zone * 3600
+        # Round first so that the seconds cannot round up to 60 below.
+        t = round(t + zone * 3600, 6)
         days = math.floor(t / self._SECONDS_PER_DAY)
         year = 1970
         leap = False
-- 
2.43.0


From 2a724d549de7ac110fe43ac12672728e3db90599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:50 +0000
Subject: [PATCH 24/31] fix: use the sunset of its own local day on both sides
 of a JD scale junction

---
 badidatetime/badi_calendar.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index 5ab41e8..d6a7cec 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -790,15 +790,21 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         :returns: The JD with the correct Badí' time.
         :rtype: float
         """
-        def get_sunset(hist_jd, inc):
-            ss = self._sun_setting(hist_jd + inc, lat, lon)
-            return ss - diff
+        def get_sunset(day):
+            # The historic day is that of the sunset's own local day, as it
+            # is in jd_from_badi_date.
+            try:
+                diff = self._meeus_from_exact(day) - day
+            except ValueError:  # A day of the Gregorian reform
+                diff = round(hist_jd - jd)
+
+            return self._sun_setting(day + diff - lon_frac, lat, lon) - diff
 
         hist_jd = self._meeus_from_exact(jd)
-        # A sunset is converted back with the difference of its day.
-        diff = round(hist_jd - jd)
-        ss_prev = get_sunset(hist_jd, -1)
-        ss_curr = get_sunset(hist_jd, 0)
+        lon_frac = lon / 360.0
+        day = math.floor(jd + lon_frac + 0.5)
+        ss_prev = get_sunset(day - 1)
+        ss_curr = get_sunset(day)
         astro_ss = ss_curr if jd >= ss_curr else ss_prev
         delta = jd - astro_ss
 
-- 
2.43.0


From dcd09ebc7ce5d3c1327ed6561541b8022d4997a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:57 +0000
Subject: [PATCH 25/31] fix: strftime dropped the literal character after - or
 : and formatted what follows %%

---
 badidatetime/_timedateutils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 3a7cc87..22eacae 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -888,7 +888,8 @@ class TimeDateUtils(BahaiCalendar):
                 ch1 = format[idx+i]
                 strf += self.__METHOD_LOOKUP[ch1](
                     self, ttup, ch1, ch0 if i == 2 else '')
-            elif format[idx-1] not in '%-:':
+                idx += i
+            elif ch != '%':
                 strf += ch
 
             idx += 1
@@ -907,7 +908,7 @@ class TimeDateUtils(BahaiCalendar):
         while idx < fmtlen:
             ch = format[idx]
 
-            if ch == '%' and format[idx-1] != '%':
+            if ch == '%' and fmtlen > 1:
                 ch0 = format[idx+1]
                 i = 2 if ch0 in '-:' else 1
                 ch1 = format[idx+i]
@@ -918,6 +919,8 @@ class TimeDateUtils(BahaiCalendar):
                     raise ValueError(
                         f"Invalid format character '{format[idx:idx+i+1]}'")
 
+                idx += i
+
             idx += 1
 
         if fmtlen == 0:
-- 
2.43.0


From 13012b4861dc706610d47eee044cc4176e76b83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:34 +0000
Subject: [PATCH 26/31] fix: strftime rejected the documented directive %w

---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 22eacae..1d81f8a 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -20,7 +20,7 @@ class TimeDateUtils(BahaiCalendar):
     use is through a pre-instantiated object _td_utils.
     """
     # Badi additions are %:K for Kull-i-Shay and %:V for Váḥid.
-    _VALID_FORMAT_CHRS = 'aAbBcCdDefGhHIjkKlmMnprSTuUVWxXyYzZ%'
+    _VALID_FORMAT_CHRS = 'aAbBcCdDefGhHIjkKlmMnprSTuUVwWxXyYzZ%'
     """
     str: A list of all the format characters.
     """
-- 
2.43.0


From 04df70b89c022dd77303852bf8e9d84dfe0c4864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:34 +0000
Subject: [PATCH 27/31] fix: strftime %C rounded the century of a negative year
 down

---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 1d81f8a..037de81 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -356,7 +356,7 @@ class TimeDateUtils(BahaiCalendar):
         """
         year = self._get_year(ttup)
         n = '-' if year < 0 else ''
-        return f"{n}{abs(math.floor(year / 100)):02}"
+        return f"{n}{abs(int(year / 100)):02}"
 
     def d(self, ttup, org, mod):
         """
-- 
2.43.0


From 073abfdb445610d6e5eb130c256cd4abd7dd2e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:34 +0000
Subject: [PATCH 28/31] fix: strftime %G gave the calendar year, not the ISO
 year

---
 badidatetime/_timedateutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 037de81..3d21b84 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -440,7 +440,8 @@ class TimeDateUtils(BahaiCalendar):
                  number.
         :rtype: str
         """
-        year = self._get_year(ttup)
+        year, week, day = self._year_week_day(
+            self._get_year(ttup), ttup.tm_mon, ttup.tm_mday)
         n = '-' if year < 0 else ''
         return f"{n}{abs(year):04}"
 
-- 
2.43.0


From 62069df38474cb43e637d7329641f1e5a68343f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:34 +0000
Subject: [PATCH 29/31] fix: strftime %e and %l put a space before numbers of
 two digits

---
 badidatetime/_timedateutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 3d21b84..cfb8919 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -372,7 +372,7 @@ class TimeDateUtils(BahaiCalendar):
         if mod == '-':
             st = f"{ttup.tm_mday}"
         else:
-            pad = ' ' if org == 'e' else 0
+            pad = '>' if org == 'e' else 0
             st = f"{ttup.tm_mday:{pad}2}"
 
         return st
@@ -499,7 +499,7 @@ class TimeDateUtils(BahaiCalendar):
         if org == 'l' and mod == '-':
             st = f"{hour}"
         elif org == 'l':
-            st = f"{hour: 2}"
+            st = f"{hour:>2}"
         else:  # %I
             st = f"{hour:02}"
 
-- 
2.43.0


From eabf40de10198f591078467f4faecd017b11cc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:34 +0000
Subject: [PATCH 30/31] fix: strptime took the weekday of %u one day late

---
 badidatetime/_strptime.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/badidatetime/_strptime.py b/badidatetime/_strptime.py
index 0aa2800..47d1d40 100644
--- a/badidatetime/_strptime.py
+++ b/badidatetime/_strptime.py
@@ -372,6 +372,11 @@ class StrpTime:
     def start(self):
         found, locale_time = self._find_regex()
         dot_dict = self._parse_found_dict(found, locale_time)
+
+        # The %u directive counts the weekdays from 1, not 0.
+        if [k for k in found.groupdict() if k in 'aAwu'][-1:] == ['u']:
+            dot_dict.weekday -= 1
+
         self._check_iso_week(dot_dict)
         self._miscellaneous(dot_dict)
         # Always returns a short form Badi date--for now.
-- 
2.43.0


From 00c8e6ddcc9dd846ff062c8862a090eae99bd508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:15 +0000
Subject: [PATCH 31/31] fix: strftime %:K put two signs before a negative
 Kull-i-Shay

---
 badidatetime/_timedateutils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index cfb8919..8c8da93 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -543,8 +543,7 @@ class TimeDateUtils(BahaiCalendar):
             else:
                 kull_i_shay = ttup.tm_kull_i_shay
 
-            n = '-' if kull_i_shay < 0 else ''
-            st += f"{n}{kull_i_shay}"
+            st += f"{kull_i_shay}"
 
         return st
 
-- 
2.43.0

