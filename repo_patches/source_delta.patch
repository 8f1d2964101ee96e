From 4aeaa1d40d90cdc9a72c27ed064d04e4f7f00024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 001/134] fix: UnixDate2Str rejected 31 Dec of leap years and
 misplaced exact 400 year multiples

---
 src/utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 16663f1..d433d00 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -600,7 +600,7 @@ char *UnixDate2Str(int32_t value,char *dst)
     int year = 2000;
 
     int y400 = value / YEARS400_TO_DAYS;
-    if (value < 0) y400--; // 1999 -> 1600..1999
+    if (value % YEARS400_TO_DAYS < 0) y400--; // 1999 -> 1600..1999
     value -= y400 * YEARS400_TO_DAYS;
 
 
@@ -644,13 +644,13 @@ char *UnixDate2Str(int32_t value,char *dst)
     int month,day;
     if (is_leap)
     {
-        ASSERT_NO_RET_NULL(2023,value >= 0 && value < 365);
+        ASSERT_NO_RET_NULL(2023,value >= 0 && value < 366);
         month = DAY2MONTH_LEAP[value];
         day = 1+value - LEAP_MONTH_OFFSET[month-1];
     }
     else
     {
-        ASSERT_NO_RET_NULL(2024,value >= 0 && value < 366);
+        ASSERT_NO_RET_NULL(2024,value >= 0 && value < 365);
         month = DAY2MONTH[value];
         day = 1+value - MONTH_OFFSET[month-1];
     }
-- 
2.43.0


From 9a19dcd175a068d5cb86b01ff7e7ed0ba26bf0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 002/134] fix: ScanUnixDate was one day off for years before
 the epoch (truncating division)

---
 src/utils.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index d433d00..9108948 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -422,6 +422,12 @@ const int LEAP_MONTH_OFFSET[12] = {
     //    31+29+31+30+31+30+31+31+30+31+30+31,
 };
 
+static int FloorDiv(int a,int b)
+// integer division rounding down (years before epoch)
+{
+    return a / b - (a % b < 0 ? 1 : 0);
+}
+
 const int MAX_DAY = 0xffffffff/(24*60*60);
 
 bool ScanUnixTime(const char *&p,uint32_t &value)
@@ -548,9 +554,9 @@ bool ScanUnixDate(const char *&p,int32_t &value)
     }
 
     value = (year - 1970) * 365;
-    value += (year - 1968 - 1) / 4;   // -1 don't add 1 day for this year now
-    value -= (year - 1900 - 1) / 100;
-    value += (year - 1600 - 1) / 400;
+    value += FloorDiv(year - 1968 - 1,4);   // -1 don't add 1 day for this year now
+    value -= FloorDiv(year - 1900 - 1,100);
+    value += FloorDiv(year - 1600 - 1,400);
 
     bool is_leap_year = (((year % 4) == 0) && ((year % 100) != 0)) || ((year % 400) == 0);
     if (is_leap_year)   
-- 
2.43.0


From 1e523b36d414fb38fe8bb9e3cb99ecbd31809190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 003/134] fix: date and time scanners accepted nonexistent
 dates and clock times as different values

---
 src/utils.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 9108948..163b5a5 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -428,6 +428,15 @@ static int FloorDiv(int a,int b)
     return a / b - (a % b < 0 ? 1 : 0);
 }
 
+static bool IsDayOfMonth(int year,int month,int day)
+// month must be in range 1..12
+{
+    bool is_leap_year = (((year % 4) == 0) && ((year % 100) != 0)) || ((year % 400) == 0);
+    const int *offset = is_leap_year ? LEAP_MONTH_OFFSET : MONTH_OFFSET;
+    int days = (month == 12) ? 31 : offset[month] - offset[month-1];
+    return day >= 1 && day <= days;
+}
+
 const int MAX_DAY = 0xffffffff/(24*60*60);
 
 bool ScanUnixTime(const char *&p,uint32_t &value)
@@ -443,6 +452,7 @@ bool ScanUnixTime(const char *&p,uint32_t &value)
     if (month < 1 || month > 12) return false; // I dont know months out of range
     if (*(p++) != '-') return false;
     if (!ScanInt(p,day)) return false;    
+    if (!IsDayOfMonth(year,month,day)) return false;
 
     if (year < 1970) 
     { 
@@ -474,16 +484,16 @@ bool ScanUnixTime(const char *&p,uint32_t &value)
     if (*p != ' ' && *p != 'T') return false;
     p++;
     
-    if (!ScanInt(p,hour)) return false;    
+    if (!ScanInt(p,hour) || hour < 0 || hour > 23) return false;    
     value += hour*3600;
     if (*p == '\0') return true; // end of string
     if (*(p++) != ':') return false;
 
-    if (!ScanInt(p,minute)) return false;    
+    if (!ScanInt(p,minute) || minute < 0 || minute > 59) return false;    
     value += minute*60;
     if (*(p++) != ':') return false;
 
-    if (!ScanInt(p,second)) return false;    
+    if (!ScanInt(p,second) || second < 0 || second > 59) return false;    
     value += second;
     return true;
 }
@@ -546,6 +556,7 @@ bool ScanUnixDate(const char *&p,int32_t &value)
     if (month < 1 || month > 12) return false; // I dont know months out of range
     if (*(p++) != '-') return false;
     if (!ScanInt(p,day)) return false;    
+    if (!IsDayOfMonth(year,month,day)) return false;
 
     if (year < -365749 || year > 369689) 
     { 
-- 
2.43.0


From 4aaf7b9badccfc97594cba930f987c379aa8d178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 004/134] fix: ScanUnixTime wrapped around for times after
 2106-02-07 06:28:15

---
 src/utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index 163b5a5..27e6629 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -479,6 +479,7 @@ bool ScanUnixTime(const char *&p,uint32_t &value)
     }
 
     value *= 24*60*60;
+    const uint32_t day_start = value;
 
     if (*p == '\0') return true; // end of string
     if (*p != ' ' && *p != 'T') return false;
@@ -495,6 +496,7 @@ bool ScanUnixTime(const char *&p,uint32_t &value)
 
     if (!ScanInt(p,second) || second < 0 || second > 59) return false;    
     value += second;
+    if (day_start > value) return false; // last day is not complete in 32 bits
     return true;
 }
 
-- 
2.43.0


From 52acf8f1ecf11f734e558513db27e909b0b63cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 005/134] fix: ScanUnixTime64msec time zone shift wrapped
 around at 32 bits

---
 src/utils.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 27e6629..d2f5354 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -508,6 +508,7 @@ bool ScanUnixTime64msec(const char *&p,int64_t &value)
     const char *start = p;
 
     if (!ScanUnixTime(p,tm32)) return false;
+    int64_t tm64 = tm32;
     if (*(p++) != '.') 
     {
         value = (int64_t)tm32*1000; // whole seconds only
@@ -533,15 +534,15 @@ bool ScanUnixTime64msec(const char *&p,int64_t &value)
             if (ScanInt(p,hour) && *(p++) == ':' && ScanInt(p,min))
             {
                 if (sign == '+')
-                    tm32 -= hour*3600 + min*60; 
+                    tm64 -= hour*3600 + min*60; 
                 else
-                    tm32 += hour*3600 + min*60; 
+                    tm64 += hour*3600 + min*60; 
             }
         }
             
     }
 
-    value = v000 + (int64_t)tm32 * 1000;
+    value = v000 + tm64 * 1000;
 
     return true;
 }
-- 
2.43.0


From c5155e4bf2dae88490871e56ec280136feb9bd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 006/134] fix: UNIX_TIME64_MSEC was printed with a space padded
 hour and wrong fields before the epoch

---
 src/bin_xml_types.cpp | 8 +++++++-
 src/utils.cpp         | 7 +++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 66550ea..522aa4e 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -1002,11 +1002,17 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
 
                 int64_t value = *reinterpret_cast<const int64_t*>(data);
                 time_t tm0 = (time_t)(value/1000);
+                int msec = (int)(value % 1000);
+                if (msec < 0) // before epoch
+                {
+                    tm0--;
+                    msec += 1000;
+                }
                 struct tm tm1;
                 memset(dst,0,dst_size);
 
                 gmtime_r(&tm0,&tm1);
-                snprintf(dst,dst_size,"%04d-%02d-%02d %2d:%02d:%02d.%03d",1900+tm1.tm_year,1+tm1.tm_mon,tm1.tm_mday,tm1.tm_hour,tm1.tm_min,tm1.tm_sec,(int)(value % 1000));
+                snprintf(dst,dst_size,"%04d-%02d-%02d %02d:%02d:%02d.%03d",1900+tm1.tm_year,1+tm1.tm_mon,tm1.tm_mday,tm1.tm_hour,tm1.tm_min,tm1.tm_sec,msec);
                 return strlen(dst);
             }
         case XBT_BLOB:
diff --git a/src/utils.cpp b/src/utils.cpp
index d2f5354..758c45d 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -681,9 +681,12 @@ char *UnixDate2Str(int32_t value,char *dst)
 
 char *UnixTime642Str(int64_t value,char *dst)
 {
-    char *p = UnixDate2Str(value / (1000 * 60*60*24),dst);
+    const int64_t DAY_MSEC = 1000 * 60*60*24;
+    int64_t day = value / DAY_MSEC;
+    if (value % DAY_MSEC < 0) day--; // before epoch
+    char *p = UnixDate2Str(day,dst);
     p += strlen(p);
-    value %= 1000 * 60*60*24;
+    value -= day * DAY_MSEC;
     sprintf(p," %02d:%02d:%02d.%03d",
         (int)((value / (1000 * 60 * 60)) % 24),
         (int)((value / (1000 * 60)) % 60),
-- 
2.43.0


From eeb02c02eaf91757c1c7a17d717acd63974d2dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 007/134] fix: UNIX_TIME64_MSEC was stored with 4 byte
 alignment but read with 8 byte alignment

---
 src/bin_xml_types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 522aa4e..da81dd1 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -622,7 +622,7 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
             }
         case XBT_UNIX_TIME64_MSEC:
             {
-                AA(*_wp);
+                AA8(*_wp);
                 int64_t tm0;
                 if (!ScanUnixTime64msec(src,tm0))
                 {
-- 
2.43.0


From acb6dfb4367030516f0ae22f22d58bf8e6adbe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:46 +0000
Subject: [PATCH 008/134] fix: ScanUnixTime wrapped around also for an hour
 without minutes

---
 src/utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 758c45d..596d210 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -487,6 +487,7 @@ bool ScanUnixTime(const char *&p,uint32_t &value)
     
     if (!ScanInt(p,hour) || hour < 0 || hour > 23) return false;    
     value += hour*3600;
+    if (day_start > value) return false; // last day is not complete in 32 bits
     if (*p == '\0') return true; // end of string
     if (*(p++) != ':') return false;
 
@@ -496,7 +497,7 @@ bool ScanUnixTime(const char *&p,uint32_t &value)
 
     if (!ScanInt(p,second) || second < 0 || second > 59) return false;    
     value += second;
-    if (day_start > value) return false; // last day is not complete in 32 bits
+    if (day_start > value) return false;
     return true;
 }
 
-- 
2.43.0


From 4557911eb6601521848512bfb38ca39fd3cc70f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:46 +0000
Subject: [PATCH 009/134] fix: 64 bit integers were printed without terminator
 and wrong for INT64_MIN and -576460752303423488

---
 src/bin_xml_types.cpp | 43 ++++---------------------------------------
 1 file changed, 4 insertions(+), 39 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index da81dd1..12304cb 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -917,30 +917,8 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(int64_t);
 
                 int64_t value = *reinterpret_cast<const int64_t*>(data);   
-                if (value == 0) 
-                {
-                    strcpy(dst,"0");
-                    return 1;
-                }
-                if (value == -576460752303423488) 
-                {
-                    strcpy(dst,"9223372036854775808");
-                    return strlen(dst);
-                }
-                //if (value == -0x8000000000000000) return "9223372036854775808";
-                char *d = dst+dst_size;
-                *(--d) = '\0';
-                bool neg = (value < 0);
-                if (neg) value = -value;
-                while (value > 0)
-                {
-                    *(--d) = '0'+(value % 10);
-                    value /= 10;
-                }
-                if (neg) *(--d) = '-';
-                int len = (dst+dst_size) - d - 1;
-                memmove(dst,d,len);
-                return len;
+                snprintf(dst,dst_size,"%lld",(long long)value);
+                return strlen(dst);
             }
         case XBT_UINT64:
             {
@@ -948,21 +926,8 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(uint64_t);
 
                 uint64_t value = *reinterpret_cast<const uint64_t*>(data);   
-                if (value == 0) 
-                {
-                    strcpy(dst,"0");
-                    return 1;
-                }
-                char *d = dst+dst_size;
-                *(--d) = '\0';
-                while (value > 0)
-                {
-                    *(--d) = '0'+(value % 10);
-                    value /= 10;
-                }
-                int len = (dst+dst_size) - d - 1;
-                memmove(dst,d,len);
-                return len;
+                snprintf(dst,dst_size,"%llu",(unsigned long long)value);
+                return strlen(dst);
             }
         case XBT_FLOAT:
             if (offset > 0) return 0;
-- 
2.43.0


From cb7dbaa4a211a07ff4cd34e27c56470da6d70e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 010/134] fix: decimal types lost the sign of values between -1
 and 0 and printed INT32_MIN wrong

---
 src/bin_xml_types.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 12304cb..f251244 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -797,6 +797,12 @@ const char *XBT_ToString(XML_Binary_Type type,const char *data)
     return nullptr;
 }
 
+static uint32_t ABS32(int32_t value)
+// works also for INT32_MIN
+{
+    return value < 0 ? 0 - static_cast<uint32_t>(value) : value;
+}
+
 int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *dst,int dst_size)
 {
     ASSERT_NO_RET_N1(1203,dst != nullptr);
@@ -854,7 +860,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(int32_t);
                 int32_t V = *reinterpret_cast<const int32_t*>(data);
 
-                snprintf(dst,dst_size,"%d.%d",V / 10,ABS(V) % 10);
+                snprintf(dst,dst_size,"%s%u.%01u",V < 0 ? "-" : "",ABS32(V) / 10,ABS32(V) % 10);
                 return strlen(dst);
             }
         case XBT_INT32_CENTI:     
@@ -863,7 +869,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(int32_t);
                 int32_t V = *reinterpret_cast<const int32_t*>(data);
 
-                snprintf(dst,dst_size,"%d.%02d",V / 100,ABS(V) % 100);
+                snprintf(dst,dst_size,"%s%u.%02u",V < 0 ? "-" : "",ABS32(V) / 100,ABS32(V) % 100);
                 return strlen(dst);
             }
         case XBT_INT32_MILI:     
@@ -872,7 +878,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(int32_t);
                 int32_t V = *reinterpret_cast<const int32_t*>(data);
 
-                snprintf(dst,dst_size,"%d.%03d",V / 1000,ABS(V) % 1000);
+                snprintf(dst,dst_size,"%s%u.%03u",V < 0 ? "-" : "",ABS32(V) / 1000,ABS32(V) % 1000);
                 return strlen(dst);
             }
         case XBT_INT32_MICRO:     
@@ -881,7 +887,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(int32_t);
                 int32_t V = *reinterpret_cast<const int32_t*>(data);
 
-                snprintf(dst,dst_size,"%d.%06d",V / 1000000,ABS(V) % 1000000);
+                snprintf(dst,dst_size,"%s%u.%06u",V < 0 ? "-" : "",ABS32(V) / 1000000,ABS32(V) % 1000000);
                 return strlen(dst);
             }
         case XBT_INT32_NANO:     
@@ -890,7 +896,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(int32_t);
                 int32_t V = *reinterpret_cast<const int32_t*>(data);
 
-                snprintf(dst,dst_size,"%d.%09d",V / 1000000000,ABS(V) % 1000000000);
+                snprintf(dst,dst_size,"%s%u.%09u",V < 0 ? "-" : "",ABS32(V) / 1000000000,ABS32(V) % 1000000000);
                 return strlen(dst);
             }
 
-- 
2.43.0


From 679a7e4966d6b567dbddddd31d6adc13a474f3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 011/134] fix: decimal conversion overflowed 32 bits silently

---
 src/bin_xml_types.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index f251244..dc73818 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -469,15 +469,18 @@ bool XBT_Copy(const char *src,XML_Binary_Type type,int size,char **_wp,char *lim
     return true; // OK
 }
 
-static int32_t str2dec(const char *src,int decimals)
+static bool str2dec(const char *src,int decimals,int32_t &dst)
+// return false when value doesn't fit into 32 bits
 {
     bool neg = (*src == '-');
     if (neg) src++;
 
-    int32_t value = 0;
+    const int64_t limit = neg ? 0x80000000LL : 0x7fffffffLL;
+    int64_t value = 0;
     while (*src >= '0' && *src <= '9')
     {
         value = value * 10 + (*src) - '0';
+        if (value > limit) return false;
         src++;
     }
     if (*src == '.') // decimal point
@@ -486,6 +489,7 @@ static int32_t str2dec(const char *src,int decimals)
         while (*src >= '0' && *src <= '9' && decimals > 0)
         {
             value = value * 10 + (*src) - '0';
+            if (value > limit) return false;
             src++;
             decimals--;
         }
@@ -493,11 +497,12 @@ static int32_t str2dec(const char *src,int decimals)
     while (decimals > 0)
     {
         value *= 10;
+        if (value > limit) return false;
         decimals--;
     }
 
-    if (neg) return -value;
-    return value;
+    dst = neg ? -value : value;
+    return true;
 }
 
 bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
@@ -518,27 +523,27 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
         
         case XBT_INT32_DECI:
             AA(*_wp);
-            *reinterpret_cast<int32_t*>(*_wp) = str2dec(src,1);
+            if (!str2dec(src,1,*reinterpret_cast<int32_t*>(*_wp))) return false;
             *_wp += sizeof(int32_t);
             return true;
         case XBT_INT32_CENTI:     
             AA(*_wp);
-            *reinterpret_cast<int32_t*>(*_wp) = str2dec(src,2);
+            if (!str2dec(src,2,*reinterpret_cast<int32_t*>(*_wp))) return false;
             *_wp += sizeof(int32_t);
             return true;
         case XBT_INT32_MILI:     
             AA(*_wp);
-            *reinterpret_cast<int32_t*>(*_wp) = str2dec(src,3);
+            if (!str2dec(src,3,*reinterpret_cast<int32_t*>(*_wp))) return false;
             *_wp += sizeof(int32_t);
             return true;
         case XBT_INT32_MICRO:     
             AA(*_wp);
-            *reinterpret_cast<int32_t*>(*_wp) = str2dec(src,6);
+            if (!str2dec(src,6,*reinterpret_cast<int32_t*>(*_wp))) return false;
             *_wp += sizeof(int32_t);
             return true;
         case XBT_INT32_NANO:     
             AA(*_wp);
-            *reinterpret_cast<int32_t*>(*_wp) = str2dec(src,9);
+            if (!str2dec(src,9,*reinterpret_cast<int32_t*>(*_wp))) return false;
             *_wp += sizeof(int32_t);
             return true;
         case XBT_IPv4:     
-- 
2.43.0


From c0878a626d736b94fe6271e5f111246b18627411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 012/134] fix: HEX text chunks contained the terminating NUL
 and GUID was printed without dashes

---
 src/bin_xml_types.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index dc73818..5ee6d29 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -1033,20 +1033,14 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 dst[hex_len]   = '\n';
                 dst[hex_len+1] = '\0';
                 offset += size;
-                return hex_len+2;
+                return hex_len+1;
             }
         case XBT_GUID:
             {
-                if (offset >= 16+4) return 0;
-                char guid_str[32+4+1];
-                GUID2Str(data,guid_str);
-                
-                Hex2Str(data+offset,16-offset,dst);
-                int ret = 2*(16-offset);
+                if (offset >= 16) return 0;
+                GUID2Str(data,dst); // 8-4-4-4-12
                 offset = 16;
-                // 8-4-4-4-12
-                // TODO: here should be some - inserted on positions"5f5b7603-6d55-45e6-8c60-07aa5fc6c945">
-                return ret;
+                return strlen(dst);
             }
         case XBT_SHA1:
             {
-- 
2.43.0


From 710a1bfb6153e8eeb3e6210f9fec4a076da12bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 013/134] fix: detected types DOUBLE and UINT32 could not be
 converted, DOUBLE and IPv4 could not be printed

---
 src/bin_xml_types.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 5ee6d29..abdcf33 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -570,6 +570,15 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
                 *_wp += sizeof(int64_t);
                 return true;
             }
+        case XBT_UINT32:
+            {
+                uint64_t v;
+                ASSERT_NO_RET_FALSE(2146,ScanUInt64(src,v) && (v >> 32) == 0);
+                AA(*_wp);
+                *reinterpret_cast<uint32_t*>(*_wp) = v;
+                *_wp += sizeof(uint32_t);
+                return true;
+            }
         case XBT_UINT64:
             {
                 uint64_t v;
@@ -612,6 +621,11 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
             *reinterpret_cast<float*>(*_wp) = atof(src);
             *_wp += sizeof(float);
             return true;
+        case XBT_DOUBLE:
+            AA8(*_wp);
+            *reinterpret_cast<double*>(*_wp) = atof(src);
+            *_wp += sizeof(double);
+            return true;
         case XBT_UNIX_TIME:
             {
                 AA(*_wp);
@@ -736,6 +750,8 @@ const char *XBT_ToString(XML_Binary_Type type,const char *data)
         case XBT_INT64:
         case XBT_UINT64:
         case XBT_FLOAT:
+        case XBT_DOUBLE:
+        case XBT_IPv4:
         case XBT_UNIX_TIME:
         case XBT_UNIX_DATE:
         case XBT_UNIX_TIME64_MSEC:
@@ -946,6 +962,12 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
 
             snprintf(dst,dst_size,"%f",*reinterpret_cast<const float*>(data));
             return strlen(dst);
+        case XBT_DOUBLE:
+            if (offset > 0) return 0;
+            offset += sizeof(double);
+
+            snprintf(dst,dst_size,"%f",*reinterpret_cast<const double*>(data));
+            return strlen(dst);
         case XBT_UNIX_TIME:
             {
                 if (offset > 0) return 0;
-- 
2.43.0


From 14bb6cd7c0121c59115a82f04eba4b5662c7294e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:33 +0000
Subject: [PATCH 014/134] fix: type detection chose types that lose or change
 the value (odd or spaced hex, 5-3, 007, 0x10, 1 2, overflows)

---
 src/bin_xml_types.cpp | 56 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 55 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index abdcf33..9efe2e0 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -46,7 +46,7 @@ const char *XML_BINARY_TYPE_NAMES[XBT_LAST+1] = {
     XBT_ARRAY   = 127   // when used this bitmask, data consist of many values of base type
 #endif
 
-XML_Binary_Type XBT_Detect(const char *value,bool verbose)
+static XML_Binary_Type XBT_DetectShape(const char *value,bool verbose)
 {
     if (value == nullptr) return XBT_NULL;
     if (*value == '\0') return XBT_NULL;
@@ -200,6 +200,60 @@ XML_Binary_Type XBT_Detect(const char *value,bool verbose)
     return XBT_STRING;
 }
 
+static bool XBT_IsSameNumber(const char *A,const char *B)
+{
+    char *A_end,*B_end;
+    if (isspace(*A) || strpbrk(A,"xX") != nullptr) return false;
+    double A_value = strtod(A,&A_end);
+    double B_value = strtod(B,&B_end);
+    return *A_end == '\0' && *B_end == '\0' && A_value == B_value;
+}
+
+static bool XBT_IsLossless(const char *value,XML_Binary_Type type)
+// Will the text survive conversion to this type and back?
+{
+    if (type == XBT_NULL || type == XBT_STRING) return true;
+
+    size_t len = strlen(value);
+    if (type == XBT_HEX)
+        return (len & 1) == 0 && strspn(value,"0123456789abcdefABCDEF") == len;
+
+    char bin[64] __attribute__((aligned(8))); // type detection is limited to short values
+    char text[MIN_OUT_BUFFER_SIZE*2];
+    char *wp = bin;
+    int offset = 0;
+    if (!XBT_FromString(value,type,&wp,bin+sizeof(bin))) return false;
+    int size = XBT_ToStringChunk(type,bin,offset,text,sizeof(text));
+    if (size <= 0 || size >= (int)sizeof(text)) return false;
+    text[size] = '\0';
+
+    switch (type)
+    {
+        case XBT_GUID:
+        case XBT_SHA1:
+            return strcasecmp(text,value) == 0;
+        case XBT_INT32_DECI:
+        case XBT_INT32_CENTI:
+        case XBT_INT32_MILI:
+        case XBT_INT32_MICRO:
+        case XBT_INT32_NANO: // missing decimals are filled with 0
+            return strncmp(text,value,len) == 0 && strspn(text+len,"0") == strlen(text+len);
+        case XBT_FLOAT:
+        case XBT_DOUBLE:
+            return XBT_IsSameNumber(value,text);
+        case XBT_UNIX_TIME64_MSEC: // 2026-03-20T15:51:55.773Z is the same as 2026-03-20 15:51:55.773
+            return strncmp(text,value,10) == 0 && strncmp(text+11,value+11,12) == 0;
+        default:
+            return strcmp(text,value) == 0;
+    }
+}
+
+XML_Binary_Type XBT_Detect(const char *value,bool verbose)
+{
+    XML_Binary_Type type = XBT_DetectShape(value,verbose);
+    return XBT_IsLossless(value,type) ? type : XBT_STRING;
+}
+
 XML_Binary_Type XBT_JoinTypes(XML_Binary_Type A,XML_Binary_Type B)
 {
 // string accumulates all like variant
-- 
2.43.0


From 6bec59b6d4bb901675f564ca6436429e0e5b90f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 015/134] fix: base64_encode left exactly fitting output
 unterminated (garbage after BLOB text)

---
 src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 596d210..9baa996 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -1260,7 +1260,7 @@ char *base64_encode(const unsigned char *src,int src_size,char *dst,int dst_size
     }
     for(int c = (dst-dst_base) & 3;c > 0 && dst_size > 0 && c < 4;c++,dst_size--)
             *(dst++) = '=';
-    if (dst_size > 1)
+    if (dst_size > 0)
         *dst = 0;
     return dst_base;
 }
-- 
2.43.0


From 48f8bf8b3ef817182554364aebe24c591d0507ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 016/134] fix: Int64ToStr printed INT64_MIN as '-'

---
 src/utils.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 9baa996..c454cd3 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -1211,17 +1211,17 @@ const char *Int64ToStr(int64_t value,char40_t buffer)
     if (buffer == nullptr) return nullptr;
 
     bool neg = (value < 0);
-    if (neg) value = -value;
+    uint64_t V = neg ? 0 - static_cast<uint64_t>(value) : value;
 
     char *p = buffer + sizeof(char40_t);
     *(--p) = '\0'; // terminating symbol;
-    if (value == 0)
+    if (V == 0)
         *(--p) = '0'; // zero
     else 
-        while (value > 0)
+        while (V > 0)
         {
-            *(--p) = '0' + (value % 10);
-            value /= 10;
+            *(--p) = '0' + (V % 10);
+            V /= 10;
         }
 
     if (neg) 
-- 
2.43.0


From 197e55e77b691f23b7c3468a62f24b8851b1a97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 017/134] fix: numbers out of range of DOUBLE were detected as
 DOUBLE and printed as inf

---
 src/bin_xml_types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 9efe2e0..e01e4e0 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -206,7 +206,7 @@ static bool XBT_IsSameNumber(const char *A,const char *B)
     if (isspace(*A) || strpbrk(A,"xX") != nullptr) return false;
     double A_value = strtod(A,&A_end);
     double B_value = strtod(B,&B_end);
-    return *A_end == '\0' && *B_end == '\0' && A_value == B_value;
+    return *A_end == '\0' && *B_end == '\0' && A_value == B_value && A_value - B_value == 0; // infinity is not accepted
 }
 
 static bool XBT_IsLossless(const char *value,XML_Binary_Type type)
-- 
2.43.0


From 37c432a473f7ebd55e11fc7e6cf3284de9e4d4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 018/134] fix: ScanInt wrapped around on overflow (IPv4
 4294967296.2.3.4 was accepted as 0.2.3.4)

---
 src/utils.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index c454cd3..af2c324 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -286,9 +286,12 @@ bool ScanInt(const char *&p,int &value)
     if (neg) p1++;
     if (!isdigit(*p1)) return false;
 
-    int x = 0;
+    int64_t x = 0;
     while (isdigit(*p1))
+    {
         x = x *10 + (*(p1++) - '0');
+        if (x > (neg ? 0x80000000LL : 0x7fffffffLL)) return false; // doesn't fit into int
+    }
     
     p = p1;
     value = (neg ? -x : x);
@@ -914,9 +917,12 @@ bool ScanIntW(char *&p,int &value)
     if (neg) p1++;
     if (!isdigit(*p1)) return false;
 
-    int x = 0;
+    int64_t x = 0;
     while (isdigit(*p1))
+    {
         x = x *10 + (*(p1++) - '0');
+        if (x > (neg ? 0x80000000LL : 0x7fffffffLL)) return false; // doesn't fit into int
+    }
     
     p = p1;
     value = (neg ? -x : x);
-- 
2.43.0


From 6ff3d5b1884ac50844808432ea09199123e6e972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 019/134] fix: big DOUBLE values were truncated when printed

---
 src/bin_xml_types.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index e01e4e0..010be56 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -1020,8 +1020,11 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
             if (offset > 0) return 0;
             offset += sizeof(double);
 
-            snprintf(dst,dst_size,"%f",*reinterpret_cast<const double*>(data));
-            return strlen(dst);
+            {
+                double value = *reinterpret_cast<const double*>(data);
+                snprintf(dst,dst_size,(value > -1E15 && value < 1E15) ? "%f" : "%.17g",value); // long values would not fit
+                return strlen(dst);
+            }
         case XBT_UNIX_TIME:
             {
                 if (offset > 0) return 0;
-- 
2.43.0


From 7f7a9713e6d4d9f138b6ae85b3aa31299769080e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 020/134] fix: qsort_r2 compared against a moving pivot and
 left arrays unsorted

---
 src/missings.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/missings.cpp b/src/missings.cpp
index fadb263..e2d3bc9 100644
--- a/src/missings.cpp
+++ b/src/missings.cpp
@@ -23,16 +23,17 @@ void qsort_r2(void *base, int nmemb, int size,
     char *temp = (char*)alloca(size);
 #define BASE(idx) ((char*)base + (size)*(idx))
 
-    int test = nmemb / 2;
+    char *pivot = (char*)alloca(size); // the middle element can be moved by swapping
+    memcpy(pivot,BASE(nmemb / 2),size);
 
     int left = 0;
     int right = nmemb - 1;
-    for(;;)
+    while (left <= right)
     {
-        while (compar(BASE(left),BASE(test),arg) < 0 && left < right) left++;
-        while (compar(BASE(right),BASE(test),arg) > 0 && left < right) right--;
+        while (compar(BASE(left),pivot,arg) < 0) left++;
+        while (compar(BASE(right),pivot,arg) > 0) right--;
 
-        if (left >= right) break;
+        if (left > right) break;
 
         memcpy(temp,BASE(left),size);
         memcpy(BASE(left),BASE(right),size);
@@ -41,7 +42,7 @@ void qsort_r2(void *base, int nmemb, int size,
         right--;
     }
 
-    qsort_r2(base, left,                size,compar,arg);
+    qsort_r2(base, right + 1,           size,compar,arg);
     qsort_r2(BASE(left), nmemb - left,  size,compar,arg);
 #undef BASE
 }
-- 
2.43.0


From 1b92a2416587bc5ec49727461a0217ecfb741caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:05 +0000
Subject: [PATCH 021/134] fix: registering the first symbol by id failed
 because an empty symbol table could not be opened

---
 src/bin_write_plugin.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 2faeee8..5703fda 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1437,6 +1437,12 @@ bool BW_symbol_table_16B::Open(BW_pool *pool)
 {
     ASSERT_NO_RET_FALSE(2100,pool != nullptr);
     int size = getNamesSize(pool);
+    if (size == 0) // nothing registered yet - nothing to copy
+    {
+        index = 0;
+        names_offset = pool->allocator;
+        return true;
+    }
     if (index == 0 && names_offset + size == pool->allocator) return true; // no index means - it is opened
 // prepare new copy of symbol tables with open end
     LOG("%s(%s/%s) - opening symbol table (max_id=%d,size=%d,offset.old=%d,allocator=%d (should be %d)",
-- 
2.43.0


From d46fa9f5daca2926442bfb337c4d59304126232f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:05 +0000
Subject: [PATCH 022/134] fix: symbol ids from 128 were read as signed bytes
 from the symbol tables of the write pool

---
 src/bin_write_plugin.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 5703fda..7ca4674 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1246,8 +1246,8 @@ int16_t BW_symbol_table_16B::getByName(BW_pool *pool,const char *name,BW_offset_
         { 
             const char *n = name;
             const char *start = p;
-            id = *(p++);
-            id |= *(p++) << 8;
+            id = *reinterpret_cast<const int16_t*>(p);
+            p += 2;
     
             XML_Binary_Type element_type = static_cast<XML_Binary_Type>(*(p++));
 
@@ -1318,7 +1318,7 @@ const char *BW_symbol_table_16B::getName(BW_pool *pool,int search_id)
         while (id <= max_id)
         { 
             //const char *start = p;
-            id = p[0] | (p[1] << 8);
+            id = *reinterpret_cast<const int16_t*>(p);
 
             p += 3;
             if (id == search_id) return p; // found
@@ -1356,7 +1356,7 @@ XML_Binary_Type_Stored *BW_symbol_table_16B::getType(BW_pool *pool,int search_id
         while (id <= max_id)
         { 
             //const char *start = p;
-            id = p[0] | (p[1] << 8);
+            id = *reinterpret_cast<const int16_t*>(p);
 
             //XML_Binary_Type element_type = static_cast<XML_Binary_Type>(p[2]);
 
@@ -1400,8 +1400,8 @@ int32_t BW_symbol_table_16B::getNamesSize(BW_pool *pool)
     int prev_id = -1;
     while (id <= max_id)
     {
-            id = *(p++);
-            id |= *(p++) << 8;
+            id = *reinterpret_cast<const int16_t*>(p);
+            p += 2;
             if (id != prev_id+1) // don't go to other table
             {
                 LOG_ERROR("%s/%s correcting max_id: %d --> %d",pool->getDocTypeName(),(&pool->tags == this ? "tags" : "params"),max_id,prev_id);
-- 
2.43.0


From 22647a0f3080e27e6f7089016ea852fff89955ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:05 +0000
Subject: [PATCH 023/134] fix: replacing the only element of a list left a
 broken circle linked to the removed element

---
 src/bin_write_plugin.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 7ca4674..2863127 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -170,8 +170,11 @@ BW_element* BW_element::replace(BW_element *old_value,BW_element *new_value)
     ASSERT_NO_RET_NULL(2017,new_value->prev == new_value->offset);
     ASSERT_NO_RET_NULL(2018,new_value->getPool() == old_value->getPool());
 
-    new_value->next = old_value->next;
-    new_value->prev = old_value->prev;
+    if (old_value->next != old_value->offset) // not the only member of the list
+    {
+        new_value->next = old_value->next;
+        new_value->prev = old_value->prev;
+    }
 
     BWE(new_value->next)->prev = new_value->offset;
     BWE(new_value->prev)->next = new_value->offset;
-- 
2.43.0


From 91dfedcbf323f627824610e8b6e02aaa7070fcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:05 +0000
Subject: [PATCH 024/134] fix: tagSetInt32, tagSetInt64 and tagSetString
 returned the removed element after replacing it

---
 src/bin_write_plugin.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 2863127..5abfeac 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -789,7 +789,9 @@ BW_element  *BW_element::tagSetInt32(int16_t id,int32_t value)
         else
         {
             BW_element *new_item = getPool()->tagInt32(id,value);
+            ASSERT_NO_RET_NULL(10437,new_item != nullptr);
             replace(target,new_item);
+            target = new_item;
         }
          
     }
@@ -817,7 +819,9 @@ BW_element  *BW_element::tagSetInt64(int16_t id,int64_t value)
         else
         {
             BW_element *new_item = getPool()->tagInt64(id,value);
+            ASSERT_NO_RET_NULL(10438,new_item != nullptr);
             replace(target,new_item);
+            target = new_item;
         }
          
     }
@@ -850,7 +854,9 @@ BW_element  *BW_element::tagSetString(int16_t id,const char *value)
         if (to_replace)
         {
             BW_element *new_item = getPool()->tagString(id,value);
+            ASSERT_NO_RET_NULL(10439,new_item != nullptr);
             replace(target,new_item);
+            target = new_item;
         }
          
     }
-- 
2.43.0


From 17c138a959fa0b5b6040fd7ee3659930e1d217a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:05 +0000
Subject: [PATCH 025/134] fix: tagSetString and tagSetSHA1 crashed on null
 values they are written for

---
 src/bin_write_plugin.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 5abfeac..c4acfa4 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -847,7 +847,7 @@ BW_element  *BW_element::tagSetString(int16_t id,const char *value)
             char *dst = reinterpret_cast<char*>(target+1);
             int target_size = strlen(dst);
             if (((value_len+1+3) >> 2) <= (target_size+1+3) >> 2)
-                strcpy(dst,value); // shorter or in the same allocation size
+                strcpy(dst,value != nullptr ? value : ""); // shorter or in the same allocation size
             else
                 to_replace = true;
         }
@@ -1764,7 +1764,8 @@ BW_element* BW_pool::tagString(int16_t id,const char *value)
     ASSERT_NO_RET_NULL(2037,result != nullptr);
     
     result->init(this,id,XBT_STRING,BIN_WRITE_ELEMENT_FLAG);
-    strcpy(reinterpret_cast<char*>(result+1),value);
+    if (value != nullptr) // otherwise stays empty
+        strcpy(reinterpret_cast<char*>(result+1),value);
     return result;
 }
 
@@ -1790,7 +1791,8 @@ BW_element* BW_pool::tagSHA1(int16_t id,const uint8_t *value)
     
     result->init(this,id,XBT_SHA1,BIN_WRITE_ELEMENT_FLAG);
     
-    memcpy(result+1,value,20);
+    if (value != nullptr) // otherwise stays zeroed
+        memcpy(result+1,value,20);
     return result;
 }
 
-- 
2.43.0


From 5d5d18a58f50d42c87e213695173be30b87abae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:05 +0000
Subject: [PATCH 026/134] fix: UNIX_TIME elements have 4 bytes, tagSetTime and
 getTime accessed 8 and damaged the next element

---
 include/binary_xml/bin_write_plugin.h | 2 +-
 src/bin_write_plugin.cpp              | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/binary_xml/bin_write_plugin.h b/include/binary_xml/bin_write_plugin.h
index a90ba00..6ab3b3c 100644
--- a/include/binary_xml/bin_write_plugin.h
+++ b/include/binary_xml/bin_write_plugin.h
@@ -220,7 +220,7 @@ public:
 
     int32_t     *getInt32();
     float       *getFloat();
-    time_t      *getTime();
+    uint32_t    *getTime();
     int64_t     *getInt64();
     uint64_t    *getUInt64();
     GUID_t      *getGUID();
diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index c4acfa4..104e3ba 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -870,8 +870,9 @@ BW_element  *BW_element::tagSetTime(int16_t id,time_t value)
     BW_element *target = tagGet(id);
     if (target != nullptr)
     {
-        time_t *tm = reinterpret_cast<time_t*>(target+1);
-        *tm = value;
+        ASSERT_NO_RET_NULL(10440,target->value_type == XBT_UNIX_TIME);
+        uint32_t *tm = reinterpret_cast<uint32_t*>(target+1);
+        *tm = (uint32_t)value;
     }
     else
     {
@@ -936,7 +937,7 @@ float *BW_element::getFloat()
 }
 
 
-time_t *BW_element::getTime()
+uint32_t *BW_element::getTime()
 {
     if (THIS_IS_NULL) return nullptr;
 
@@ -947,7 +948,7 @@ time_t *BW_element::getTime()
         return nullptr;
     }
 
-    return reinterpret_cast<time_t*>(this+1); // just after this element
+    return reinterpret_cast<uint32_t*>(this+1); // just after this element
 }
 
 int64_t *BW_element::getInt64()
-- 
2.43.0


From 3fe867f2eb3361774903f94ae7c29262224bf36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:05 +0000
Subject: [PATCH 027/134] fix: SHA1 has 20 bytes, 24 were read from values and
 stored

---
 src/bin_xml_types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 010be56..526857c 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -430,7 +430,7 @@ int XBT_Size2(XML_Binary_Type type,int size)
             return 16;
         case XBT_SHA1:
             ASSERT_NO_RET_N1(1075,size == 0 || size == 20);
-            return 24;
+            return 20;
         case XBT_UNIX_TIME:
             //printf("XBT_UNIX_TIME: size = %d\n",size);
             ASSERT_NO_RET_N1(1076,size == 0 || size == 4);
-- 
2.43.0


From 49ce6400855e7ff366f6e7d5f6986c6b2848f8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:05 +0000
Subject: [PATCH 028/134] fix: growing of the write pool did not count with
 alignment of the new element

---
 src/bin_write_plugin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 104e3ba..c1eb9ad 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1691,7 +1691,7 @@ BW_element*     BW_pool::new_element(XML_Binary_Type type,int size)
     {
         BW_plugin *plugin = plugins.getPlugin(this);
         ASSERT_NO_RET_NULL(2012,plugin != nullptr);
-        ASSERT_NO_RET_NULL(2013,plugin->makeSpace(sizeof(BW_element)+size2));
+        ASSERT_NO_RET_NULL(2013,plugin->makeSpace(sizeof(BW_element)+size2+16)); // + alignment
         result = reinterpret_cast<BW_element*>(align == 8 ? allocate8(sizeof(BW_element)+size2) : allocate(sizeof(BW_element)+size2));
         ASSERT_NO_RET_NULL(2091,result != nullptr);
         if (result == nullptr) return nullptr; // error message already shown in allocate
-- 
2.43.0


From 5622b3d6043ae8bd389e039dc4c045db720971b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:05 +0000
Subject: [PATCH 029/134] fix: unregistering a BW_plugin moved bytes instead of
 pointers and damaged the list of plugins

---
 src/bin_write_plugin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index c1eb9ad..fcc6813 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2976,7 +2976,7 @@ bool BW_plugins::unregisterPlugin(BW_plugin *plugin)
     for(int i = 0;i < plugins_count;i++)
         if (plugins[i] == plugin)
         {   
-            memmove(plugins+i,plugins+i+1,--plugins_count - i);
+            memmove(plugins+i,plugins+i+1,(--plugins_count - i) * sizeof(*plugins));
             return true;
         }
     return false;
-- 
2.43.0


From 24ac325a9cf0b9f84f051893ef6cc036950c8055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:05 +0000
Subject: [PATCH 030/134] fix: BW_plugin::ForAllParams read the pool header as
 an attribute of elements without attributes

---
 src/bin_write_plugin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index fcc6813..b4ca581 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2869,6 +2869,7 @@ void BW_plugin::ForAllParams(OnParam_t on_param,void *element,void *userdata)
     if (element == nullptr) return; // no attributes
 
     BW_element *E = reinterpret_cast<BW_element*>(element);
+    if (E->first_attribute == 0) return; // no attributes
     BW_element *child = BWE(E->first_attribute);
     for(;;)
     {
-- 
2.43.0


From 891188e1ed66cf9dc62994f2f9229ba5c48e80da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 031/134] fix: registerTag by id reported failure after each
 successful registration

---
 src/bin_write_plugin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index b4ca581..b421dab 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2065,7 +2065,7 @@ bool BW_plugin::registerTag(int16_t id,const char *name,XML_Binary_Type type)
 // name
     strcpy(dst,name);
     ROUND32UP(size);
-    ASSERT_NO_RET_FALSE(2115,dst+size == reinterpret_cast<char*>(pool)+pool->allocator);
+    ASSERT_NO_RET_FALSE(2115,dst-sizeof(int16_t)-sizeof(XML_Binary_Type_Stored)+size == reinterpret_cast<char*>(pool)+pool->allocator);
     return true;
 }
 
-- 
2.43.0


From 15da46f27639f9204478153feed020e896877758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 032/134] fix: bigger symbol tables did not fit to the write
 pool because registration did not grow it

---
 src/bin_write_plugin.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index b421dab..3583c4a 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2039,6 +2039,7 @@ bool BW_plugin::registerTag(int16_t id,const char *name,XML_Binary_Type type)
         check_failures++; 
         return false;
     }
+    ASSERT_NO_RET_FALSE(10441,makeSpace(pool->tags.getNamesSize(pool) + strlen(name) + 64)); // copy of table + new symbol
     ASSERT_NO_RET_NULL(2108,pool->tags.Open(pool)); // must be opened
 // elements must be defined first
 //    ASSERT_NO_RET_FALSE(1108,pool->params.names_offset == 0);
@@ -2088,6 +2089,7 @@ bool BW_plugin::registerAttr(int16_t id,const char *name,XML_Binary_Type type)
         check_failures++; 
         return false;
     }
+    ASSERT_NO_RET_FALSE(10442,makeSpace(pool->params.getNamesSize(pool) + strlen(name) + 64)); // copy of table + new symbol
     ASSERT_NO_RET_NULL(2098,pool->params.Open(pool)); // must be opened
 
 // elements must be defined first, empty element are not allowed!
@@ -2137,6 +2139,7 @@ XML_Tag_Names   BW_plugin::registerTag(const char *name,XML_Binary_Type type)
             return static_cast<XML_Tag_Names>(id);
         }
     }
+    ASSERT_NO_RET_(10443,makeSpace(pool->tags.getNamesSize(pool) + strlen(name) + 64),XTNR_NULL); // copy of table + new symbol
     ASSERT_NO_RET_(2099,pool->tags.Open(pool),XTNR_NULL); // must be opened
 
     int len = strlen(name);
@@ -2183,6 +2186,7 @@ XML_Param_Names BW_plugin::registerParam(const char *name,XML_Binary_Type type)
 // elements must be defined first, empty element are not allowed!
     ASSERT_NO_RET_(2119,pool->tags.names_offset != 0,XPNR_NULL);
 // must be opened
+    ASSERT_NO_RET_(10444,makeSpace(pool->params.getNamesSize(pool) + strlen(name) + 64),XPNR_NULL); // copy of table + new symbol
     ASSERT_NO_RET_(2121,pool->params.Open(pool),XPNR_NULL); 
 
     int len = strlen(name);
@@ -2257,7 +2261,7 @@ void BW_plugin::importParams(XB_reader *src)
 
 bool BW_plugin::allRegistered()
 {
-    ASSERT_NO_RET_FALSE(1142,makeSpace(BW2_INITIAL_FILE_SIZE));
+    ASSERT_NO_RET_FALSE(1142,makeSpace(BW2_INITIAL_FILE_SIZE + sizeof(BW_offset_t) * (pool->tags.max_id + pool->params.max_id + 2)));
 //    BW_offset_t names_limit = pool->allocator;
     if (check_only && pool->tags.index != 0 && pool->params.index != 0)
         return (check_failures == 0); // no problems?
-- 
2.43.0


From 2d92b7451b670329636f08338641e8168ff5d039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:07 +0000
Subject: [PATCH 033/134] fix: BW_plugin::Clear failed or damaged symbols when
 tables were reopened after registration of attributes

---
 src/bin_write_plugin.cpp | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 3583c4a..d2f5ceb 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2341,27 +2341,14 @@ bool BW_plugin::Clear()
     // this is requested situation
     char *tags_dst = reinterpret_cast<char*>(pool+1);
     char *params_dst = tags_dst+tags_size;
-    // Is it possible to have situatiation, which cannot be solved by this code?
-    // -------[PARAMS----][TAGS------------]
-    // Yes - when between old params and new TAGS is not enough space for growth TAGS
+    // old and new positions of both tables can overlap in any way, so I need temporary copies
+    char *copy = new char[tags_size + params_size + 1];
+    memcpy(copy,tags_src,tags_size);
+    memcpy(copy+tags_size,params_src,params_size);
+    memcpy(tags_dst,copy,tags_size);
+    memcpy(params_dst,copy+tags_size,params_size);
+    delete [] copy;
 
-    if (tags_src > tags_dst && tags_src < tags_dst + tags_size + params_size)
-    { // copy params to new place
-        char *params2_src = reinterpret_cast<char*>(pool->allocate(params_size));
-        ASSERT_NO_RET_FALSE(2103,params2_src);
-        memcpy(params2_src,params_src,params_size);
-        params_src = params2_src;
-    }
-    if (tags_src != tags_dst)
-    {
-        ASSERT_NO_RET_FALSE(2104,(tags_dst >= params_src + params_size) || (tags_dst + tags_size <= params_src));
-        memmove(tags_dst,tags_src,tags_size);
-    }
-    if (params_src != params_dst)
-    {
-        ASSERT_NO_RET_FALSE(2105,(params_dst >= tags_src + tags_size) || (params_dst + params_size <= tags_src));
-        memmove(params_dst,params_src,params_size);
-    }
     pool->tags.names_offset = sizeof(*pool);
     pool->tags.index = 0; // to be constructed
     pool->params.names_offset = sizeof(*pool)+tags_size;
-- 
2.43.0


From 5726e18f34472ea302f47ff1cbb95ffd7396741c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:07 +0000
Subject: [PATCH 034/134] fix: BW_element::setStr with a longer value lost
 children, moved the element to the end and did not work for attributes and
 nullptr

---
 src/bin_write_plugin.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index d2f5ceb..86d542f 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1045,7 +1045,7 @@ bool BW_element::setStr(BW_plugin *W,BW_element *parent,const char *value)
         LOG_ERROR("%s/%s is not STRING but %s - cannot set value %s",parent->getName(),getName(),XBT2STR(value_type),value);
         return false;
     }
-    if (strcmp(data_ref.content,value) == 0) return false; // no change
+    if (strcmp(data_ref.content,value != nullptr ? value : "") == 0) return false; // no change
 
     int value_len = value != nullptr ? strlen(value) : 0;
 
@@ -1058,16 +1058,19 @@ bool BW_element::setStr(BW_plugin *W,BW_element *parent,const char *value)
     }
     else // must reallocate and it is not so easy
     {
-        // remove and add
-        BW_offset_t _first_attribute = first_attribute;
-        first_attribute = 0; // disconnect children
+        // replace by a bigger element of the same kind with the same content
+        ASSERT_NO_RET_FALSE(10445,W->makeSpace(BW2_INITIAL_FILE_SIZE+value_len*2));
+        BW_pool *pool = getPool();
+        BW_element *new_value = pool->new_element(static_cast<XML_Binary_Type>(value_type),value_len);
+        ASSERT_NO_RET_FALSE(10446,new_value != nullptr);
+        new_value->init(pool,identification,value_type,flags);
+        strcpy(new_value->getStr(),value);
 
-        parent->remove(this);
+        new_value->first_attribute = first_attribute;
+        new_value->first_child = first_child;
+        first_attribute = first_child = 0; // disconnect children
 
-        BW_element *new_value; 
-        parent->add(new_value = W->tagStr(identification,value));
-
-        new_value->first_attribute = _first_attribute;
+        parent->replace(this,new_value);
     }
     return true;
 }
-- 
2.43.0


From c9070e8a3c811763a2feed22a353ccca743dc22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:07 +0000
Subject: [PATCH 035/134] fix: BIN_WRITE_CFG_ALWAYS_CREATE_NEW failed when the
 existing file was not a write pool or took over its size limit

---
 src/bin_write_plugin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 86d542f..a299265 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1895,6 +1895,7 @@ bool BW_plugin::Initialize()
             return false;
         }
         if (file_size < (int)sizeof(*pool)) file_size = 0; // too small - deleting
+        if (config_flags & BIN_WRITE_CFG_ALWAYS_CREATE_NEW) file_size = 0; // old content is not interesting
         ASSERT_NO_RET_FALSE(1948,file_size == 0 || (int)pool->mmap_size >= file_size); // must be allocated for whole size
         if (file_size == 0) break; // was empty -> OK
         if ((int)pool->mmap_size == max_pool_size) break; // correct size
-- 
2.43.0


From a28b6899026324201dacb4eb6b9a2d2029210cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:07 +0000
Subject: [PATCH 036/134] fix: UNIX_DATE was not handled as a 4 byte type

---
 include/binary_xml/bin_xml_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/binary_xml/bin_xml_types.h b/include/binary_xml/bin_xml_types.h
index 7e82969..11d0a37 100644
--- a/include/binary_xml/bin_xml_types.h
+++ b/include/binary_xml/bin_xml_types.h
@@ -64,7 +64,7 @@ enum XML_Binary_Type
 #endif
 };
 
-#define XBT_IS_4(type) ((type) == XBT_INT32 || (type) == XBT_INT32_DECI || (type) == XBT_INT32_CENTI || (type) == XBT_INT32_MILI || (type) == XBT_INT32_MICRO || (type) == XBT_INT32_NANO || (type) == XBT_FLOAT || (type) == XBT_UNIX_TIME || (type) == XBT_IPv4 || (type) == XBT_UINT32)
+#define XBT_IS_4(type) ((type) == XBT_INT32 || (type) == XBT_INT32_DECI || (type) == XBT_INT32_CENTI || (type) == XBT_INT32_MILI || (type) == XBT_INT32_MICRO || (type) == XBT_INT32_NANO || (type) == XBT_FLOAT || (type) == XBT_UNIX_TIME || (type) == XBT_IPv4 || (type) == XBT_UINT32 || (type) == XBT_UNIX_DATE)
 #define XBT_IS_8(type) ((type) == XBT_INT64 || (type) == XBT_DOUBLE || ((type) == XBT_UNIX_TIME64_MSEC) || ((type) == XBT_UINT64))
 
 #define XBT_IS_INT32(type) ((type) == XBT_INT32 || (type) == XBT_INT32_DECI || (type) == XBT_INT32_CENTI || (type) == XBT_INT32_MILI || (type) == XBT_INT32_MICRO || (type) == XBT_INT32_NANO)
-- 
2.43.0


From 5c9a14c458e7c4fa2d416fb5bdf7657985fed394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:22 +0000
Subject: [PATCH 037/134] fix: BW_plugin::tagData left a dangling pointer in
 the caller's data reference

---
 src/bin_write_plugin.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index a299265..6c0d1ce 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2622,6 +2622,9 @@ BW_element* BW_plugin::tagData(int16_t id,XML_Binary_Data_Ref &data)
     if (data.type == XBT_NULL)
         return tag(id);
 
+    const char *value = data.data; // data belongs to the caller
+    int value_size = data.size;
+
     XML_Binary_Type tag_type = pool->getTagType(id);
     if (tag_type != data.type)
     {
@@ -2631,15 +2634,15 @@ BW_element* BW_plugin::tagData(int16_t id,XML_Binary_Data_Ref &data)
         char *p_limit = buffer + data.size + 64;
         // bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
         ASSERT_NO_RET_NULL(2004,XBT_FromString(data.data,tag_type,&p,p_limit));
-        data.data = buffer;
-        data.size = p - buffer;
+        value = buffer;
+        value_size = p - buffer;
     }
 
-    BW_element* result = reinterpret_cast<BW_element*>(pool->allocate8(sizeof(BW_element)+data.size));
+    BW_element* result = reinterpret_cast<BW_element*>(pool->allocate8(sizeof(BW_element)+value_size));
     if (result == nullptr) return nullptr; // error message already shown in allocate
     result->init(pool,id,tag_type,BIN_WRITE_ELEMENT_FLAG);
     
-    memcpy(result+1,data.data,data.size); // copy content
+    memcpy(result+1,value,value_size); // copy content
     
     return result;
 }
-- 
2.43.0


From f62e2f6ac2d967f2f8d109322a3cd96c7addc61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:22 +0000
Subject: [PATCH 038/134] fix: BW_element::attrData did not grow the pool

---
 src/bin_write_plugin.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 6c0d1ce..bdd87a4 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -640,6 +640,12 @@ BW_element*     BW_element::attrData(int16_t id,XML_Binary_Data_Ref &data)
         ASSERT_NO_RET_NULL(1995,XBT_FromString(data.data,attr_type,&p,buffer+data.size+64));
         int target_data_size = p - buffer;
 
+        if (pool->allocator + (int)sizeof(BW_element) + target_data_size + 16 > pool->allocator_limit) // need makeSpace
+        {
+            BW_plugin *plugin = plugins.getPlugin(pool);
+            ASSERT_NO_RET_NULL(10447,plugin != nullptr);
+            ASSERT_NO_RET_NULL(10448,plugin->makeSpace(sizeof(BW_element)+target_data_size+16)); // + alignment
+        }
         BW_element* attr      = reinterpret_cast<BW_element*>(pool->allocate8(sizeof(BW_element)+target_data_size));
         ASSERT_NO_RET_NULL(1996,attr != nullptr);
 
@@ -653,6 +659,12 @@ BW_element*     BW_element::attrData(int16_t id,XML_Binary_Data_Ref &data)
     {
         ASSERT_NO_RET_NULL(1992,attr_type == data.type);
 
+        if (pool->allocator + (int)sizeof(BW_element) + data.size + 16 > pool->allocator_limit) // need makeSpace
+        {
+            BW_plugin *plugin = plugins.getPlugin(pool);
+            ASSERT_NO_RET_NULL(10449,plugin != nullptr);
+            ASSERT_NO_RET_NULL(10450,plugin->makeSpace(sizeof(BW_element)+data.size+16)); // + alignment
+        }
         BW_element* attr      = reinterpret_cast<BW_element*>(pool->allocate8(sizeof(BW_element)+data.size));
         ASSERT_NO_RET_NULL(1993,attr != nullptr);
 
-- 
2.43.0


From f9ddb1339f5e15af250b54e93b168585ed71ea7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:07 +0000
Subject: [PATCH 039/134] fix: date and time scanners stepped over the end of
 malformed text (over-read when it was reported)

---
 src/utils.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index af2c324..f5dfdf7 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -450,10 +450,12 @@ bool ScanUnixTime(const char *&p,uint32_t &value)
     const char *beg = p;
 
     if (!ScanInt(p,year)) return false;    
-    if (*(p++) != '-') return false;
+    if (*p != '-') return false;
+    p++;
     if (!ScanInt(p,month)) return false;    
     if (month < 1 || month > 12) return false; // I dont know months out of range
-    if (*(p++) != '-') return false;
+    if (*p != '-') return false;
+    p++;
     if (!ScanInt(p,day)) return false;    
     if (!IsDayOfMonth(year,month,day)) return false;
 
@@ -492,11 +494,13 @@ bool ScanUnixTime(const char *&p,uint32_t &value)
     value += hour*3600;
     if (day_start > value) return false; // last day is not complete in 32 bits
     if (*p == '\0') return true; // end of string
-    if (*(p++) != ':') return false;
+    if (*p != ':') return false;
+    p++;
 
     if (!ScanInt(p,minute) || minute < 0 || minute > 59) return false;    
     value += minute*60;
-    if (*(p++) != ':') return false;
+    if (*p != ':') return false;
+    p++;
 
     if (!ScanInt(p,second) || second < 0 || second > 59) return false;    
     value += second;
@@ -513,11 +517,12 @@ bool ScanUnixTime64msec(const char *&p,int64_t &value)
 
     if (!ScanUnixTime(p,tm32)) return false;
     int64_t tm64 = tm32;
-    if (*(p++) != '.') 
+    if (*p != '.') 
     {
         value = (int64_t)tm32*1000; // whole seconds only
         return true;  // OK
     }
+    p++;
 
     if (*p < '0' || *p > '9') return false;
     int v000 = 100 * (*(p++) - '0');
@@ -535,7 +540,7 @@ bool ScanUnixTime64msec(const char *&p,int64_t &value)
         {
             char sign = *(p++);
             int hour,min;
-            if (ScanInt(p,hour) && *(p++) == ':' && ScanInt(p,min))
+            if (ScanInt(p,hour) && *p == ':' && ScanInt(++p,min))
             {
                 if (sign == '+')
                     tm64 -= hour*3600 + min*60; 
@@ -558,10 +563,12 @@ bool ScanUnixDate(const char *&p,int32_t &value)
     //const char *beg = p;
 
     if (!ScanInt(p,year)) return false;    
-    if (*(p++) != '-') return false;
+    if (*p != '-') return false;
+    p++;
     if (!ScanInt(p,month)) return false;    
     if (month < 1 || month > 12) return false; // I dont know months out of range
-    if (*(p++) != '-') return false;
+    if (*p != '-') return false;
+    p++;
     if (!ScanInt(p,day)) return false;    
     if (!IsDayOfMonth(year,month,day)) return false;
 
-- 
2.43.0


From b2557cbc3637f05179609fe5f1ffc1c4b5140b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:07 +0000
Subject: [PATCH 040/134] fix: searching of symbols took padding after a name
 as another symbol with an empty name

---
 src/bin_write_plugin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index bdd87a4..4e47891 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1292,6 +1292,7 @@ int16_t BW_symbol_table_16B::getByName(BW_pool *pool,const char *name,BW_offset_
             // skip rest of identifier
             while(p < p_limit && *p != '\0') p++; // find end of string
             if (p >= p_limit) return -1; // not found
+            p++; // skip ASCII.NUL
 
             AA(p); // round 4B
             // next id
-- 
2.43.0


From 7f90ffcc700bcd0092de6fe4ad2fb945dc834cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:07 +0000
Subject: [PATCH 041/134] fix: refusing of a damaged .xbw file crashed when its
 root was read for the error message

---
 src/bin_write_plugin.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 4e47891..157f5c4 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1644,7 +1644,9 @@ const char *BW_pool::getDocTypeName()
     if (root > getPoolSize() && root < allocator)
     {
         BW_element *root = BWE(this->root);   
-        ASSERT_NO_RET_(2114,root->flags & BIN_WRITE_ELEMENT_FLAG,"(bad root flags)");
+        // no ASSERT_NO_... here - it would ask for this name again
+        if ((root->flags & BIN_WRITE_ELEMENT_FLAG) == 0) return "(bad root flags)";
+        if (root->identification > tags.max_id) return "(bad root identification)";
         const char *name = tags.getName(this,root->identification);    
         if (name != nullptr) return name;
     }
@@ -1865,6 +1867,9 @@ bool BW_plugin::setMaxPoolSize(int max_pool_size)
     return true;
 }
 
+#undef WORK_ID
+#define WORK_ID filename // content of the pool is not verified yet
+
 bool BW_plugin::Initialize()
 {
     if (initialized) return true; // no double initialize!!
@@ -2020,6 +2025,9 @@ bool BW_plugin::CheckExistingFile(int file_size)
 #endif
 }
 
+#undef WORK_ID
+#define WORK_ID pool->getDocTypeName()
+
 bool BW_plugin::makeSpace(int size)
 {
     int new_size = ((pool->allocator+4095+size) >> 12 << 12); // I want rounded file size
-- 
2.43.0


From 1ebecec9f6481b696b4f94ad8c8369d8dfbc53db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:09 +0000
Subject: [PATCH 042/134] fix: XML_Item::getIntPtr returned the first text
 value ever read for every later one

---
 src/bin_xml.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index a287516..050982b 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -440,7 +440,8 @@ const int32_t *XML_Item::getIntPtr() const
     else if (t == XBT_STRING)
     {
         if (p == nullptr) return nullptr;
-        static int32_t p_result = atoi(p);
+        static int32_t p_result;
+        p_result = atoi(p);
         return &p_result;
     }
     return nullptr;
-- 
2.43.0


From 84129229810fdfd4993e4e53f0f36fec9c5f42d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:09 +0000
Subject: [PATCH 043/134] fix: line breaks and tabs of attribute values were
 lost when the XML written from .xbw was read again

---
 include/binary_xml/bin_xml_types.h |  2 +-
 src/bin_xml_creator.cpp            | 12 +++---------
 src/bin_xml_types.cpp              |  5 ++++-
 3 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/include/binary_xml/bin_xml_types.h b/include/binary_xml/bin_xml_types.h
index 11d0a37..86fc487 100644
--- a/include/binary_xml/bin_xml_types.h
+++ b/include/binary_xml/bin_xml_types.h
@@ -116,7 +116,7 @@ const char     *XBT_ToString(XML_Binary_Type type,const char *data);
 int             XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *dst,int dst_size);
     
 void            XBT_ToStringStream(XML_Binary_Type type,const char *data,std::ostream &os);
-void            XBT_ToXMLStream(XML_Binary_Type type,const char *data,std::ostream &os);
+void            XBT_ToXMLStream(XML_Binary_Type type,const char *data,std::ostream &os,bool attribute = false);
 
 //-------------------------------------------------------------------------------------------------
 
diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 429ccaf..f1fecd3 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -163,7 +163,7 @@ void Bin_src_plugin::s_OnBinParam2Stream(const char *param_name,int param_id,XML
 
     CTX->os << " " << param_name << "=\"";
     // void XBT_ToStringStream(XML_Binary_Type type,const char *data,std::ostream &os)
-    XBT_ToXMLStream(type,param_value,CTX->os);
+    XBT_ToXMLStream(type,param_value,CTX->os,true);
     CTX->os << "\"";
 }
 
@@ -172,14 +172,8 @@ void Bin_src_plugin::s_OnParam2Stream(const char *param_name,const char *param_v
     BIN_SRC_PLUGIN2STREAM_CONTEXT_t *CTX = reinterpret_cast<BIN_SRC_PLUGIN2STREAM_CONTEXT_t *>(userdata);
 
     CTX->os << " " << param_name << "=\"";
-    for(const char *c = param_value;*c != '\0';c++)
-    {
-        if (*c == '<') CTX->os << "&lt;";
-        else if (*c == '>') CTX->os << "&gt;";
-        else if (*c == '&') CTX->os << "&amp;";
-        else if (*c == '\"') CTX->os << "&quot;";
-        else CTX->os << *c;
-    }
+    if (param_value != nullptr)
+        XBT_ToXMLStream(XBT_STRING,param_value,CTX->os,true);
     CTX->os << "\"";
 }
 
diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 526857c..3976eea 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -1149,7 +1149,7 @@ void XBT_ToStringStream(XML_Binary_Type type,const char *data,std::ostream &os)
     }
 }
 
-void XBT_ToXMLStream(XML_Binary_Type type,const char *data,std::ostream &os)
+void XBT_ToXMLStream(XML_Binary_Type type,const char *data,std::ostream &os,bool attribute)
 {
     char buffer[4096+1];
     int offset = 0;
@@ -1164,6 +1164,9 @@ void XBT_ToXMLStream(XML_Binary_Type type,const char *data,std::ostream &os)
             else if (buffer[i] == '>') os << "&gt;";
             else if (buffer[i] == '&') os << "&amp;";
             else if (buffer[i] == '\"') os << "&quot;";
+            else if (buffer[i] == '\r') os << "&#13;"; // would be normalized to \n
+            else if (buffer[i] == '\n' && attribute) os << "&#10;"; // would be normalized to space
+            else if (buffer[i] == '\t' && attribute) os << "&#9;";
             else os << buffer[i];
         }
     }
-- 
2.43.0


From 4c444d34e5b2a21613c1c0879aecd038a26dfdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:09 +0000
Subject: [PATCH 044/134] fix: values and attributes were written to XML
 without escaping when .xb is converted back

---
 src/bin_xml.cpp | 31 ++++++++-----------------------
 1 file changed, 8 insertions(+), 23 deletions(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index 050982b..6af1767 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -538,14 +538,8 @@ void XML_Item::write(std::ostream& os,XB_reader &R,int deep)
         XML_Param_Description *param = getParamByIndex(p);
         os << " " << R.getParamName(param->name) << "=\"";
     
-
-        char buffer[4096+1];
-        for(int offset = 0;;)
-        {
-            int len = param->getStringChunk(this,offset,buffer,sizeof(buffer));
-            if (len == 0) break;// TODO: escape param_value!
-            os << buffer;
-        }
+        XML_Binary_Data_Ref D = param->getData(this);
+        XBT_ToXMLStream(D.type,D.data,os,true);
 /*        LOG("\tparam[%d]:name=%s (%d) type=%s (%d) data=%d absolute=%08x",p,
             R.getParamName(param->name),param->name,
             XML_BINARY_TYPE_NAMES[param->type],param->type,
@@ -553,7 +547,7 @@ void XML_Item::write(std::ostream& os,XB_reader &R,int deep)
 */
         os << "\"";
     }
-    char buffer[4096+1];
+    XML_Binary_Data_Ref D = getData();
     if (childcount > 0)
     {
         os << ">\n";
@@ -573,27 +567,18 @@ void XML_Item::write(std::ostream& os,XB_reader &R,int deep)
         }*/
         TAB;
 
-
-        for(int offset = 0;;)
-        {
-            int len = getStringChunk(offset,buffer,sizeof(buffer));
-            if (len == 0) break;
-        // TODO: escape param_value!
-            os << buffer;
-        }
-        os << "\n";    // TODO: escape value!
+        XBT_ToXMLStream(D.type,D.data,os);
+        os << "\n";
         TAB;os << "</" << R.getNodeName(name) << ">\n";
     }
     else
     {
-        int offset = 0;
-        if (getStringChunk(offset,buffer,sizeof(buffer)) == 0)
+        if (D.type == XBT_NULL)
                 os << "/>\n";
         else
         {
-                os << ">" << buffer;
-                while (getStringChunk(offset,buffer,sizeof(buffer)) > 0)
-                    os << buffer;
+                os << ">";
+                XBT_ToXMLStream(D.type,D.data,os);
                 os << "</" << R.getNodeName(name) << ">\n";
         }
     }
-- 
2.43.0


From d5fbf45983694d80c22db84de74cbfdbb621f947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:25 +0000
Subject: [PATCH 045/134] fix: attribute with hexadecimal digits was stored
 over the following data of the element

---
 src/bin_xml_creator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index f1fecd3..b8eb33f 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -966,7 +966,7 @@ void Bin_xml_creator::XStoreParamsEvent(const char *param_name,const char *param
     type = XBT_Detect2(param_value,type);
     int size = XBT_Size2(type,0);
     char *in_place_wp = reinterpret_cast<char*>(&xstore_data->params->data);
-    if (size == 4 && XBT_FromString(param_value,type,&in_place_wp,xstore_data->creator->data+xstore_data->creator->data_size_allocated))
+    if (size == 4 && !XBT_IS_VARSIZE(type) && XBT_FromString(param_value,type,&in_place_wp,xstore_data->creator->data+xstore_data->creator->data_size_allocated))
     {
         xstore_data->params->type = type;
     }
-- 
2.43.0


From db3a788356b6689b9f109e76148832ce79fa1130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 046/134] fix: heap overflow when document with many small
 elements is converted to .xb

---
 src/bin_xml_creator.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index b8eb33f..fbe4a2a 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -388,13 +388,20 @@ bool Bin_xml_creator::Make_xb()
 
     // 3. allocate and fill--------------------------
     src->updateFileSize();
-    this->data_size_allocated = 1024 + src->getFileSize()*4;
+    // each node needs header, link from parent, type and alignment - even if it is only <a/> in source
+    int64_t size_needed = 1024 + strlen(src->getFilename()) + (int64_t)src->getFileSize()*4 + (int64_t)total_node_count*64 + (int64_t)total_param_count*32;
+    if (size_needed > INT32_MAX)
+    {
+        std::cerr << "error: " << src->getFilename() << " is too big, references are limited to 2GB\n";
+        return false;
+    }
+    this->data_size_allocated = size_needed;
     this->data = reinterpret_cast<char *>(malloc(data_size_allocated)); // some reserve
 
     DBG(std::cout << "DBG:Buffer: " << (void *)this->data << "\n");
     if (this->data == nullptr)
     {
-        std::cerr << "error: " << strerror(errno) << " while malloc(" << src->getFileSize()*2 << ")\n";
+        std::cerr << "error: " << strerror(errno) << " while malloc(" << data_size_allocated << ")\n";
         return false;
     }
     this->dst_file_size = FillData();
-- 
2.43.0


From 1961fd9780826894ed42d3bdb6a1bbc03079a62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 047/134] fix: uninitialised padding bytes in .xb, equal
 subtrees were not always merged and conversion buffer leaked

---
 src/bin_xml_creator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index fbe4a2a..a47da17 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -345,6 +345,9 @@ Bin_xml_creator::~Bin_xml_creator()
         close(dst_file);
         dst_file = -1; 
     }
+    if (data != nullptr)
+        free(data);
+    data = nullptr;
     if (dst != nullptr)
         delete [] dst; 
 }
@@ -388,6 +391,7 @@ bool Bin_xml_creator::Make_xb()
 
     // 3. allocate and fill--------------------------
     src->updateFileSize();
+    if (this->data != nullptr) free(this->data);
     // each node needs header, link from parent, type and alignment - even if it is only <a/> in source
     int64_t size_needed = 1024 + strlen(src->getFilename()) + (int64_t)src->getFileSize()*4 + (int64_t)total_node_count*64 + (int64_t)total_param_count*32;
     if (size_needed > INT32_MAX)
@@ -396,7 +400,7 @@ bool Bin_xml_creator::Make_xb()
         return false;
     }
     this->data_size_allocated = size_needed;
-    this->data = reinterpret_cast<char *>(malloc(data_size_allocated)); // some reserve
+    this->data = reinterpret_cast<char *>(calloc(1,data_size_allocated)); // some reserve, zeroed - paddings are written to file and hashed
 
     DBG(std::cout << "DBG:Buffer: " << (void *)this->data << "\n");
     if (this->data == nullptr)
-- 
2.43.0


From d829a9c25825dd790850df2adac22241c7b3f152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 048/134] fix: symbol tables allocated by malloc were released
 by delete []

---
 src/bin_xml_creator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index a47da17..140020f 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -334,8 +334,8 @@ Bin_xml_creator::~Bin_xml_creator()
         {
             free((void*)symbol_table[t][i]);
         }
-        delete [] symbol_table[t];
-        delete [] symbol_table_types[t];
+        free(symbol_table[t]);
+        free(symbol_table_types[t]);
         symbol_table[t] = nullptr;
         symbol_table_types[t] = nullptr;
         symbol_count[t] = 0;
-- 
2.43.0


From d393355d3bff0527cc8fee465c1d1d850ae5f762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 049/134] fix: 8 byte values were read from a wrong place after
 packing moved their element by 4 bytes

---
 src/bin_xml_packer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_xml_packer.cpp b/src/bin_xml_packer.cpp
index cc1a367..69646f0 100644
--- a/src/bin_xml_packer.cpp
+++ b/src/bin_xml_packer.cpp
@@ -252,6 +252,7 @@ char *Bin_xml_packer::PackNode(char **_wp,char *_X)
 // _x is pointer to XML_Item in destionation data2 space
 {
     AA(*_wp);
+    if (((*_wp-data2) ^ (_X-data)) & 4) *_wp += 4; // 8 byte values inside must stay aligned
     char *_x = *_wp;
     
     XML_Item *X_src = reinterpret_cast<XML_Item*>(_X);
-- 
2.43.0


From 941e27b29ea331e872707ae5015ae9bc2ea4ec88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 050/134] fix: stack overflow when document with millions of
 elements is packed

---
 src/bin_xml_packer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml_packer.cpp b/src/bin_xml_packer.cpp
index 69646f0..d7d0af5 100644
--- a/src/bin_xml_packer.cpp
+++ b/src/bin_xml_packer.cpp
@@ -159,7 +159,7 @@ void Bin_xml_packer::MarkReferences()
     DBG(std::cout << "==================" << computed_hashes << " OK\n");
 
 // sort all
-    SN.index = reinterpret_cast<int*>(alloca(sizeof(int)*total_node_count));
+    SN.index = new int[total_node_count]; // can be too big for stack
     for(int i = 0;i < total_node_count;i++) SN.index[i] = i;
     mergesort_r2
        (reinterpret_cast<void*>(SN.index),
@@ -240,6 +240,7 @@ void Bin_xml_packer::MarkReferences()
     }
     delete [] SN.node_links;
     delete [] SN.node_hashes;
+    delete [] SN.index;
 }
 
 char *Bin_xml_packer::PackNode(char **_wp,char *_X)
-- 
2.43.0


From 52b1cd8b3b503e5db45426bb9871a2a807adf8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:46 +0000
Subject: [PATCH 051/134] fix: values in CDATA, after comments, with entities
 or after subelements were lost, entity in attribute aborted conversion

---
 include/binary_xml/bin_xml_creator.h |  1 +
 include/binary_xml/bin_xml_plugin.h  |  4 +++
 src/bin_xml_creator.cpp              | 12 ++++++-
 src/bin_xml_plugin.cpp               | 54 ++++++++++++++++++++++------
 4 files changed, 60 insertions(+), 11 deletions(-)

diff --git a/include/binary_xml/bin_xml_creator.h b/include/binary_xml/bin_xml_creator.h
index 4b24635..06c1d68 100644
--- a/include/binary_xml/bin_xml_creator.h
+++ b/include/binary_xml/bin_xml_creator.h
@@ -94,6 +94,7 @@ protected:
 // 1st pass to enumerate paramcount
     int     total_node_count;
     int     total_param_count;
+    int64_t total_text_size;    // entities can make texts longer than source file
 // 2nd pass to fill tables
     const char              **symbol_table[SYMBOL_TABLES_COUNT];
     XML_Binary_Type_Stored  *symbol_table_types[SYMBOL_TABLES_COUNT];
diff --git a/include/binary_xml/bin_xml_plugin.h b/include/binary_xml/bin_xml_plugin.h
index 02a2091..d9382e8 100644
--- a/include/binary_xml/bin_xml_plugin.h
+++ b/include/binary_xml/bin_xml_plugin.h
@@ -2,6 +2,8 @@
 
 #include <libxml/parser.h>
 #include <libxml/tree.h>
+#include <map>
+#include <string>
 
 #include "bin_xml_creator.h"
 
@@ -11,6 +13,8 @@ class Bin_xml_plugin : public Bin_src_plugin // interface for xml input format
 protected:
     xmlDoc      *doc;
     xmlNode     *root_element;
+    std::map<const void*,std::string> composed;  // texts which are not stored in one piece in DOM (entities, CDATA, comments inside)
+    const char *getText(xmlNode *first,xmlNode *end,const void *key);
 public:
     Bin_xml_plugin(const char *filename,Bin_xml_creator *bin_xml_creator);
     virtual ~Bin_xml_plugin();
diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 140020f..37293bd 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -372,6 +372,7 @@ bool Bin_xml_creator::Make_xb()
     // 1. filling symbol tables----------------------
     this->total_node_count = 4; // service elements!
     this->total_param_count = 0;
+    this->total_text_size = 0;
 
     void *root = src->getRoot();
     ASSERT_NO_RET_FALSE(1184,root != nullptr);
@@ -393,7 +394,7 @@ bool Bin_xml_creator::Make_xb()
     src->updateFileSize();
     if (this->data != nullptr) free(this->data);
     // each node needs header, link from parent, type and alignment - even if it is only <a/> in source
-    int64_t size_needed = 1024 + strlen(src->getFilename()) + (int64_t)src->getFileSize()*4 + (int64_t)total_node_count*64 + (int64_t)total_param_count*32;
+    int64_t size_needed = 1024 + strlen(src->getFilename()) + (int64_t)src->getFileSize()*4 + (int64_t)total_node_count*64 + (int64_t)total_param_count*32 + total_text_size;
     if (size_needed > INT32_MAX)
     {
         std::cerr << "error: " << src->getFilename() << " is too big, references are limited to 2GB\n";
@@ -543,6 +544,13 @@ void Bin_xml_creator::FirstPassEvent(void *element,void *userdata,int deep)
     _this->total_node_count++;
     if (!_this->src->ForAllBinParams(FirstPassBinParamEvent,element,userdata)) // this is faster!
         _this->src->ForAllParams(FirstPassParamEvent,element,userdata);
+
+    XML_Binary_Type type = XBT_UNKNOWN;
+    int size = 0;
+    _this->src->getNodeBinValue(element,type,size);
+    if (type != XBT_UNKNOWN) return; // stored in the same form as in source file
+    const char *value = _this->src->getNodeValue(element);
+    if (value != nullptr) _this->total_text_size += strlen(value);
     
 }
 
@@ -556,6 +564,7 @@ void Bin_xml_creator::FirstPassParamEvent(const char *param_name,const char *par
 {
     Bin_xml_creator *_this = reinterpret_cast<Bin_xml_creator*>(userdata);
     _this->total_param_count++;
+    if (param_value != nullptr) _this->total_text_size += strlen(param_value);
 }
 
 void Bin_xml_creator::SecondPassEvent(void *element,void *userdata,int deep)
@@ -601,6 +610,7 @@ bool Bin_xml_creator::Make_xbw()
     // 1. filling symbol tables----------------------
     this->total_node_count = 4; // service elements!
     this->total_param_count = 0;
+    this->total_text_size = 0;
 
     void *root = src->getRoot();
     ASSERT_NO_RET_FALSE(2052,root != nullptr);
diff --git a/src/bin_xml_plugin.cpp b/src/bin_xml_plugin.cpp
index 3db0ee9..e7d5094 100644
--- a/src/bin_xml_plugin.cpp
+++ b/src/bin_xml_plugin.cpp
@@ -74,14 +74,49 @@ const char *Bin_xml_plugin::getNodeName(void *element)
 const char *Bin_xml_plugin::getNodeValue(void *element)
 {
     xmlNode *X = reinterpret_cast<xmlNode *>(element);
-    if (X->children == nullptr) return nullptr;
-    if (X->children->type != XML_TEXT_NODE) return nullptr;
-    const char *value = reinterpret_cast<const char *>(X->children->content);
-    if (value == nullptr) return nullptr;
-//  if (X->childcount > 0) // is there nonspace value?
-    while(*value != '\0' && isspace(*value)) value++;
-    if (*value == '\0') return nullptr;
-    return value;   
+// there is 1 value per element: the first nonspace text, it can be before, between or after subelements
+    for(xmlNode *N = X->children;N != nullptr;)
+    {
+        xmlNode *end = N;
+        while (end != nullptr && end->type != XML_ELEMENT_NODE) end = end->next;
+        const char *value = getText(N,end,N);
+        while(*value != '\0' && isspace((unsigned char)*value)) value++;
+        if (*value != '\0') return value;
+        N = (end == nullptr ? nullptr : end->next);
+    }
+    return nullptr;
+}
+
+const char *Bin_xml_plugin::getText(xmlNode *first,xmlNode *end,const void *key)
+// text of nodes from first to end (exclusive), comments and processing instructions are not part of text
+{
+    int pieces = 0;
+    xmlNode *piece = nullptr;
+    for(xmlNode *N = first;N != end;N = N->next)
+        if (N->type == XML_TEXT_NODE || N->type == XML_CDATA_SECTION_NODE || N->type == XML_ENTITY_REF_NODE)
+        {
+            pieces++;
+            piece = N;
+        }
+    if (pieces == 0) return "";
+    if (pieces == 1 && piece->type != XML_ENTITY_REF_NODE)
+        return piece->content == nullptr ? "" : reinterpret_cast<const char*>(piece->content);
+
+    auto found = composed.find(key);
+    if (found == composed.end())
+    {
+        std::string text;
+        for(xmlNode *N = first;N != end;N = N->next)
+            if (N->type == XML_TEXT_NODE || N->type == XML_CDATA_SECTION_NODE || N->type == XML_ENTITY_REF_NODE)
+            {
+                xmlChar *content = xmlNodeGetContent(N);
+                if (content == nullptr) continue;
+                text += reinterpret_cast<const char*>(content);
+                xmlFree(content);
+            }
+        found = composed.emplace(key,text).first;
+    }
+    return found->second.c_str();
 }
 //-------------------------------------------------------------------------------------------------
 
@@ -126,8 +161,7 @@ void Bin_xml_plugin::ForAllParams(OnParam_t on_param,void *element,void *userdat
 
     for(xmlAttr *A = X->properties;A != nullptr;A = A->next)
     {
-        assert(A->children->type == XML_TEXT_NODE);
-        const char *value = reinterpret_cast<const char*>(A->children->content);
+        const char *value = getText(A->children,nullptr,A);
     
         on_param(reinterpret_cast<const char*>(A->name),value,element,userdata);
     }
-- 
2.43.0


From ae5f45f6940c239ebfdfb36a190f0d8715bb946c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 052/134] fix: mergesort_r2 overflowed stack when array is big

---
 src/missings.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/missings.cpp b/src/missings.cpp
index e2d3bc9..6a1cc09 100644
--- a/src/missings.cpp
+++ b/src/missings.cpp
@@ -52,7 +52,8 @@ void mergesort_r2(void *base, int nmemb, int size,
                   void *arg)
 {
     void *src = base;
-    void *dst = alloca(size*nmemb);
+    char *temp = new char[(size_t)size*(nmemb > 0 ? nmemb : 0)]; // can be too big for stack
+    void *dst = temp;
 #define SRC(idx) ((char*)src + (size)*(idx))
 #define DST(idx) ((char*)dst + (size)*(idx))
     for(int merge_len = 1;merge_len < nmemb;merge_len <<= 1)
@@ -107,7 +108,8 @@ void mergesort_r2(void *base, int nmemb, int size,
 #undef SRC
 #undef DST
     if (dst == base)
-        memcpy(base,src,size * nmemb);
+        memcpy(base,src,(size_t)size * nmemb);
+    delete [] temp;
 }
 
 
-- 
2.43.0


From fcce03638701d1831751dfeb7a499c7ffa0bfb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:14 +0000
Subject: [PATCH 053/134] fix: string attributes and BLOB_STRING values of .xbw
 were copied with a wrong size to .xb

---
 src/bin_xml_types.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 3976eea..97218e4 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -492,7 +492,13 @@ int XBT_Align(XML_Binary_Type type)
 
 bool XBT_Copy(const char *src,XML_Binary_Type type,int size,char **_wp,char *limit)
 {
-    int value_size = XBT_Size2(type,size);
+    int value_size;
+    if (type == XBT_STRING)
+        value_size = strlen(src)+1;
+    else if (XBT_IS_VARSIZE(type)) // size is part of value, XBT_Size2 would round size of BLOB_STRING up again
+        value_size = sizeof(int32_t) + *reinterpret_cast<const int32_t*>(src);
+    else
+        value_size = XBT_Size2(type,size);
     int align_size = XBT_Align(type);
     if (limit - *_wp < value_size + align_size) 
     {
-- 
2.43.0


From 278ce0098ee30de6b6527eaba971073714a0a20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:14 +0000
Subject: [PATCH 054/134] fix: reserved tags and attributes of .xbw lost their
 names in .xb

---
 src/bin_xml_creator.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 37293bd..eb23039 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -1284,6 +1284,17 @@ int Bin_xml_creator::Find(const char *symbol,const int t)
         else
             B = M+1;
     }
+// reserved names have negative id
+    if (t == SYMBOL_TABLE_NODES)
+    {
+        for(int id = XTNR_NULL-1;id > XTNR_LAST;id--)
+            if (strcmp(symbol,XTNR2str(id)) == 0) return id;
+    }
+    else
+    {
+        for(int id = XPNR_NULL-1;id > XPNR_LAST;id--)
+            if (strcmp(symbol,XPNR2str(id)) == 0) return id;
+    }
     return -1; // not found
 }
 
-- 
2.43.0


From 5a8ba34bd1f02bfc4bf0165517c24bba285353e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:14 +0000
Subject: [PATCH 055/134] fix: Bin_xml_creator without destination name used
 uninitialised pointer

---
 src/bin_xml_creator.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index eb23039..9c97d6c 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -264,6 +264,7 @@ Bin_xml_creator::Bin_xml_creator(const char *src,const char *dst,Bin_xml_creator
     this->dst_file_size = -1;
     
     this->data = nullptr;
+    this->data_size_allocated = 0;
 
 
 // 2nd pass to fill tables
@@ -287,8 +288,9 @@ Bin_xml_creator::Bin_xml_creator(Bin_src_plugin *src,const char *dst,Bin_xml_cre
     else
         this->dst = AllocFilenameChangeExt(dst,".xbw");
     this->dst_file = -1; 
+    this->dst_file_size = -1;
     this->data = nullptr;
-    this->dst_file = -1; 
+    this->data_size_allocated = 0;
 
     for(int t = 0;t < SYMBOL_TABLES_COUNT;t++)
     {
@@ -303,14 +305,16 @@ Bin_xml_creator::Bin_xml_creator(Bin_src_plugin *src,Bin_xml_creator_target targ
     this->src = src;
     this->src->LinkCreator(this); // link it
     this->src_allocated = false;
+    const char *dst = src->getFilename();
     this->target = target;
     if (target == XBTARGET_XB)
         this->dst = AllocFilenameChangeExt(dst,".xb");
     else
         this->dst = AllocFilenameChangeExt(dst,".xbw");
     this->dst_file = -1; 
+    this->dst_file_size = -1;
     this->data = nullptr;
-    this->dst_file = -1; 
+    this->data_size_allocated = 0;
 
     for(int t = 0;t < SYMBOL_TABLES_COUNT;t++)
     {
-- 
2.43.0


From 6f4fb74b39c9212caf7165ece676c71f313dc24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:14 +0000
Subject: [PATCH 056/134] fix: element without value of a typed or string tag
 crashed or failed conversion to .xbw

---
 src/bin_xml_creator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 9c97d6c..35ab8fa 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -1069,6 +1069,7 @@ void Bin_xml_creator::XStore2XBWEvent(void *element,void *userdata)
     if (from_text) // text analyse solution when binary is not available
     {
         tag_type = static_cast<XML_Binary_Type>(_this->symbol_table_types[st_type][id]);
+        if (value == nullptr || (*value == '\0' && tag_type != XBT_STRING)) tag_type = XBT_NULL; // no value of any type
     // THIS IS BAD: I have value in string but need size of this value as binary value
     // and this size can be obtained by decoding string. But decoding string is work and
     // if size of result is only result, it is waste of CPU time.
-- 
2.43.0


From 8cd8ba7eadbaf8dacabf0f970dd444f88a3b9e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:06 +0000
Subject: [PATCH 057/134] fix: long numbers lost digits because they were
 detected as DOUBLE

---
 src/bin_xml_types.cpp | 49 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 97218e4..6f7f5ae 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -4,6 +4,8 @@
 #include <binary_xml/bin_xml.h>
 #include <assert.h>
 
+#include <string>
+
 namespace pklib_xml
 {
 
@@ -200,13 +202,50 @@ static XML_Binary_Type XBT_DetectShape(const char *value,bool verbose)
     return XBT_STRING;
 }
 
+static bool XBT_NormalizeNumber(const char *text,std::string &digits,int &exponent,bool &negative)
+// number is 0.<digits> * 10^exponent, where digits neither begin nor end with 0
+{
+    digits.clear();
+    exponent = 0;
+    negative = (*text == '-');
+    if (*text == '-' || *text == '+') text++;
+
+    bool dot = false,any = false;
+    for(;;text++)
+    {
+        if (*text == '.' && !dot) { dot = true;continue; }
+        if (*text < '0' || *text > '9') break;
+        any = true;
+        if (digits.empty() && *text == '0')
+        {
+            if (dot) exponent--;
+            continue;
+        }
+        digits += *text;
+        if (!dot) exponent++;
+    }
+    if (!any) return false;
+    if (*text == 'e' || *text == 'E')
+    {
+        char *end;
+        long e = strtol(text+1,&end,10);
+        if (isspace(text[1]) || end == text+1 || e < -100000 || e > 100000) return false;
+        exponent += e;
+        text = end;
+    }
+    while (!digits.empty() && digits.back() == '0') digits.pop_back();
+    if (digits.empty()) exponent = 0;
+    return *text == '\0';
+}
+
 static bool XBT_IsSameNumber(const char *A,const char *B)
+// exact comparision: conversion to double would hide lost digits
 {
-    char *A_end,*B_end;
-    if (isspace(*A) || strpbrk(A,"xX") != nullptr) return false;
-    double A_value = strtod(A,&A_end);
-    double B_value = strtod(B,&B_end);
-    return *A_end == '\0' && *B_end == '\0' && A_value == B_value && A_value - B_value == 0; // infinity is not accepted
+    std::string A_digits,B_digits;
+    int A_exponent,B_exponent;
+    bool A_negative,B_negative;
+    return XBT_NormalizeNumber(A,A_digits,A_exponent,A_negative) && XBT_NormalizeNumber(B,B_digits,B_exponent,B_negative)
+        && A_negative == B_negative && A_exponent == B_exponent && A_digits == B_digits;
 }
 
 static bool XBT_IsLossless(const char *value,XML_Binary_Type type)
-- 
2.43.0


From 8f6b381e7e5b7dd8010a361139ecffaf549136f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:06 +0000
Subject: [PATCH 058/134] fix: values lost digits or could not be converted
 when joined type of their column cannot hold them

---
 include/binary_xml/bin_xml_creator.h |  4 ++++
 include/binary_xml/bin_xml_types.h   |  1 +
 src/bin_xml_creator.cpp              | 24 +++++++++++++++++++++++-
 src/bin_xml_types.cpp                | 25 +++++++++++++++++++++++++
 4 files changed, 53 insertions(+), 1 deletion(-)

diff --git a/include/binary_xml/bin_xml_creator.h b/include/binary_xml/bin_xml_creator.h
index 06c1d68..f085f5b 100644
--- a/include/binary_xml/bin_xml_creator.h
+++ b/include/binary_xml/bin_xml_creator.h
@@ -122,6 +122,10 @@ protected:
         static void SecondPassEvent(void *element,void *userdata,int deep);
         static void SecondPassBinParamEvent(const char *param_name,int param_id,XML_Binary_Type type,const char *param_value,void *element,void *userdata);
         static void SecondPassParamEvent(const char *param_name,const char *param_value,void *element,void *userdata);
+
+        static void ThirdPassEvent(void *element,void *userdata,int deep);
+        static void ThirdPassParamEvent(const char *param_name,const char *param_value,void *element,void *userdata);
+        void CheckJoinedType(const char *symbol,const int t,const char *value);
         
         int32_t FillData();
             const char *WriteChildSymbols(char **_wp,tag_name_id_t tag_name,int symbol_table);
diff --git a/include/binary_xml/bin_xml_types.h b/include/binary_xml/bin_xml_types.h
index 86fc487..5643d19 100644
--- a/include/binary_xml/bin_xml_types.h
+++ b/include/binary_xml/bin_xml_types.h
@@ -98,6 +98,7 @@ extern const char *XML_BINARY_TYPE_NAMES[XBT_LAST+1];
 
 XML_Binary_Type XBT_Detect(const char *value,bool verbose = false);
 XML_Binary_Type XBT_Detect2(const char *value,XML_Binary_Type expected);
+bool            XBT_CanHold(const char *value,XML_Binary_Type type);
 XML_Binary_Type XBT_JoinTypes(XML_Binary_Type A,XML_Binary_Type B);
 
 int             XBT_Compare(XML_Binary_Type A_type,const void *A_value,int A_size,
diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 35ab8fa..cd52c59 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -487,6 +487,7 @@ bool Bin_xml_creator::MakeSymbolTable()
     }
 
     src->ForAllChildrenRecursively(SecondPassEvent,src->getRoot(),(void*)this,0);
+    src->ForAllChildrenRecursively(ThirdPassEvent,src->getRoot(),(void*)this,0); // all types are known
 
     for(int t = 0;t < SYMBOL_TABLES_COUNT;t++)
     {
@@ -593,6 +594,27 @@ void Bin_xml_creator::SecondPassParamEvent(const char *param_name,const char *pa
     _this->FindOrAdd(param_name,SYMBOL_TABLE_PARAMS,param_value);
 }
 
+void Bin_xml_creator::ThirdPassEvent(void *element,void *userdata,int deep)
+{
+    Bin_xml_creator *_this = reinterpret_cast<Bin_xml_creator*>(userdata);
+    _this->CheckJoinedType(_this->src->getNodeName(element),SYMBOL_TABLE_NODES,_this->src->getNodeValue(element));
+    _this->src->ForAllParams(ThirdPassParamEvent,element,userdata);
+}
+
+void Bin_xml_creator::ThirdPassParamEvent(const char *param_name,const char *param_value,void *element,void *userdata)
+{
+    reinterpret_cast<Bin_xml_creator*>(userdata)->CheckJoinedType(param_name,SYMBOL_TABLE_PARAMS,param_value);
+}
+
+void Bin_xml_creator::CheckJoinedType(const char *symbol,const int t,const char *value)
+// 16777217 and 1.5E3 are joined to FLOAT, but FLOAT cannot hold both
+{
+    int id = Find(symbol,t);
+    if (id < 0) return;
+    if (!XBT_CanHold(value,static_cast<XML_Binary_Type>(symbol_table_types[t][id])))
+        symbol_table_types[t][id] = XBT_VARIANT;
+}
+
 //-------------------------------------------------------------------------------------------------
 
 struct MakingXBW_1node
@@ -989,7 +1011,7 @@ void Bin_xml_creator::XStoreParamsEvent(const char *param_name,const char *param
         type = static_cast<XML_Binary_Type>(xstore_data->creator->symbol_table_types[SYMBOL_TABLE_PARAMS][name_id]);
 
     type = XBT_Detect2(param_value,type);
-    int size = XBT_Size2(type,0);
+    int size = (type == XBT_VARIANT ? -1 : XBT_Size2(type,0));
     char *in_place_wp = reinterpret_cast<char*>(&xstore_data->params->data);
     if (size == 4 && !XBT_IS_VARSIZE(type) && XBT_FromString(param_value,type,&in_place_wp,xstore_data->creator->data+xstore_data->creator->data_size_allocated))
     {
diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 6f7f5ae..a362926 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -348,6 +348,31 @@ XML_Binary_Type XBT_Detect2(const char *value,XML_Binary_Type expected)
     return XBT_JoinTypes(detected,expected);
 }
 
+static bool XBT_IsNumber(XML_Binary_Type type)
+{
+    return XBT_IS_INT32(type) || type == XBT_UINT32 || type == XBT_INT64 || type == XBT_UINT64 || type == XBT_FLOAT || type == XBT_DOUBLE;
+}
+
+bool XBT_CanHold(const char *value,XML_Binary_Type type)
+// Can value be stored in this type (for example joined from more values) without loss?
+{
+    if (value == nullptr || *value == '\0') return true; // NULL
+    if (type == XBT_VARIANT || type == XBT_STRING || type == XBT_BLOB_STRING) return true;
+    if (XBT_IsLossless(value,type)) return true;
+    if (!XBT_IsNumber(type) || !XBT_IsNumber(XBT_Detect(value))) return false;
+
+    // 7 can be stored as 7.00
+    char bin[64] __attribute__((aligned(8)));
+    char text[MIN_OUT_BUFFER_SIZE*2];
+    char *wp = bin;
+    int offset = 0;
+    if (!XBT_FromString(value,type,&wp,bin+sizeof(bin))) return false;
+    int size = XBT_ToStringChunk(type,bin,offset,text,sizeof(text));
+    if (size <= 0 || size >= (int)sizeof(text)) return false;
+    text[size] = '\0';
+    return XBT_IsSameNumber(value,text);
+}
+
 int XBT_Compare(XML_Binary_Type A_type,const void *A_value,int A_size,XML_Binary_Type B_type,const void *B_value,int B_size)
 {
 #define RETURN_COMPARE_OF_TYPE(_T) \
-- 
2.43.0


From 023210096752c5f0947b4a83b9d7f2edb03ac1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:06 +0000
Subject: [PATCH 059/134] fix: values of different types in one column failed
 conversion to .xbw

---
 src/bin_xml_creator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index cd52c59..6a33058 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -1091,6 +1091,7 @@ void Bin_xml_creator::XStore2XBWEvent(void *element,void *userdata)
     if (from_text) // text analyse solution when binary is not available
     {
         tag_type = static_cast<XML_Binary_Type>(_this->symbol_table_types[st_type][id]);
+        if (tag_type == XBT_VARIANT && value != nullptr) tag_type = XBT_Detect(value); // each value has its own type
         if (value == nullptr || (*value == '\0' && tag_type != XBT_STRING)) tag_type = XBT_NULL; // no value of any type
     // THIS IS BAD: I have value in string but need size of this value as binary value
     // and this size can be obtained by decoding string. But decoding string is work and
-- 
2.43.0


From 6fc2cbe774788af02f5cba161cee83018135f049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:11 +0000
Subject: [PATCH 060/134] fix: 64 bit attribute was read as its own offset

---
 src/bin_xml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index 6af1767..3616908 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -135,7 +135,7 @@ const int64_t *XML_Param_Description::getInt64Ptr(const XML_Item *X) const
 {
     if (THIS_IS_NULL) return nullptr;
     if (X == nullptr) return nullptr;
-    if (type == XBT_INT64) return reinterpret_cast<const int64_t *>(&data);
+    if (type == XBT_INT64) return reinterpret_cast<const int64_t *>(reinterpret_cast<const char *>(X)+data); // 8 byte value is not inlined
     if (type == XBT_STRING) 
     {
         const char *p = reinterpret_cast<const char *>(X)+data;
-- 
2.43.0


From 35bc3d5448cb24e0d499d3d1bec1f9a44d2ecf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:21 +0000
Subject: [PATCH 061/134] fix: XML_Item::Check ended with the first referenced
 attribute and did not check values, children and counts

---
 src/bin_xml.cpp | 180 ++++++++++++++++++++++++++++--------------------
 1 file changed, 107 insertions(+), 73 deletions(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index 3616908..37f25a3 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -7,6 +7,7 @@
 #include <unistd.h>
 #include <fcntl.h>
 #include <assert.h>
+#include <vector>
 #include <limits.h> // PATH_MAX
 #include <string.h>
 #include <sys/stat.h>
@@ -22,90 +23,123 @@ namespace pklib_xml
 {
 
 
-bool XML_Item::Check(XB_reader *R,bool recursive) 
-// I want to check everything to be 100% sure, data are ok
+struct _XML_Checker
+// Verifies, that no access to checked elements can go out of <begin,end) and that recursion over children will end
 {
-    if (THIS_IS_NULL) return false;  // NULL is not ok
-    if (R == nullptr) return false;
-    if (this < R->doc) return false; // out of space
-    if (reinterpret_cast<const char *>(this)+sizeof(XML_Item) > reinterpret_cast<const char *>(R->doc)+R->size) return false;
-    if (reinterpret_cast<const char *>(this)+length > reinterpret_cast<const char *>(R->doc)+R->size) return false;
-    
-    const char *p = reinterpret_cast<const char*>(this);
-    const char *p0 = p;
-    AA(p);
-//    std::cout << "XML_Item::Check " << (void*)this << "\n";
-    if (p != p0)
+    const XB_reader     &R;
+    const char          *begin,*end;
+    std::vector<bool>   opened,closed;  // elements can be shared, but each is checked only once
+
+    _XML_Checker(const XB_reader &_R,const char *_begin,const char *_end,bool recursive) : R(_R),begin(_begin),end(_end)
     {
-        std::cout << ANSI_RED_BRIGHT "XML_Item " << (void*)this << " is not aligned!" ANSI_RESET_LF;
-        return false;
+        if (!recursive) return;
+        opened.resize((end-begin)/4+1);
+        closed.resize((end-begin)/4+1);
     }
-    
-// name check
-    if (name <= XTNR_LAST) return false;
-    if (name >= R->tag_symbols.count) return false;
-// size check
-    if (sizeof(XML_Item)+paramcount*sizeof(XML_Param_Description)+childcount*sizeof(relative_ptr_t) > (unsigned)length) return false; // not safe to access params or children
-// params check
-    for(int p = 0;p < paramcount;p++)
+
+    bool CheckValue(XML_Binary_Type type,const char *p,const char *limit) // p is aligned place of value
     {
-        XML_Param_Description *PD = getParamByIndex(p);
-        if (PD->name <= XPNR_LAST) return false; // too low
-        if (PD->name >= R->param_symbols.count) return false; // too high
-        if (PD->type < XBT_NULL) return false;
-        if (PD->type >= XBT_LAST) return false;
-    // inline parameters
-        if (PD->type == XBT_NULL) continue;
-        if (PD->type == XBT_INT32) continue;
-        if (PD->type == XBT_FLOAT) continue;
-        if (PD->type == XBT_UNIX_TIME) continue;
-        if (PD->type == XBT_IPv4) continue; 
-    // check link
-        if (PD->data < 0) return false; // reference out of node is not allowed here and yet
-        if (PD->data >= length) return false; // pointer out of limit
-        
+        if (p < begin || p > limit) return false;
+        int64_t space = limit - p;
 
-        switch (PD->type)
+        if (type == XBT_NULL) return true;
+        if (type == XBT_STRING) return memchr(p,0,space) != nullptr;
+        if (XBT_IS_4(type)) return space >= 4;
+        if (XBT_IS_VARSIZE(type))
+        {
+            if (space < (int64_t)sizeof(int32_t)) return false;
+            int32_t size = *reinterpret_cast<const int32_t*>(p);
+            if (size < 0 || size > space - (int64_t)sizeof(int32_t)) return false;
+            return type != XBT_BLOB_STRING || memchr(p+sizeof(int32_t),0,size) != nullptr;
+        }
+        int fixed_size = XBT_FIXEDSIZE(type);
+        return fixed_size > 0 && space >= fixed_size; // other types have no stored form
+    }
+
+    bool CheckElement(XML_Item *X) // without children
+    {
+        const char *x = reinterpret_cast<const char*>(X);
+    // place check
+        if (x < begin || x > end - sizeof(XML_Item)) return false; // out of space
+        if (((x - reinterpret_cast<const char*>(R.doc)) & 3) != 0) return false; // not aligned
+        if (X->length < (int)sizeof(XML_Item) || X->length > end - x) return false;
+    // name check
+        if (X->name <= XTNR_LAST) return false;
+        if (X->name >= R.tag_symbols.count) return false;
+    // size check
+        if (X->paramcount < 0 || X->childcount < 0) return false;
+        int64_t value_offset = sizeof(XML_Item)+(int64_t)X->paramcount*sizeof(XML_Param_Description)+(int64_t)X->childcount*sizeof(relative_ptr_t);
+        if (value_offset >= X->length) return false; // not safe to access params, children or type of value
+    // value check
+        const char *limit = x + X->length;
+        const char *value = x + value_offset;
+        XML_Binary_Type value_type = static_cast<XML_Binary_Type>(*reinterpret_cast<const uint8_t*>(value++));
+        int align = XBT_Align(value_type);
+        if (align == 4) AA(value);
+        else if (align == 8) AA8(value);
+        if (!CheckValue(value_type,value,limit)) return false;
+    // params check
+        for(int p = 0;p < X->paramcount;p++)
+        {
+            XML_Param_Description *PD = X->getParamByIndex(p);
+            if (PD->name <= XPNR_LAST) return false; // too low
+            if (PD->name >= R.param_symbols.count) return false; // too high
+
+            XML_Binary_Type type = static_cast<XML_Binary_Type>(PD->type);
+            if (type == XBT_NULL || XBT_IS_4(type)) continue; // inline parameters
+        // check link
+            if (PD->data < 0) return false; // reference out of node is not allowed here and yet
+            if (PD->data >= X->length) return false; // pointer out of limit
+            align = XBT_Align(type);
+            if (align != 0 && ((intptr_t)(x+PD->data) & (align-1)) != 0) return false;
+            if (!CheckValue(type,x+PD->data,limit)) return false;
+        }
+    // children check - only place, where they begin
+        const relative_ptr_t *children = X->getChildren();
+        for(int i = 0;i < X->childcount;i++)
         {
-            case XBT_STRING:
-                {
-                    int max_len = this->length - PD->data;
-                    int len = strnlen(reinterpret_cast<const char *>(this)+PD->data,max_len);
-                    return len < max_len;
-                }
-            case XBT_INT64:
-                return PD->data+sizeof(int64_t) <= (unsigned)this->length;
-            case XBT_UINT64:
-                return PD->data+sizeof(uint64_t) <= (unsigned)this->length;
-//            case XBT_UNIX_TIME:
-//                return PD->data+sizeof(uint32_t) <= (unsigned)this->length;
-            case XBT_UNIX_TIME64_MSEC:
-                return PD->data+sizeof(uint64_t) <= (unsigned)this->length;
-            case XBT_DOUBLE:
-                return PD->data+sizeof(double) <= (unsigned)this->length;
-            case XBT_SHA1:
-                return PD->data+sizeof(hash192_t) <= (unsigned)this->length;
-            case XBT_GUID:
-                return PD->data+sizeof(GUID_t) <= (unsigned)this->length;
-            case XBT_IPv6:
-                return PD->data+sizeof(IPv6_t) <= (unsigned)this->length;
-            default:
-                std::cerr << "Error: Parameter type " << PD->type << " is not supported now!\n";
-                return false;
+            const int64_t child = x - begin + children[i];
+            if (child < 0 || child > end - begin - (int64_t)sizeof(XML_Item)) return false;
         }
+        return true;
     }
-// TODO: check value
 
+    bool CheckTree(XML_Item *X)
+    {
+        if (!CheckElement(X)) return false;
+        const size_t idx = (reinterpret_cast<const char*>(X) - begin) >> 2;
+        if (closed[idx]) return true;
+        if (opened[idx]) return false; // element inside of itself
+        opened[idx] = true;
+        for(int i = 0;i < X->childcount;i++)
+            if (!CheckTree(X->getChildByIndex(i))) return false;
+        closed[idx] = true;
+        return true;
+    }
+};
 
-    if (recursive)
-        for(int i = 0;i < childcount;i++)
-        {
-            XML_Item *X = getChildByIndex(i);
-            if (X == nullptr) return false;
-            if (!X->Check(R,true)) return false;
+bool XML_Item::Check(XB_reader *R,bool recursive) 
+// I want to check everything to be 100% sure, data are ok
+{
+    if (THIS_IS_NULL) return false;  // NULL is not ok
+    if (R == nullptr) return false;
+
+    const char *doc = reinterpret_cast<const char*>(R->doc);
+    const char *begin = doc;
+    const char *end = doc + R->size;
+    if (this != R->doc)
+    {
+        const char *x = reinterpret_cast<const char*>(this);
+        if (x < doc + R->doc->length)
+            end = doc + R->doc->length; // document
+        else
+        { // appended element stands alone
+            begin = x;
+            if (end - x >= (int)sizeof(XML_Item) && length >= (int)sizeof(XML_Item) && length < end - x) end = x + length;
         }
-            
-    return true;
+    }
+    _XML_Checker checker(*R,begin,end,recursive);
+    return recursive ? checker.CheckTree(this) : checker.CheckElement(this);
 }
 
 //-------------------------------------------------------------------------------------------------
-- 
2.43.0


From f5be213e3717c9d5acfde89656b4b489102bc062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:21 +0000
Subject: [PATCH 062/134] fix: symbol table of .xb with wrong counts was loaded
 and its type count was not initialised

---
 src/bin_xml.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index 37f25a3..a581a1c 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -645,6 +645,7 @@ const char *XML_Param_Description::getString(const XML_Item *X) const
 _XB_symbol_table::_XB_symbol_table()
 {
     count = 0;
+    type_count = 0;
 // these pointers refers to xb content directly
     item_container = nullptr;
     reference_array = nullptr;
@@ -665,14 +666,17 @@ bool _XB_symbol_table::Load(XML_Item *container)
 // or in <param_symbols ...> element
 {
     item_container = container;
-    count = container->getParamByName(XPNR_COUNT)->getInt(container);
-    if (count == INT32_NULL) return false;
-    if (count == 0) return true; // ok, no symbols
+    count = 0;
+    type_count = 0;
+
+    int32_t new_count = container->getParamByName(XPNR_COUNT)->getInt(container);
+    if (new_count == INT32_NULL || new_count < 0) return false;
+    if (new_count == 0) return true; // ok, no symbols
 
     type_count = container->getParamByName(XPNR_TYPE_COUNT)->getInt(container);
     if (type_count == INT32_NULL)
         type_count = 0;
-
+    if (type_count < 0) return false;
     
     int32_t size = -1; // size of whole data block - reference_array & strings
     reference_array = reinterpret_cast<const relative_ptr_t*>(container->getBinary(&size));
@@ -684,11 +688,11 @@ bool _XB_symbol_table::Load(XML_Item *container)
 //    std::cout << "*** Reading symbol table of " << count << " elements with size " << size << " bytes.\n";
     if (reference_array == nullptr) return false;   // count != 0
     
-    type_array = reinterpret_cast<const XML_Binary_Type_Stored*>(reference_array+count);
+    type_array = reinterpret_cast<const XML_Binary_Type_Stored*>(reference_array+new_count);
     const char *A0 = reinterpret_cast<const char*>(type_array+type_count);  // start of string area after last item in reference_array
     const char *A1 = reinterpret_cast<const char*>(reference_array)+size;   // end of string area as begin of binary data + it's size
     if (A0 > A1) return false; // no place for strings and reference_arrays
-    for(int s = 0;s < count;s++)
+    for(int s = 0;s < new_count;s++)
     {
         const char *value = reinterpret_cast<const char*>(container) + reference_array[s];
         if (value < A0) return false;
@@ -697,6 +701,7 @@ bool _XB_symbol_table::Load(XML_Item *container)
         int len = strnlen(value,max_len);
         if (len == max_len) return false; // unterminated string
     }
+    count = new_count; // all symbols are ok
     return true;
 }
 
-- 
2.43.0


From d90f128c8f9622d33f57c11dd7a94659c4f2d95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:21 +0000
Subject: [PATCH 063/134] fix: XB_reader aborted on short or foreign file and
 accepted .xb without document

---
 src/bin_xml.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index a581a1c..fa931bc 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -747,6 +747,7 @@ XB_reader::XB_reader(char *filename)
     this->filename = filename;
     this->size = -1;
     this->fd = -1;
+    this->verbosity = 0;
     
     this->doc = reinterpret_cast<XML_Item*>(MAP_FAILED);
     this->data = nullptr;
@@ -818,8 +819,9 @@ bool XB_reader::Initialize()
         return false;
     }
 
-    size = file_getsize(this->filename);
-    assert(size > sizeof(XML_Item));
+    off_t file_size = file_getsize(this->filename);
+    if (file_size <= (off_t)sizeof(XML_Item)) return false; // not .xb
+    size = file_size;
 
     doc = reinterpret_cast<XML_Item*>(mmap(NULL,size,PROT_READ,MAP_SHARED,fd,0));
     if (doc == MAP_FAILED)
@@ -827,7 +829,7 @@ bool XB_reader::Initialize()
         ERRNO_SHOW(1025,"mmap",filename);
         return false;
     }
-    assert(doc->name == XTNR_META_ROOT);
+    if (doc->name != XTNR_META_ROOT) return false; // not .xb
 
     // check only root element
     if (!doc->Check(this,false)) return false;
@@ -848,7 +850,7 @@ bool XB_reader::Initialize()
 
     data = doc->getChildByName(XTNR_PAYLOAD)->getChildByIndex(0);
 
-    return true;
+    return data != nullptr;
 }
 
 bool XB_reader::Finalize()
-- 
2.43.0


From 6d78f731e417ff0126b24f1425726068e7720202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:21 +0000
Subject: [PATCH 064/134] fix: damaged or not completely written appended
 element crashed or hanged XML_Item::getNextChild

---
 src/bin_xml.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index fa931bc..50caa0d 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -304,6 +304,7 @@ XML_Item *XML_Item::getNextChild(XB_reader &R,int &i) // this method can show ev
         if (X->name != XTNR_ET_TECERA) // OK, standard child
             return X;
     // this is ET_TECERA special tag and will be replaced with jump to next element
+        if (reinterpret_cast<char*>(this) >= reinterpret_cast<char*>(R.doc) + R.doc->length) return nullptr; // appended elements cannot be continued by themselves
         int length = R.doc->length;
         i = -length; // negative value means direct offset
     }
@@ -313,7 +314,7 @@ XML_Item *XML_Item::getNextChild(XB_reader &R,int &i) // this method can show ev
     
     if (offset + (int)sizeof(XML_Item) > (int)R.size) return nullptr; // end of data -> no more can fit
     XML_Item *X = reinterpret_cast<XML_Item*>(reinterpret_cast<char*>(R.doc) + offset);
-    if (offset + X->length > (int)R.size) return nullptr; // something is strange - no whole XML_Item is stored in file        
+    if (!X->Check(&R,true)) return nullptr; // something is strange - no whole XML_Item is stored in file        
     // must find the first extended record
     offset += X->length;
     AA(offset); // align!
-- 
2.43.0


From 1859828155c6988d0a2b3bc1a4d43c24e5e848bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:10 +0000
Subject: [PATCH 065/134] fix: node that could not be stored to .xb left wrong
 references instead of failed conversion

---
 include/binary_xml/bin_xml_creator.h |  1 +
 src/bin_xml_creator.cpp              | 37 +++++++++++++++++++++++++---
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/include/binary_xml/bin_xml_creator.h b/include/binary_xml/bin_xml_creator.h
index f085f5b..0b2b1e9 100644
--- a/include/binary_xml/bin_xml_creator.h
+++ b/include/binary_xml/bin_xml_creator.h
@@ -101,6 +101,7 @@ protected:
     int                     symbol_count[SYMBOL_TABLES_COUNT];
 // incremental addition
     int     dst_file;
+    bool    node_failed;    // some node could not be stored
 public:
     Bin_xml_creator(const char *src,const char *dst,Bin_xml_creator_target target = XBTARGET_XB);
     Bin_xml_creator(Bin_src_plugin *src,const char *dst,Bin_xml_creator_target target = XBTARGET_XB);
diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 6a33058..1766e0c 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -261,6 +261,7 @@ Bin_xml_creator::Bin_xml_creator(const char *src,const char *dst,Bin_xml_creator
     else
         this->dst = AllocFilenameChangeExt(dst,".xbw");
     this->dst_file = -1; 
+    this->node_failed = false;
     this->dst_file_size = -1;
     
     this->data = nullptr;
@@ -288,6 +289,7 @@ Bin_xml_creator::Bin_xml_creator(Bin_src_plugin *src,const char *dst,Bin_xml_cre
     else
         this->dst = AllocFilenameChangeExt(dst,".xbw");
     this->dst_file = -1; 
+    this->node_failed = false;
     this->dst_file_size = -1;
     this->data = nullptr;
     this->data_size_allocated = 0;
@@ -312,6 +314,7 @@ Bin_xml_creator::Bin_xml_creator(Bin_src_plugin *src,Bin_xml_creator_target targ
     else
         this->dst = AllocFilenameChangeExt(dst,".xbw");
     this->dst_file = -1; 
+    this->node_failed = false;
     this->dst_file_size = -1;
     this->data = nullptr;
     this->data_size_allocated = 0;
@@ -413,7 +416,9 @@ bool Bin_xml_creator::Make_xb()
         std::cerr << "error: " << strerror(errno) << " while malloc(" << data_size_allocated << ")\n";
         return false;
     }
+    this->node_failed = false;
     this->dst_file_size = FillData();
+    if (this->node_failed) return false; // already reported
 #ifndef NDEBUG
     // 4. write intermediate uncompressed results to file------
     {
@@ -863,7 +868,13 @@ const char *Bin_xml_creator::WriteNode(char **_wp,void *element)
     
 //std::cout << /*(void*)(X)*/ (_x-data) << " " << element->name;
 
-    X->name = Find(src->getNodeName(element),SYMBOL_TABLE_NODES);
+    const char *node_name = src->getNodeName(element);
+    X->name = Find(node_name,SYMBOL_TABLE_NODES);
+    if (X->name == XTNR_NULL && node_name != nullptr)
+    {
+        LOG_ERROR("[A1208] Tag '%s' is not in symbol table",node_name);
+        node_failed = true;
+    }
 
     X->paramcount = 0;  // count - how many symbols are stored here?
     if (!src->ForAllBinParams(XCountBinParamsEvent,element,X))
@@ -894,7 +905,11 @@ const char *Bin_xml_creator::WriteNode(char **_wp,void *element)
         else
         {
             *((*_wp)++) = type;
-            ASSERT_NO_RET_NULL(1201,XBT_Copy(bin_value,type,size,_wp,data+data_size_allocated)); // copy of value
+            if (!XBT_Copy(bin_value,type,size,_wp,data+data_size_allocated)) // copy of value
+            {
+                LOG_ERROR("[A1201] XBT_Copy(...,%s,%d,...) failed",XML_BINARY_TYPE_NAMES[type],size);
+                node_failed = true;
+            }
         }
     }
     else
@@ -909,7 +924,7 @@ const char *Bin_xml_creator::WriteNode(char **_wp,void *element)
             if (!XBT_FromString(value,type,_wp,data+data_size_allocated))
             {   
                 LOG_ERROR("[A1202] XBT_FromString(%s,%s,...) failed",value,XML_BINARY_TYPE_NAMES[type]);
-                return nullptr;
+                node_failed = true;
             }
         }
     }
@@ -945,6 +960,11 @@ void Bin_xml_creator::XStoreBinParamsEvent(const char *param_name,int param_id,X
 //    int name_id = 
         xstore_data->params->name = 
         xstore_data->creator->Find(param_name,SYMBOL_TABLE_PARAMS);
+    if (xstore_data->params->name == XPNR_NULL)
+    {
+        LOG_ERROR("[A1209] Attribute '%s' is not in symbol table",param_name);
+        xstore_data->creator->node_failed = true;
+    }
 
     if (param_value == nullptr || type == XBT_NULL)
     {
@@ -987,7 +1007,11 @@ void Bin_xml_creator::XStoreBinParamsEvent(const char *param_name,int param_id,X
         LOG("-- Storing %s : time64 %s to pointer %p -> %p-%p ... offset=%d",
             param_name,XBT_ToString(type,param_value),param_value,*xstore_data->_wp,xstore_data->_x,xstore_data->params->data);
 */
-    ASSERT_NO_DO_NOTHING(1206,XBT_Copy(param_value,type,content_size,xstore_data->_wp,xstore_data->creator->data+xstore_data->creator->data_size_allocated));
+    if (!XBT_Copy(param_value,type,content_size,xstore_data->_wp,xstore_data->creator->data+xstore_data->creator->data_size_allocated))
+    {
+        LOG_ERROR("[A1206] XBT_Copy(...,%s,%d,...) of attribute '%s' failed",XML_BINARY_TYPE_NAMES[type],content_size,param_name);
+        xstore_data->creator->node_failed = true;
+    }
     xstore_data->params++;
 }
 
@@ -997,6 +1021,11 @@ void Bin_xml_creator::XStoreParamsEvent(const char *param_name,const char *param
     int name_id = 
         xstore_data->params->name = 
             xstore_data->creator->Find(param_name,SYMBOL_TABLE_PARAMS);
+    if (name_id == XPNR_NULL)
+    {
+        LOG_ERROR("[A1210] Attribute '%s' is not in symbol table",param_name);
+        xstore_data->creator->node_failed = true;
+    }
 
     if (param_value == nullptr || *param_value == '\0')
     {
-- 
2.43.0


From de13cd5c68cf3d390b0717e532a99965f36ad671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:10 +0000
Subject: [PATCH 066/134] fix: conversion to .xb aborted when file could not be
 written at once

---
 src/bin_xml_creator.cpp | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 1766e0c..7d58a65 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -361,6 +361,20 @@ Bin_xml_creator::~Bin_xml_creator()
 
 //-------------------------------------------------------------------------------------------------
 
+static bool write_all(int file,const char *src,int64_t size)
+// one write() can store less than requested
+{
+    while (size > 0)
+    {
+        ssize_t written = write(file,src,size);
+        if (written < 0 && errno == EINTR) continue;
+        if (written <= 0) return false;
+        src += written;
+        size -= written;
+    }
+    return true;
+}
+
 bool Bin_xml_creator::DoAll()
 {
     ASSERT_NO_RET_FALSE(2049,dst != nullptr);
@@ -429,10 +443,11 @@ bool Bin_xml_creator::Make_xb()
             return false;
         }
         AA(dst_file_size);
-        int written = write(dst_file,data,dst_file_size);
-        assert(written == dst_file_size);
-
+        bool written = write_all(dst_file,data,dst_file_size);
+        if (!written)
+            std::cerr << "error: " << strerror(errno) << " while writing " << dst_file_size << "B to " << dst << "\n";
         close(dst_file);
+        if (!written) return false;
     }
 #endif
 
@@ -447,14 +462,12 @@ bool Bin_xml_creator::Make_xb()
         return false;
     }
     AA(dst_file_size);
-    int written = 
-        write(dst_file,data,dst_file_size);
-    assert(written == dst_file_size);
-
+    bool written = write_all(dst_file,data,dst_file_size);
+    if (!written)
+        std::cerr << "error: " << strerror(errno) << " while writing " << dst_file_size << "B to " << dst << "\n";
     close(dst_file);
 
-
-    return (written == dst_file_size);
+    return written;
 }
 
 bool Bin_xml_creator::CopySymbolTable() 
-- 
2.43.0


From e7aae92a4c83ffa142cc3cc1fc3920e349498738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:46 +0000
Subject: [PATCH 067/134] fix: repeated Bin_xml_creator::DoAll worked with
 symbol tables of the previous conversion

---
 include/binary_xml/bin_xml_creator.h |  1 +
 src/bin_xml_creator.cpp              | 31 +++++++++++++++++-----------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/include/binary_xml/bin_xml_creator.h b/include/binary_xml/bin_xml_creator.h
index 0b2b1e9..d869677 100644
--- a/include/binary_xml/bin_xml_creator.h
+++ b/include/binary_xml/bin_xml_creator.h
@@ -111,6 +111,7 @@ public:
     bool DoAll();
        bool Make_xb();
        bool Make_xbw();
+        void FreeSymbolTable();
         bool CopySymbolTable();
         bool MakeSymbolTable();
     bool Append(void *element);
diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 7d58a65..6514984 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -335,18 +335,7 @@ Bin_xml_creator::~Bin_xml_creator()
         src = nullptr;
         src_allocated = false;
     }
-    for(int t = 0;t < SYMBOL_TABLES_COUNT;t++)
-    {
-        for(int i = 0;i < symbol_count[t];i++)
-        {
-            free((void*)symbol_table[t][i]);
-        }
-        free(symbol_table[t]);
-        free(symbol_table_types[t]);
-        symbol_table[t] = nullptr;
-        symbol_table_types[t] = nullptr;
-        symbol_count[t] = 0;
-    }
+    FreeSymbolTable();
     if (dst_file != -1)
     { // dst_file can be closed in destructor
         close(dst_file);
@@ -400,6 +389,7 @@ bool Bin_xml_creator::Make_xb()
     // total_node_count, total_param_count
     src->ForAllChildrenRecursively(FirstPassEvent,root,(void*)this,0);
 
+    FreeSymbolTable(); // from previous conversion
     CopySymbolTable() || MakeSymbolTable();
     // 2. show stats---------------------------------
 
@@ -470,6 +460,22 @@ bool Bin_xml_creator::Make_xb()
     return written;
 }
 
+void Bin_xml_creator::FreeSymbolTable()
+{
+    for(int t = 0;t < SYMBOL_TABLES_COUNT;t++)
+    {
+        for(int i = 0;i < symbol_count[t];i++)
+        {
+            free((void*)symbol_table[t][i]);
+        }
+        free(symbol_table[t]);
+        free(symbol_table_types[t]);
+        symbol_table[t] = nullptr;
+        symbol_table_types[t] = nullptr;
+        symbol_count[t] = 0;
+    }
+}
+
 bool Bin_xml_creator::CopySymbolTable() 
 {
     // has special function for symbol table?
@@ -661,6 +667,7 @@ bool Bin_xml_creator::Make_xbw()
     // total_node_count, total_param_count
     src->ForAllChildrenRecursively(FirstPassEvent,root,(void*)this,0);
 
+    FreeSymbolTable(); // from previous conversion
     CopySymbolTable() || MakeSymbolTable();
     // 2. show stats---------------------------------
     // I have completed 2x2 arrays
-- 
2.43.0


From e85509dba8ba7fd44821a9edb95cb72cb2f43488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:00 +0000
Subject: [PATCH 068/134] fix: appending to .xb wrote behind the buffer and
 left partial or unnamed elements

---
 src/bin_xml_creator.cpp | 57 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 53 insertions(+), 4 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 6514984..10922fd 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -531,12 +531,16 @@ bool Bin_xml_creator::MakeSymbolTable()
 
 bool Bin_xml_creator::Append(void *element)
 {
+    ASSERT_NO_RET_FALSE(1211,element != nullptr);
+    ASSERT_NO_RET_FALSE(1212,target == XBTARGET_XB);
+    ASSERT_NO_RET_FALSE(1213,data != nullptr); // symbol tables of document are needed
     if (dst_file == -1)
     {
         dst_file = open(dst,O_WRONLY | O_APPEND); // file must already exist
         if (dst_file < 0)
         {
             std::cerr << "error: " << strerror(errno) << " while appending " << dst << "\n";
+            dst_file = -1;
             return false;
         }
     }
@@ -551,21 +555,61 @@ bool Bin_xml_creator::Append(void *element)
     }
     int file_align = file_info.st_size & 0xf; // use alignemenet like length of file
 
+// appended element can be bigger than document
+    this->total_node_count = 0;
+    this->total_param_count = 0;
+    this->total_text_size = 0;
+    src->ForAllChildrenRecursively(FirstPassEvent,element,(void*)this,0);
+    int64_t size_needed = 1024 + (int64_t)total_node_count*64 + (int64_t)total_param_count*32 + total_text_size;
+    if (size_needed + file_info.st_size > INT32_MAX)
+    {
+        std::cerr << "error: " << dst << " would be too big, references are limited to 2GB\n";
+        return false;
+    }
+    if (size_needed > data_size_allocated)
+    {
+        char *new_data = reinterpret_cast<char *>(malloc(size_needed));
+        if (new_data == nullptr)
+        {
+            std::cerr << "error: " << strerror(errno) << " while malloc(" << size_needed << ")\n";
+            return false;
+        }
+        free(data);
+        data = new_data;
+        data_size_allocated = size_needed;
+    }
+    memset(data,0,size_needed); // paddings are written to file
+
     char *wp = data+file_align;
     AA(wp);
+    this->node_failed = false;
     this->WriteNode(&wp,element);
+    if (this->node_failed) return false; // already reported
     
     int size = wp - data - file_align;
-    int written = write(dst_file,data+file_align,size);
-    if (written != size)
+    if (!write_all(dst_file,data+file_align,size))
     {
             std::cerr << "error: " << strerror(errno) << " cannot append " << size << "B\n";
+            if (ftruncate(dst_file,file_info.st_size) < 0) // part of element would hide everything appended later
+                ERRNO_SHOW(1214,"ftruncate",dst);
             return false;
     }
     
     return true;
 }
 
+static int64_t BinValueSize(XML_Binary_Type type,const char *value)
+{
+    if (value == nullptr || XBT_IS_4(type)) return 0;
+    if (type == XBT_STRING) return strlen(value)+1;
+    if (XBT_IS_VARSIZE(type))
+    {
+        AA(value);
+        return sizeof(int32_t) + *reinterpret_cast<const int32_t*>(value);
+    }
+    return XBT_FIXEDSIZE(type);
+}
+
 void Bin_xml_creator::FirstPassEvent(void *element,void *userdata,int deep)
 {
     assert(element != nullptr);
@@ -576,8 +620,12 @@ void Bin_xml_creator::FirstPassEvent(void *element,void *userdata,int deep)
 
     XML_Binary_Type type = XBT_UNKNOWN;
     int size = 0;
-    _this->src->getNodeBinValue(element,type,size);
-    if (type != XBT_UNKNOWN) return; // stored in the same form as in source file
+    const char *bin_value = _this->src->getNodeBinValue(element,type,size);
+    if (type != XBT_UNKNOWN) // stored in the same form as in source file
+    {
+        _this->total_text_size += BinValueSize(type,bin_value);
+        return;
+    }
     const char *value = _this->src->getNodeValue(element);
     if (value != nullptr) _this->total_text_size += strlen(value);
     
@@ -587,6 +635,7 @@ void Bin_xml_creator::FirstPassBinParamEvent(const char *param_name,int param_id
 {
     Bin_xml_creator *_this = reinterpret_cast<Bin_xml_creator*>(userdata);
     _this->total_param_count++;
+    _this->total_text_size += BinValueSize(type,param_value);
 }
 
 void Bin_xml_creator::FirstPassParamEvent(const char *param_name,const char *param_value,void *element,void *userdata)
-- 
2.43.0


From b790831d52eec7433d89c7ec06bd73859e1dd9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:02 +0000
Subject: [PATCH 069/134] fix: value of not implemented type IPv6 in damaged
 .xb aborted its reader

---
 src/bin_xml.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index 50caa0d..6a412a4 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -52,6 +52,7 @@ struct _XML_Checker
             if (size < 0 || size > space - (int64_t)sizeof(int32_t)) return false;
             return type != XBT_BLOB_STRING || memchr(p+sizeof(int32_t),0,size) != nullptr;
         }
+        if (type == XBT_IPv6) return false; // not implemented yet
         int fixed_size = XBT_FIXEDSIZE(type);
         return fixed_size > 0 && space >= fixed_size; // other types have no stored form
     }
-- 
2.43.0


From cf365bd3fd8158ccb5eaade56f9625fd551f8b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 070/134] fix: names registered after import of an empty symbol
 table got more ids

---
 src/bin_write_plugin.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 157f5c4..c99821f 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2253,33 +2253,32 @@ bool BW_plugin::alterAttr(int16_t id,XML_Binary_Type type)
 }
 void BW_plugin::importTags(XB_reader *src)
 {
+    if (src == nullptr) return; // OK
+
     if (pool->tags.max_id == -1) pool->tags.flags |= BW_SYMBOLS_FAST_REG;
     else pool->tags.flags &= ~BW_SYMBOLS_FAST_REG;
 
-    if (src == nullptr) return; // OK
-
     for(int i = 0;i < src->tag_symbols.count;i++)
         registerTag(
                 src->tag_symbols.getSymbol(i),
                 static_cast<XML_Binary_Type>(src->tag_symbols.getType(i)));
 
-    if (pool->tags.max_id == -1) pool->tags.flags |= BW_SYMBOLS_FAST_REG;
-    else pool->tags.flags &= ~BW_SYMBOLS_FAST_REG;
+    pool->tags.flags &= ~BW_SYMBOLS_FAST_REG; // names registered later can repeat
 }
 
 void BW_plugin::importParams(XB_reader *src)
 {
+    if (src == nullptr) return; // OK
+
     if (pool->params.max_id == -1) pool->params.flags |= BW_SYMBOLS_FAST_REG;
     else pool->params.flags &= ~BW_SYMBOLS_FAST_REG;
-    if (src == nullptr) return; // OK
 
     for(int i = 0;i < src->param_symbols.count;i++)
         registerParam(src->param_symbols.
             getSymbol(i),
             static_cast<XML_Binary_Type>(src->param_symbols.getType(i)));
 
-    if (pool->params.max_id == -1) pool->params.flags |= BW_SYMBOLS_FAST_REG;
-    else pool->params.flags &= ~BW_SYMBOLS_FAST_REG;
+    pool->params.flags &= ~BW_SYMBOLS_FAST_REG; // names registered later can repeat
 }
 
 //-------------------------------------------------------------------------------------------------
-- 
2.43.0


From 78196aaf749dd47861b7af60e6b0808517daf5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:30 +0000
Subject: [PATCH 071/134] fix: CopyPath took an element of another type with
 the same keys

---
 src/bin_write_plugin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index c99821f..e7b2371 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2754,7 +2754,7 @@ BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Ite
             BW_element *child  = BWE(dst->first_child);
             for(;;)
             {
-                if (child->EqualKeys(xb,element))
+                if (child->identification == element->name && child->EqualKeys(xb,element))
                 { // Found!
                     element2 = child;
                     break;
-- 
2.43.0


From 99d384aace17a98598ddb349e24a28c60685dced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:43 +0000
Subject: [PATCH 072/134] fix: CopyPath lost value of the copied element

---
 include/binary_xml/bin_write_plugin.h |  1 +
 src/bin_write_plugin.cpp              | 26 +++++++++++++++++++++-----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/include/binary_xml/bin_write_plugin.h b/include/binary_xml/bin_write_plugin.h
index 6ab3b3c..123ea88 100644
--- a/include/binary_xml/bin_write_plugin.h
+++ b/include/binary_xml/bin_write_plugin.h
@@ -330,6 +330,7 @@ public: // tag creation
     BW_element*     CopyPathOnly(XB_reader &xb,XML_Item *root,...);
     BW_element*     CopyAll(BW_element *dst,XB_reader &xb,XML_Item *src);
 private:
+    BW_element*     pathTag(XML_Item *src,bool with_value);
     BW_element*     CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Item *root,va_list ap);
 public: // Bin_src_plugin
     virtual void *getRoot();
diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index e7b2371..1665539 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2686,6 +2686,14 @@ BW_element* BW_plugin::CopyPathOnly(XB_reader &xb,XML_Item *root,...)
     return result;
 }
 
+BW_element* BW_plugin::pathTag(XML_Item *src,bool with_value)
+// only the whole copied element has value, elements on path have keys only
+{
+    if (!with_value) return tag(src->name);
+    XML_Binary_Data_Ref data = src->getData();
+    return tagData(src->name,data);
+}
+
 BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Item *root,va_list ap)
 {
 // source root
@@ -2695,9 +2703,12 @@ BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Ite
 // destination root
     BW_element* root2;
     bool copy;
+    XML_Item *element = va_arg(ap,XML_Item *); // next step of path, there is no one after the last element
     if (pool->root == 0) // no root element -> create one
     {
-        setRoot(root2 = tag(root->name));
+        root2 = pathTag(root,copy_whole_last_node && element == nullptr);
+        ASSERT_NO_RET_NULL(10451,root2 != nullptr);
+        setRoot(root2);
         copy = true;
     }
     else
@@ -2710,7 +2721,9 @@ BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Ite
             if (root2->first_child == 0)
             {
                 // content encapsulated in <transaction>
-                root2->first_child = tag(root->name)->offset;
+                BW_element *content = pathTag(root,copy_whole_last_node && element == nullptr);
+                ASSERT_NO_RET_NULL(10452,content != nullptr);
+                root2->first_child = content->offset;
                 copy = true;
             }
             root2 = BWE(root2->first_child);
@@ -2732,7 +2745,6 @@ BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Ite
 
     for(;;)
     {
-        XML_Item *element = va_arg(ap,XML_Item *);
         if (element == nullptr) 
         {
             // Recursive copy of last element
@@ -2763,14 +2775,17 @@ BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Ite
                 child = BWE(child->next);
             }
         }
+        src = element;
+        element = va_arg(ap,XML_Item *);
         // 2. Create if missing
         if (element2 == nullptr)
         {
-            dst->add(element2 = tag(element->name));
+            element2 = pathTag(src,copy_whole_last_node && element == nullptr);
+            ASSERT_NO_RET_NULL(10453,element2 != nullptr);
+            dst->add(element2);
             copy = true;
         }
         else copy = false;
-        src = element;
         dst = element2;
     }
 //-----------
@@ -2797,6 +2812,7 @@ BW_element*     BW_plugin::CopyAll(BW_element *dst,XB_reader &xb,XML_Item *src)
         XML_Item *child = src->getChildByIndex(i);
         XML_Binary_Data_Ref data = child->getData();
         BW_element *child2 = CopyAll(tagData(child->name,data),xb,child);
+        ASSERT_NO_RET_NULL(10454,child2 != nullptr);
         dst->add(child2);
     }
     return dst;
-- 
2.43.0


From 14e256d3c3fc8479f236fcd618867b8278842d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:43 +0000
Subject: [PATCH 073/134] fix: elements with more than 16 keys were never equal

---
 src/bin_write_plugin.cpp | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 1665539..7fdf120 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1194,10 +1194,6 @@ bool         BW_element::EqualKeys(XB_reader &xb,XML_Item *src)
 {
     if (src == nullptr) return false;
 
-    // I must remember all processed keys
-    int checked_params[MAX_PARAM_KEYS];
-    int checked_params_count = 0;
-
     // O(n*n)
     for(int p = 0;p < src->paramcount;p++)
     {
@@ -1226,9 +1222,6 @@ bool         BW_element::EqualKeys(XB_reader &xb,XML_Item *src)
             if (child->next == first_attribute) return false; // not found key
             child = BWE(child->next);
         }
-
-        ASSERT_NO_RET_FALSE(1990,checked_params_count < MAX_PARAM_KEYS);
-        checked_params[checked_params_count++] = pd->name;
     }
 // BW_element pass
     if (first_attribute != 0)
@@ -1238,10 +1231,8 @@ bool         BW_element::EqualKeys(XB_reader &xb,XML_Item *src)
         {
             if (xb.ParamIsKey(child->identification))
             {
-                bool ok = false;
-                for(int i = 0;!ok && i < checked_params_count;i++)
-                    ok = (child->identification == checked_params[i]);
-                if (!ok) return false; // not found
+                if (src->getParamByName(static_cast<XML_Param_Names>(child->identification)) == nullptr)
+                    return false; // not found
             }
             if (child->next == first_attribute) break;
             child = BWE(child->next);
-- 
2.43.0


From 075bff98b423ebe2a56df77db40682812baaf857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:08 +0000
Subject: [PATCH 074/134] fix: findChildByParam did not find values of variable
 size

---
 src/bin_write_plugin.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 7fdf120..ad13b09 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -30,7 +30,6 @@
     #define MAP_NONBLOCK 0
 #endif
 
-#define MAX_PARAM_KEYS 16   // good number of keys is 1, 3 is possible
 
 namespace pklib_xml {
 
@@ -1127,8 +1126,8 @@ BW_element  *BW_element::findChildByParam(int16_t tag_id,int16_t attr_id,XML_Bin
                     if (attr->identification == attr_id) // ok, now I will know!
                     {
                     // I have value_type, data & data_size to compare with ...
-                        int cmp = XBT_Compare(static_cast<XML_Binary_Type>(attr->value_type),reinterpret_cast<void*>(attr+1),
-                                                XBT_Size2(static_cast<XML_Binary_Type>(attr->value_type),0),
+                        XML_Binary_Data_Ref attr_data = attr->getData();
+                        int cmp = XBT_Compare(attr_data.type,attr_data.data,attr_data.size,
                                               value_type,data,data_size);
                         if (cmp == 0)
                             return child;
-- 
2.43.0


From d20a93b362c13390a8d5f9689bec42f418fb8795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:08 +0000
Subject: [PATCH 075/134] fix: BLOB_STRING values were compared by allocated
 size, equal BLOB values were not equal

---
 src/bin_xml_types.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index a362926..aa1ba33 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -405,7 +405,8 @@ int XBT_Compare(XML_Binary_Type A_type,const void *A_value,int A_size,XML_Binary
             case XBT_STRING:
                                 return strcmp(reinterpret_cast<const char *>(A_value),reinterpret_cast<const char *>(B_value));
             case XBT_BLOB_STRING:
-                                return strcmp(reinterpret_cast<const char *>(A_value),reinterpret_cast<const char *>(B_value));
+                                return strcmp(reinterpret_cast<const char *>(A_value)+4,reinterpret_cast<const char *>(B_value)+4); // after allocated size
+            case XBT_BLOB:
             case XBT_HEX:
             case XBT_GUID:
             case XBT_SHA1:
-- 
2.43.0


From e3d3ce4828f99ce3eddb2a1b04ba9b63ce5f7b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:35 +0000
Subject: [PATCH 076/134] fix: malformed JSON crashed conversion

---
 src/bin_json_plugin.cpp | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/bin_json_plugin.cpp b/src/bin_json_plugin.cpp
index 8bc538b..e9393b0 100644
--- a/src/bin_json_plugin.cpp
+++ b/src/bin_json_plugin.cpp
@@ -13,31 +13,47 @@
 namespace pklib_xml {
 
 
-static int jsmn_prepare_total_size(jsmntok_t *tokens,int idx)
+static int jsmn_prepare_total_size(jsmntok_t *tokens,int num_tokens,int idx,int deep = 0)
 // will fill my extension of jmntok_t - total_size
+// returns 0 when tokens are not well formed - jsmn parser accepts {"a"}, {1:2}, ["a":1], {"a":1 2}, ....
 {
+    if (idx >= num_tokens) return 0;
+    if (deep > XML_MAX_DEEP)
+    {
+        std::cerr << "jsmn_prepare_total_size: too deep at element " << idx << "\n";
+        return 0;
+    }
     int total_size = 1;
 	switch (tokens[idx].type)
 	{
 		case JSMN_STRING:
 		case JSMN_PRIMITIVE:
+			if (tokens[idx].size != 0) return 0; // only name has value
 			break;
 		case JSMN_OBJECT:
 			for(int i = tokens[idx].size;i > 0;i--)
 			{
-				total_size += jsmn_prepare_total_size(tokens,idx+total_size);
-				total_size += jsmn_prepare_total_size(tokens,idx+total_size);
+				jsmntok_t *name = &tokens[idx+total_size];
+				if (idx+total_size >= num_tokens || name->type != JSMN_STRING || name->size != 1) return 0; // name must be string with 1 value
+				name->total_size = 1;
+				total_size++;
+
+				int size = jsmn_prepare_total_size(tokens,num_tokens,idx+total_size,deep+1);
+				if (size == 0) return 0;
+				total_size += size;
 			}
 			break;
 		case JSMN_ARRAY:
 			for(int i = tokens[idx].size;i > 0;i--)
 			{
-				total_size += jsmn_prepare_total_size(tokens,idx+total_size);
+				int size = jsmn_prepare_total_size(tokens,num_tokens,idx+total_size,deep+1);
+				if (size == 0) return 0;
+				total_size += size;
 			}
 			break;
 		default:
 			std::cerr << "jsmn_prepare_total_size: Unknown type " << tokens[idx].type << " at element " << idx << "\n";
-			_exit(1); // ERROR
+			return 0;
 	}
     return tokens[idx].total_size = total_size;
 }
@@ -112,6 +128,11 @@ bool Bin_json_plugin::Initialize()
 	num_tokens0 = jsmn_parse(&JP,source,file_size,nullptr,0);
 	std::cout << " ... " << num_tokens0 << " tokens";
 
+	if (num_tokens0 <= 0) // error or no content
+	{
+		std::cerr << "error: could not parse file " << filename << "\n";
+		return false;
+	}
 	tokens = new jsmntok_t[num_tokens0];
 	assert(tokens != nullptr);
 
@@ -144,7 +165,7 @@ bool Bin_json_plugin::Initialize()
 
 	// 4. json filling total_size
 //	std::cout << "prepare total_size ... " << (void*)tokens << "\n" << std::flush;
-	int total_size = jsmn_prepare_total_size(tokens,0);
+	int total_size = jsmn_prepare_total_size(tokens,num_tokens0,0);
 	if (total_size != num_tokens0) 
 	{
 		std::cerr << ANSI_RED_BRIGHT "Error: jsmn_prepare_total_size() ---> " << total_size << " != " << num_tokens0 << ANSI_RESET_LF;
-- 
2.43.0


From 42a75249965c494c0f24a53fd66901f65954de5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:35 +0000
Subject: [PATCH 077/134] fix: JSON conversion lost file descriptor and could
 not be repeated

---
 include/binary_xml/bin_json_plugin.h |  2 ++
 src/bin_json_plugin.cpp              | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/binary_xml/bin_json_plugin.h b/include/binary_xml/bin_json_plugin.h
index 746ca9f..81cd383 100644
--- a/include/binary_xml/bin_json_plugin.h
+++ b/include/binary_xml/bin_json_plugin.h
@@ -10,6 +10,7 @@ class Bin_json_plugin : public Bin_src_plugin // interface for json input format
 protected:
 	int		fd;
 	const char	*source;
+	int64_t		source_size;
 	int		num_tokens0;
 	int		num_tokens1;
 	int		max_str_len;
@@ -18,6 +19,7 @@ protected:
 public:
 	Bin_json_plugin(const char *filename,Bin_xml_creator *bin_xml_creator);
 	virtual ~Bin_json_plugin();
+	void Close();
 	virtual bool Initialize();
 	
 	virtual void *getRoot();
diff --git a/src/bin_json_plugin.cpp b/src/bin_json_plugin.cpp
index e9393b0..b344a5d 100644
--- a/src/bin_json_plugin.cpp
+++ b/src/bin_json_plugin.cpp
@@ -77,10 +77,16 @@ Bin_json_plugin::Bin_json_plugin(const char *filename,Bin_xml_creator *bin_xml_c
 	this->num_tokens1 = -1;	
 	this->tokens = nullptr;
 	this->max_str_len = 0;
+	this->source_size = 0;
 	this->last_str = nullptr;
 }
 
 Bin_json_plugin::~Bin_json_plugin()
+{
+	Close();
+}
+
+void Bin_json_plugin::Close()
 {
 	if (tokens != nullptr)
 	{
@@ -94,25 +100,30 @@ Bin_json_plugin::~Bin_json_plugin()
 	}
 
 
-	if (source != MAP_FAILED && munmap(const_cast<char *>(source),file_size) == -1)
+	if (source != MAP_FAILED && munmap(const_cast<char *>(source),source_size) == -1)
 		ERRNO_SHOW(1001,"munmap",filename);
+	source = reinterpret_cast<const char*>(MAP_FAILED);
 
 	if (fd != -1 && close(fd) == -1)
 		ERRNO_SHOW(1002,"close",filename);
+	fd = -1;
+	max_str_len = 0;
 }
 
 bool Bin_json_plugin::Initialize()
 {
+	Close(); // from previous conversion
 	if (!Bin_src_plugin::Initialize()) return false;
 
 	// 1. open file & mmap	
 	std::cout << "1 open & mmap ...\n";
-	int fd = open(filename,O_RDONLY);
+	fd = open(filename,O_RDONLY);
 	if (fd == -1)
 	{
 		ERRNO_SHOW(1003,"open",filename);
 		return false;
 	}
+	source_size = file_size;
 	source = reinterpret_cast<const char *>(mmap(nullptr,file_size,PROT_READ,MAP_PRIVATE,fd,0));
 	if (source == MAP_FAILED)
 	{
-- 
2.43.0


From ed747ac29f21c6bcddc3c16d404bc538e6a4cf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:35 +0000
Subject: [PATCH 078/134] fix: JSON names were overwritten by values of the
 same element

---
 include/binary_xml/bin_json_plugin.h |  3 +-
 src/bin_json_plugin.cpp              | 45 ++++++++++++++++------------
 2 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/include/binary_xml/bin_json_plugin.h b/include/binary_xml/bin_json_plugin.h
index 81cd383..4101963 100644
--- a/include/binary_xml/bin_json_plugin.h
+++ b/include/binary_xml/bin_json_plugin.h
@@ -14,7 +14,8 @@ protected:
 	int		num_tokens0;
 	int		num_tokens1;
 	int		max_str_len;
-	char		*last_str;
+	char		*last_str;	// value
+	char		*last_name;	// is valid together with value
 	jsmntok_t 	*tokens;
 public:
 	Bin_json_plugin(const char *filename,Bin_xml_creator *bin_xml_creator);
diff --git a/src/bin_json_plugin.cpp b/src/bin_json_plugin.cpp
index b344a5d..bff5dc6 100644
--- a/src/bin_json_plugin.cpp
+++ b/src/bin_json_plugin.cpp
@@ -79,6 +79,7 @@ Bin_json_plugin::Bin_json_plugin(const char *filename,Bin_xml_creator *bin_xml_c
 	this->max_str_len = 0;
 	this->source_size = 0;
 	this->last_str = nullptr;
+	this->last_name = nullptr;
 }
 
 Bin_json_plugin::~Bin_json_plugin()
@@ -98,6 +99,11 @@ void Bin_json_plugin::Close()
 		delete [] last_str;
 		last_str = nullptr;
 	}
+	if (last_name != nullptr)
+	{
+		delete [] last_name;
+		last_name = nullptr;
+	}
 
 
 	if (source != MAP_FAILED && munmap(const_cast<char *>(source),source_size) == -1)
@@ -192,7 +198,8 @@ bool Bin_json_plugin::Initialize()
 		if (len > max_str_len) max_str_len = len;
 	}
 
-	last_str = new char[max_str_len+1+4];	// possible adding "Item"
+	last_str = new char[max_str_len+1];
+	last_name = new char[max_str_len+1+4];	// possible adding "Item"
 	last_str[max_str_len] = '\0';
 
 	return true;
@@ -225,32 +232,32 @@ const char *Bin_json_plugin::getNodeName(void *element)
 			assert(P2->start >= 0 && P2->start < file_size);
 			assert(P2->end > 0 && P2->end <= file_size);
 			int len = P2->end - P2->start;
-			strncpy(last_str,source + P2->start,len);
+			strncpy(last_name,source + P2->start,len);
 			
-			last_str[len] = 0;
-			if (last_str[len-1] == 's')
+			last_name[len] = 0;
+			if (last_name[len-1] == 's')
 			{
-				last_str[len-1] = '\0';
+				last_name[len-1] = '\0';
 			}
 			else if (len > 4 
-				&& last_str[len-4] == 'L'
-				&& last_str[len-3] == 'i'
-				&& last_str[len-2] == 's'
-				&& last_str[len-1] == 't')
+				&& last_name[len-4] == 'L'
+				&& last_name[len-3] == 'i'
+				&& last_name[len-2] == 's'
+				&& last_name[len-1] == 't')
 			{
-				last_str[len-4] = '\0';
+				last_name[len-4] = '\0';
 			}
 			else
 			{
-				last_str[len++] = 'I';
-				last_str[len++] = 't';
-				last_str[len++] = 'e';
-				last_str[len++] = 'm';
-				last_str[len++] = '\0';
+				last_name[len++] = 'I';
+				last_name[len++] = 't';
+				last_name[len++] = 'e';
+				last_name[len++] = 'm';
+				last_name[len++] = '\0';
 			}
 
 
-			return last_str;
+			return last_name;
 		}
 		return "__ARRAY_ITEM_NAME__";
 	}
@@ -261,9 +268,9 @@ const char *Bin_json_plugin::getNodeName(void *element)
 	assert(X->start >= 0 && X->start < file_size);
 	assert(X->end > 0 && X->end <= file_size);
 	
-	strncpy(last_str,source + X->start,X->end - X->start);
-	last_str[X->end - X->start] = 0;
-	return last_str;
+	strncpy(last_name,source + X->start,X->end - X->start);
+	last_name[X->end - X->start] = 0;
+	return last_name;
 }
 
 const char *Bin_json_plugin::getNodeValue(void *element)
-- 
2.43.0


From 8d507f9bb95e64905be1185c8ad27767e9742a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:35 +0000
Subject: [PATCH 079/134] fix: items of JSON array with empty name read before
 the name

---
 src/bin_json_plugin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_json_plugin.cpp b/src/bin_json_plugin.cpp
index bff5dc6..a45986e 100644
--- a/src/bin_json_plugin.cpp
+++ b/src/bin_json_plugin.cpp
@@ -235,7 +235,7 @@ const char *Bin_json_plugin::getNodeName(void *element)
 			strncpy(last_name,source + P2->start,len);
 			
 			last_name[len] = 0;
-			if (last_name[len-1] == 's')
+			if (len > 0 && last_name[len-1] == 's')
 			{
 				last_name[len-1] = '\0';
 			}
-- 
2.43.0


From 677b0582d8bb3fdcf77a393afc7f74c53aac84a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:01 +0000
Subject: [PATCH 080/134] fix: escape sequences in JSON strings were not
 decoded

---
 src/bin_json_plugin.cpp | 99 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 93 insertions(+), 6 deletions(-)

diff --git a/src/bin_json_plugin.cpp b/src/bin_json_plugin.cpp
index a45986e..2139a0d 100644
--- a/src/bin_json_plugin.cpp
+++ b/src/bin_json_plugin.cpp
@@ -58,6 +58,92 @@ static int jsmn_prepare_total_size(jsmntok_t *tokens,int num_tokens,int idx,int
     return tokens[idx].total_size = total_size;
 }
 
+static int json_hex4(const char *src,const char *limit)
+{
+	int code = 0;
+	if (limit - src < 4) return -1;
+	for(int i = 0;i < 4;i++)
+	{
+		char c = src[i];
+		if (c >= '0' && c <= '9') code = (code << 4) + c - '0';
+		else if (c >= 'a' && c <= 'f') code = (code << 4) + c - 'a' + 10;
+		else if (c >= 'A' && c <= 'F') code = (code << 4) + c - 'A' + 10;
+		else return -1;
+	}
+	return code;
+}
+
+static int json_unescape(char *dst,const char *src,int size)
+// \n, \", \u017e, .... are replaced by characters (UTF-8) - result is never longer than source
+// \u0000 and half of surrogate pair cannot be represented, these are left as they are
+{
+	const char *limit = src + size;
+	char *start = dst;
+	while (src < limit)
+	{
+		if (*src != '\\' || src + 1 == limit)
+		{
+			*(dst++) = *(src++);
+			continue;
+		}
+		switch (src[1])
+		{
+			case 'b': *(dst++) = '\b'; src += 2; break;
+			case 'f': *(dst++) = '\f'; src += 2; break;
+			case 'n': *(dst++) = '\n'; src += 2; break;
+			case 'r': *(dst++) = '\r'; src += 2; break;
+			case 't': *(dst++) = '\t'; src += 2; break;
+			case 'u':
+			{
+				int code = json_hex4(src+2,limit);
+				int length = 6;
+				if (code >= 0xD800 && code < 0xDC00 && limit - src >= 12 && src[6] == '\\' && src[7] == 'u') // surrogate pair
+				{
+					int low = json_hex4(src+8,limit);
+					if (low >= 0xDC00 && low < 0xE000)
+					{
+						code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+						length = 12;
+					}
+				}
+				if (code <= 0 || (code >= 0xD800 && code < 0xE000))
+				{
+					*(dst++) = *(src++); // leave it escaped
+					break;
+				}
+				if (code < 0x80)
+					*(dst++) = code;
+				else if (code < 0x800)
+				{
+					*(dst++) = 0xC0 | (code >> 6);
+					*(dst++) = 0x80 | (code & 0x3F);
+				}
+				else if (code < 0x10000)
+				{
+					*(dst++) = 0xE0 | (code >> 12);
+					*(dst++) = 0x80 | ((code >> 6) & 0x3F);
+					*(dst++) = 0x80 | (code & 0x3F);
+				}
+				else
+				{
+					*(dst++) = 0xF0 | (code >> 18);
+					*(dst++) = 0x80 | ((code >> 12) & 0x3F);
+					*(dst++) = 0x80 | ((code >> 6) & 0x3F);
+					*(dst++) = 0x80 | (code & 0x3F);
+				}
+				src += length;
+				break;
+			}
+			default: // \", \\, \/
+				*(dst++) = src[1];
+				src += 2;
+				break;
+		}
+	}
+	*dst = '\0';
+	return dst - start;
+}
+
 //-------------------------------------------------------------------------------------------------
 // Takže tady máme JSON. Je to jen osekané XML.
 // Tam, kde mělo XML objekt a data a jméno objektu a zanořené objekty + nadbytečné parametry,
@@ -231,10 +317,7 @@ const char *Bin_json_plugin::getNodeName(void *element)
 		{
 			assert(P2->start >= 0 && P2->start < file_size);
 			assert(P2->end > 0 && P2->end <= file_size);
-			int len = P2->end - P2->start;
-			strncpy(last_name,source + P2->start,len);
-			
-			last_name[len] = 0;
+			int len = json_unescape(last_name,source + P2->start,P2->end - P2->start);
 			if (len > 0 && last_name[len-1] == 's')
 			{
 				last_name[len-1] = '\0';
@@ -268,8 +351,7 @@ const char *Bin_json_plugin::getNodeName(void *element)
 	assert(X->start >= 0 && X->start < file_size);
 	assert(X->end > 0 && X->end <= file_size);
 	
-	strncpy(last_name,source + X->start,X->end - X->start);
-	last_name[X->end - X->start] = 0;
+	json_unescape(last_name,source + X->start,X->end - X->start);
 	return last_name;
 }
 
@@ -290,6 +372,11 @@ const char *Bin_json_plugin::getNodeValue(void *element)
 	}
 // ok, P ukazuje na hodnotu nebo podstrom
 	if (X->type != JSMN_STRING && X->type != JSMN_PRIMITIVE) return nullptr; // name
+	if (X->type == JSMN_STRING)
+	{
+		json_unescape(last_str,source + X->start,X->end - X->start);
+		return last_str;
+	}
 	strncpy(last_str,source + X->start,X->end - X->start);
 	last_str[X->end - X->start] = 0;
 	return last_str;
-- 
2.43.0


From 493cb90d5c75f1ddc4ac679abd7e56b4c0f95cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:16 +0000
Subject: [PATCH 081/134] fix: XML output of XML and JSON sources lost values
 or crashed

---
 src/bin_xml_creator.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 10922fd..c651720 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -211,6 +211,11 @@ void Bin_src_plugin::s_On2Stream(void *element,void *userdata)
     XML_Binary_Type value_type;
     int value_size = 0;
     const char *value = CTX->src->getNodeBinValue(element,value_type,value_size);    // binary value referenced
+    if (value_type == XBT_UNKNOWN) // binary values are not supported by this source
+    {
+        value = CTX->src->getNodeValue(element);
+        value_type = (value == nullptr ? XBT_NULL : XBT_STRING);
+    }
 
     if (CTX->sibling_count == 0) 
         if (value == nullptr) CTX->os << "/>\n";
@@ -223,7 +228,7 @@ void Bin_src_plugin::s_On2Stream(void *element,void *userdata)
         }
     else
     {
-        if (value_type != XBT_NULL)
+        if (value != nullptr && value_type != XBT_NULL)
         {
             for(int t = 0;t < deep+1;t++) CTX->os << "\t";
             XBT_ToXMLStream(value_type,value,CTX->os);
-- 
2.43.0


From c33bbcf2ac2770943f4e026d2582df7b4c5ce64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:16 +0000
Subject: [PATCH 082/134] fix: XML output of elements without name stopped the
 whole output

---
 src/bin_xml_creator.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index c651720..3fbf70d 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -192,7 +192,8 @@ void Bin_src_plugin::s_On2Stream(void *element,void *userdata)
     for(int t = 0;t < deep;t++) CTX->os << "\t";
 
 
-    CTX->os << "<" << CTX->src->getNodeName(element);
+    const char *name = CTX->src->getNodeName(element);
+    CTX->os << "<" << (name != nullptr ? name : XTNR2str(XTNR_NULL)); // JSON root has no name
     // bool ForAllBinParams(OnBinParam_t on_param,void *element,void *userdata)
     if (!CTX->src->ForAllBinParams(s_OnBinParam2Stream,element,userdata))
     {
@@ -224,7 +225,8 @@ void Bin_src_plugin::s_On2Stream(void *element,void *userdata)
             CTX->os << ">";
             // void XBT_ToStringStream(XML_Binary_Type type,const char *data,std::ostream &os)
             XBT_ToXMLStream(value_type,value,CTX->os);
-            CTX->os << "</" << CTX->src->getNodeName(element) << ">\n";
+            name = CTX->src->getNodeName(element);
+            CTX->os << "</" << (name != nullptr ? name : XTNR2str(XTNR_NULL)) << ">\n";
         }
     else
     {
@@ -236,7 +238,8 @@ void Bin_src_plugin::s_On2Stream(void *element,void *userdata)
             CTX->os << "\n";    
         }
         for(int t = 0;t < deep;t++) CTX->os << "\t";
-        CTX->os << "</" << CTX->src->getNodeName(element) << ">\n";
+        name = CTX->src->getNodeName(element);
+        CTX->os << "</" << (name != nullptr ? name : XTNR2str(XTNR_NULL)) << ">\n";
     }
 
 //-----------------------------------------------------------------------------------
-- 
2.43.0


From 24994444a36db69a5136a1344498951b1ad92cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 083/134] fix: JSON could not be converted to .xbw, root has no
 name

---
 src/bin_xml_creator.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 3fbf70d..a2002f7 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -1178,12 +1178,11 @@ void Bin_xml_creator::XStore2XBWEvent(void *element,void *userdata)
     else
     {
         const char *node_name = _this->src->getNodeName(element);
-        ASSERT_NO_RET(2072,node_name != nullptr);
 
         //printf("%s (%s)",node_name,pool->binary_xml_write_type_info);
 
         id = _this->Find(node_name,SYMBOL_TABLE_NODES); // SLOW
-        ASSERT_NO_RET(2056,id >= 0);
+        ASSERT_NO_RET(2056,id >= 0 || node_name == nullptr); // JSON root has no name
         st_type = SYMBOL_TABLE_NODES;
         flags = BIN_WRITE_ELEMENT_FLAG;
         value = _this->src->getNodeBinValue(element,tag_type,value_size);    // binary value referenced
@@ -1196,7 +1195,7 @@ void Bin_xml_creator::XStore2XBWEvent(void *element,void *userdata)
 
     if (from_text) // text analyse solution when binary is not available
     {
-        tag_type = static_cast<XML_Binary_Type>(_this->symbol_table_types[st_type][id]);
+        tag_type = (id >= 0 ? static_cast<XML_Binary_Type>(_this->symbol_table_types[st_type][id]) : XBT_VARIANT);
         if (tag_type == XBT_VARIANT && value != nullptr) tag_type = XBT_Detect(value); // each value has its own type
         if (value == nullptr || (*value == '\0' && tag_type != XBT_STRING)) tag_type = XBT_NULL; // no value of any type
     // THIS IS BAD: I have value in string but need size of this value as binary value
-- 
2.43.0


From 93670ef18e478c69832b5448920ed4acbdc1de28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 084/134] fix: JSON array of short items did not fit into .xbw
 pool

---
 src/bin_xml_creator.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index a2002f7..77bc7e3 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -745,7 +745,15 @@ bool Bin_xml_creator::Make_xbw()
 
     // 3.1 create
     //BW_plugin(const char *filename = nullptr,Bin_xml_creator *bin_xml_creator = nullptr,int max_pool_size = 0x20000,uint32_t config_flags = 0);
-    BW_plugin W(dst,nullptr,MAX(0x40000,((src->getFileSize() >> 12)+1) << 16),BIN_WRITE_CFG_ALWAYS_CREATE_NEW); // 16*more - rounded up to 64kB blocks - should not grow!
+    // 16*more - rounded up to 64kB blocks - should not grow! JSON node can have only 2B in source - [1,1,1...]
+    int64_t pool_size = (((int64_t)src->getFileSize() + (int64_t)(total_node_count + total_param_count)*4) >> 12) + 1;
+    pool_size <<= 16;
+    if (pool_size > INT32_MAX)
+    {
+        std::cerr << "error: " << src->getFilename() << " is too big for .xbw, size of pool is limited to 2GB\n";
+        return false;
+    }
+    BW_plugin W(dst,nullptr,MAX(0x40000,(int)pool_size),BIN_WRITE_CFG_ALWAYS_CREATE_NEW);
     // 3.2 initialize
     ASSERT_NO_RET_FALSE(2053,W.Initialize());
     // 3.3 tags
-- 
2.43.0


From 1337c109513837cbe38a74dc1f2a6867201e1b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:24 +0000
Subject: [PATCH 085/134] fix: reserved names of .xbw were lost when there are
 no other names

---
 src/bin_write_plugin.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index ad13b09..5bf7725 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1512,8 +1512,8 @@ XML_Binary_Type BW_pool::getTagType(int16_t id)
 const char*     BW_pool::getTagName(int16_t id)
 {
     ASSERT_NO_RET_NULL(1064,this != nullptr);
+    if (id < 0) return XTNR2str(id); // reserved names are not in index
     ASSERT_NO_RET_NULL(1054,tags.index != 0);                // index not initialized 
-    if (id < 0) return XTNR2str(id);
     ASSERT_NO_RET_NULL(1055,id >=0 && id <= tags.max_id);    // id out of range - should be in range, because range is defined by writing application
     BW_offset_t *elements = reinterpret_cast<BW_offset_t*>(THIS+tags.index);
     
@@ -1556,10 +1556,8 @@ XML_Binary_Type BW_pool::getAttrType(int16_t id)
 const char*     BW_pool::getAttrName(int16_t id)
 {
     ASSERT_NO_RET_NULL(1066,this != nullptr);
+    if (id < 0) return XPNR2str(id); // reserved names are not in index
     ASSERT_NO_RET_NULL(1060,params.index != 0);                // index not initialized 
-
-    if (id < 0) return XPNR2str(id);
-
     ASSERT_NO_RET_NULL(1061,id >=0 && id <= params.max_id);    // id out of range - should be in range, because range is defined by writing application
     BW_offset_t *elements = reinterpret_cast<BW_offset_t*>(THIS+params.index);
     BW_offset_t offset = elements[id];
-- 
2.43.0


From bcd3b95e7a1e757dae5f3c4b5cf37d4c009d0840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:24 +0000
Subject: [PATCH 086/134] fix: .xbw with elements without name (from JSON)
 could not be converted to .xb

---
 src/bin_xml_creator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 77bc7e3..ad1d67d 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -955,7 +955,7 @@ const char *Bin_xml_creator::WriteNode(char **_wp,void *element)
 
     const char *node_name = src->getNodeName(element);
     X->name = Find(node_name,SYMBOL_TABLE_NODES);
-    if (X->name == XTNR_NULL && node_name != nullptr)
+    if (X->name == XTNR_NULL && node_name != nullptr && strcmp(node_name,XTNR2str(XTNR_NULL)) != 0) // element without name has this name in .xbw
     {
         LOG_ERROR("[A1208] Tag '%s' is not in symbol table",node_name);
         node_failed = true;
-- 
2.43.0


From 3ccb3f3b860cce57e033c55e8d4035b3a9eba174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:52 +0000
Subject: [PATCH 087/134] fix: reserved tags and attributes of .xbw had no type
 when there are no other names

---
 src/bin_write_plugin.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 5bf7725..700347c 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1479,7 +1479,7 @@ bool BW_symbol_table_16B::Open(BW_pool *pool)
 XML_Binary_Type BW_pool::getTagType(int16_t id) 
 {
     ASSERT_NO_(1063,this != nullptr,return XBT_UNKNOWN);
-    ASSERT_NO_(1051,tags.index != 0,return XBT_UNKNOWN);                // index not initialized 
+    ASSERT_NO_(1051,id < 0 || tags.index != 0,return XBT_UNKNOWN);      // index not initialized - reserved names are not in index
 
     if (id >=0 && id <= tags.max_id)    // id in range
     {
@@ -1526,7 +1526,7 @@ const char*     BW_pool::getTagName(int16_t id)
 XML_Binary_Type BW_pool::getAttrType(int16_t id)
 {
     ASSERT_NO_(1065,this != nullptr,return XBT_UNKNOWN);
-    ASSERT_NO_(1057,params.index != 0,return XBT_UNKNOWN);                // index not initialized 
+    ASSERT_NO_(1057,id < 0 || params.index != 0,return XBT_UNKNOWN);    // index not initialized - reserved names are not in index
     if (id < 0)
     {
         switch (id)
-- 
2.43.0


From f0e94796f2380627a6d5850675fe64ac7c0369c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:59 +0000
Subject: [PATCH 088/134] fix: reserved attributes of .xb were shown with names
 of reserved tags

---
 src/bin_xml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index 6a412a4..4652650 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -709,7 +709,7 @@ bool _XB_symbol_table::Load(XML_Item *container)
 
 const char *_XB_symbol_table::getSymbol(tag_name_id_t name_id) const
 {
-    if (name_id < 0) return XTNR2str(name_id);
+    if (name_id < 0) return (item_container != nullptr && item_container->name == XTNR_PARAM_SYMBOLS) ? XPNR2str(name_id) : XTNR2str(name_id);
     if (name_id >= count) return "__out_of_range__";
     return reinterpret_cast<const char *>(item_container)+reference_array[name_id];
 }
-- 
2.43.0


From ee435b80d80cd934a5551b853aeff612d66eb51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 089/134] fix: failed BW_plugin::Initialize() leaves no
 descriptor, mapping or foreign pool size behind

---
 include/binary_xml/bin_write_plugin.h |  1 +
 src/bin_write_plugin.cpp              | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/include/binary_xml/bin_write_plugin.h b/include/binary_xml/bin_write_plugin.h
index 123ea88..69773c1 100644
--- a/include/binary_xml/bin_write_plugin.h
+++ b/include/binary_xml/bin_write_plugin.h
@@ -277,6 +277,7 @@ public:
     bool        setMaxPoolSize(int max_pool_size);
     
     virtual bool Initialize();
+        bool OpenPool();
         bool InitEmptyFile();
         bool CheckExistingFile(int file_size);
     virtual bool Finalize();
diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 700347c..fbafab7 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1861,6 +1861,17 @@ bool BW_plugin::setMaxPoolSize(int max_pool_size)
 bool BW_plugin::Initialize()
 {
     if (initialized) return true; // no double initialize!!
+
+    const int requested_pool_size = max_pool_size;
+    if (OpenPool()) return true;
+
+    Finalize(); // nothing stays opened after failure, Initialize() can be repeated
+    max_pool_size = requested_pool_size;
+    return false;
+}
+
+bool BW_plugin::OpenPool()
+{
     ASSERT_NO_RET_FALSE(1952,filename != nullptr);
 
 // BW_plugin is owner and the only one (for now) writer of mapped file
@@ -1898,6 +1909,7 @@ bool BW_plugin::Initialize()
         if (pool == MAP_FAILED)
         {
             ERRNO_SHOW(1049,"mmap",filename);
+            pool = nullptr; // not mapped
             return false;
         }
         if (file_size < (int)sizeof(*pool)) file_size = 0; // too small - deleting
-- 
2.43.0


From 19c8af28c1cfdd14eed876f5975aeb1f77e74638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:27 +0000
Subject: [PATCH 090/134] fix: buffers were sized by -1 when size of source
 could not be detected again

---
 src/bin_xml_creator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index ad1d67d..7fc5817 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -55,7 +55,9 @@ const char *Bin_src_plugin::getSymbol(SymbolTableTypes table,int idx,XML_Binary_
 
 void Bin_src_plugin::updateFileSize()
 {
-    this->file_size = file_getsize(filename);
+    off_t size = file_getsize(filename);
+    if (size >= 0)
+        this->file_size = size; // else the last known size stays valid
 }
 
 void Bin_src_plugin::setFilename(const char *filename,const char *extension,const char *target_dir)
-- 
2.43.0


From 5c55a876d232fc6665be748a11748472fa388ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 091/134] fix: failed XB_reader::Initialize() and close leave
 no descriptor or mapping behind

---
 include/binary_xml/bin_xml.h |  1 +
 src/bin_xml.cpp              | 13 +++++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/binary_xml/bin_xml.h b/include/binary_xml/bin_xml.h
index 046cd15..e8c4a98 100644
--- a/include/binary_xml/bin_xml.h
+++ b/include/binary_xml/bin_xml.h
@@ -203,6 +203,7 @@ public:
     void setVerbosity(int verbosity);
 
     bool Initialize();
+        bool Open();
     bool Finalize();
 
     inline const char *getNodeName(tag_name_id_t name_id) const     { return tag_symbols.getSymbol(name_id);}
diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index 4652650..be459e2 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -777,6 +777,14 @@ void XB_reader::setVerbosity(int verbosity)
 }
 
 bool XB_reader::Initialize()
+{
+    Finalize(); // from previous opening
+    if (Open()) return true;
+    Finalize(); // nothing stays opened after failure
+    return false;
+}
+
+bool XB_reader::Open()
 {
 //    printf("XB_reader::Initialize\n");
 //    printf("filename=%s\n",this->filename);
@@ -872,12 +880,13 @@ bool XB_reader::Finalize()
     }
     if (fd != -1)
     {
-        if (close(fd) == -1)
+        int ok_close = close(fd);
+        fd = -1; // descriptor is released even if close() reports error
+        if (ok_close == -1)
         {
             ERRNO_SHOW(1027,"close",this->filename);
             return false;
         }
-        fd = -1;
     }
     return true;
 }
-- 
2.43.0


From 42b2723f8e8707502ed7f5d4ae439cfc46a05b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 092/134] fix: reader opened older .xb at second attempt after
 failed conversion of source

---
 src/bin_xml.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index be459e2..757fe37 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -805,7 +805,10 @@ bool XB_reader::Open()
         
         printf("convert xml to %s\n",this->filename);
         if (!pklib_xml::Bin_xml_packer::Convert(xml_filename,this->filename))
+        {
+            strcpy(this->filename,xml_filename); // source must be converted again next time
             return false;
+        }
 
     }
     else if (last_dot != nullptr && strcmp(last_dot,".json") == 0) // it is xml!
@@ -818,7 +821,10 @@ bool XB_reader::Open()
         *(last_dot++) = '\0';
         
         if (!pklib_xml::Bin_xml_packer::Convert(json_filename,this->filename))
+        {
+            strcpy(this->filename,json_filename); // source must be converted again next time
             return false;
+        }
     }
 
 // open
-- 
2.43.0


From f491c5f724f2a422834891e6207d7758cf4a73b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 093/134] fix: WriteToFile() left file opened after failed
 write

---
 src/utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index f5dfdf7..1468c7a 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -26,14 +26,14 @@ bool WriteToFile(const char *filename,const char *fmt,...)
     va_start(ap,fmt);
     
     int ok = vfprintf(f,fmt,ap);
+    va_end(ap);
     if (ok < 0)
     {
         ERRNO_SHOW(1008,"WriteToFile-fprintf",fmt);
+        fclose(f);
         return false;
     }
 
-    va_end(ap);
-
     if (fclose(f) == EOF)
     {
         ERRNO_SHOW(1009,"WriteToFile-fclose",filename);
-- 
2.43.0


From 0e2e69447712d70805ad0f8efe0e4ee184142c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 094/134] fix: ReadFile() after short or failed read

---
 src/utils.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 1468c7a..f3608f2 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -57,7 +57,14 @@ char *ReadFile(const char *filename,bool must_exist,int *size)
     if (file_size > 0)
     {
         data = new char[file_size+1];
-        ssize_t bytes_read = read(fd,data,file_size);
+        ssize_t bytes_read = 0;
+        while (bytes_read < file_size) // one read() can return less than requested
+        {
+            ssize_t part = read(fd,data+bytes_read,file_size-bytes_read);
+            if (part < 0) bytes_read = -1;
+            if (part <= 0) break;
+            bytes_read += part;
+        }
         if (bytes_read < 0)
         {
             ERRNO_SHOW(1011,"ReadFile-read",filename);
@@ -83,7 +90,7 @@ char *ReadFile(const char *filename,bool must_exist,int *size)
     }
 
     if (size != nullptr)
-        *size = file_size;
+        *size = file_size > 0 && data == nullptr ? -1 : file_size; // failed - nothing was read
     return data;    
 }
 
-- 
2.43.0


From 4680b7c959b1ab6d95e426b688b07c463c710fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 095/134] fix: file_get_contents() returned part of file after
 short read

---
 src/files.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/files.cpp b/src/files.cpp
index d7521f6..0961fa1 100644
--- a/src/files.cpp
+++ b/src/files.cpp
@@ -103,9 +103,18 @@ int file_get_contents(const char *filename,void *content,int size)
         return -1; // fail
     }
 
-    int rd = read(fd,content,size);
-    if (rd < 0)
-        ERRNO_SHOW(10510,"read",filename);
+    int rd = 0;
+    while (rd < size) // one read() can return less than requested
+    {
+        int part = read(fd,(char *)content+rd,size-rd);
+        if (part < 0)
+        {
+            ERRNO_SHOW(10510,"read",filename);
+            rd = -1;
+        }
+        if (part <= 0) break;
+        rd += part;
+    }
 
     if (close(fd) < 0)
         ERRNO_SHOW(10511,"close",filename);
-- 
2.43.0


From fe1b0f45c8d83d8c4c265c08eb8e0f2240166352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 096/134] fix: file_getsha1() returned hash of beginning of
 file after short read

---
 src/missings.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/missings.cpp b/src/missings.cpp
index 6a1cc09..3bd517a 100644
--- a/src/missings.cpp
+++ b/src/missings.cpp
@@ -157,9 +157,9 @@ bool file_getsha1(const char *filename,unsigned char *hash)
             close(fd);
             return false;
         }
+        if (size == 0)
+            break; // finished, short read can occur inside of file
         blk_SHA1_Update(&ctx,buffer,size);
-        if (size < (int)sizeof(buffer))
-            break; // finished
     }
     blk_SHA1_Final(hash,&ctx);    
     if (close(fd) < 0)    
-- 
2.43.0


From d0404a81b04b55521f1c681a731d5600fcfac8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 097/134] fix: scan_dir() left directory opened after error,
 callback could cause failure

---
 src/files.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/files.cpp b/src/files.cpp
index 0961fa1..3b73955 100644
--- a/src/files.cpp
+++ b/src/files.cpp
@@ -142,7 +142,11 @@ bool scan_dir(const char *base_dir,void *userdata,on_file_event on_file)
             if (dirent->d_name[1] == '\0') continue; // skip .
             else if (dirent->d_name[1] == '.' && dirent->d_name[2] == '\0') continue; // skip ..
         }
-        if (!on_file(base_dir,dirent->d_name,userdata,dirent->d_type)) break;
+        if (!on_file(base_dir,dirent->d_name,userdata,dirent->d_type))
+        {
+            errno = 0; // can be changed by on_file()
+            break;
+        }
 
 /*        if (*dirent->d_name == '.') continue; // hidden files .*, current dir and upper dir
         switch (dirent->d_type)
@@ -173,6 +177,7 @@ bool scan_dir(const char *base_dir,void *userdata,on_file_event on_file)
     if (errno != 0)
     {
         ERRNO_SHOW(1102,"readdir",base_dir);
+        closedir(dir);
         return false;
     }
     if (closedir(dir) != 0)
-- 
2.43.0


From d846afdf5a99ae0966381ac9cbd5b527643926bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 098/134] fix: failed conversion of node to .xbw ended process
 or was not reported

---
 src/bin_xml_creator.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 7fc5817..616fd6c 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -776,7 +776,9 @@ bool Bin_xml_creator::Make_xbw()
     node_info.param_name = nullptr;
     node_info.param_value = nullptr;
 
+    this->node_failed = false;
     XStore2XBWEvent(root,&node_info);
+    if (this->node_failed) return false; // already reported
     ASSERT_NO_RET_FALSE(2059,node_info.dst_bw_element != nullptr);
     W.setRoot(node_info.dst_bw_element);
 //typedef void (*OnElement_t)(void *element,void *userdata);
@@ -1177,7 +1179,7 @@ void Bin_xml_creator::XStore2XBWEvent(void *element,void *userdata)
     if (node_info->param_name != nullptr)
     {
         id = _this->Find(node_info->param_name,SYMBOL_TABLE_PARAMS); // SLOW
-        ASSERT_NO_RET(2134,id >= 0);
+        ASSERT_NO_(2134,id >= 0,{_this->node_failed = true;return;});
         st_type = SYMBOL_TABLE_PARAMS;
         flags = BIN_WRITE_ATTR_FLAG;
         value = node_info->param_value;
@@ -1192,7 +1194,7 @@ void Bin_xml_creator::XStore2XBWEvent(void *element,void *userdata)
         //printf("%s (%s)",node_name,pool->binary_xml_write_type_info);
 
         id = _this->Find(node_name,SYMBOL_TABLE_NODES); // SLOW
-        ASSERT_NO_RET(2056,id >= 0 || node_name == nullptr); // JSON root has no name
+        ASSERT_NO_(2056,id >= 0 || node_name == nullptr,{_this->node_failed = true;return;}); // JSON root has no name
         st_type = SYMBOL_TABLE_NODES;
         flags = BIN_WRITE_ELEMENT_FLAG;
         value = _this->src->getNodeBinValue(element,tag_type,value_size);    // binary value referenced
@@ -1224,17 +1226,17 @@ void Bin_xml_creator::XStore2XBWEvent(void *element,void *userdata)
         int size2 = XBT_Size2(tag_type,size);
         //int align = XBT_Align(tag_type);
         
-        ASSERT_NO_EXIT_1(2069,bw->makeSpace(sizeof(BW_element)+size2+8/*max align*/));    // this is faster, as I know, where plugin is
+        ASSERT_NO_(2069,bw->makeSpace(sizeof(BW_element)+size2+8/*max align*/),{_this->node_failed = true;return;});    // this is faster, as I know, where plugin is
 
         BW_element *dst = node_info->dst_bw_element = pool->new_element(tag_type,size);
         //printf("... %p[%d] (%d)\n",dst,size,dst->offset);
-        ASSERT_NO_EXIT_1(2074,dst != nullptr);
+        ASSERT_NO_(2074,dst != nullptr,{_this->node_failed = true;return;});
         dst->identification = id;
         dst->flags = flags;; // element and not attribute
     // bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit);
         char *wp = reinterpret_cast<char*>(dst+1);
         char *limit = wp + size2;
-        ASSERT_NO_EXIT_1(2062,XBT_FromString(value,tag_type,&wp,limit));
+        ASSERT_NO_(2062,XBT_FromString(value,tag_type,&wp,limit),{_this->node_failed = true;return;});
     }
     else
     { // xbw2xbw variant
-- 
2.43.0


From a549037d1f59b90163db64b6a35ea9f013b2cbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 099/134] fix: failed registration of symbol was ignored in
 conversion to .xbw

---
 src/bin_xml_creator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 616fd6c..bdbaebd 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -760,10 +760,10 @@ bool Bin_xml_creator::Make_xbw()
     ASSERT_NO_RET_FALSE(2053,W.Initialize());
     // 3.3 tags
     for(int i = 0;i < symbol_count[SYMBOL_TABLE_NODES];i++)
-        W.registerTag(i,symbol_table[SYMBOL_TABLE_NODES][i],static_cast<XML_Binary_Type>(symbol_table_types[SYMBOL_TABLE_NODES][i]));
+        ASSERT_NO_RET_FALSE(10455,W.registerTag(i,symbol_table[SYMBOL_TABLE_NODES][i],static_cast<XML_Binary_Type>(symbol_table_types[SYMBOL_TABLE_NODES][i])));
     // 3.4 attrs
     for(int i = 0;i < symbol_count[SYMBOL_TABLE_PARAMS];i++)
-        W.registerAttr(i,symbol_table[SYMBOL_TABLE_PARAMS][i],static_cast<XML_Binary_Type>(symbol_table_types[SYMBOL_TABLE_PARAMS][i]));
+        ASSERT_NO_RET_FALSE(10456,W.registerAttr(i,symbol_table[SYMBOL_TABLE_PARAMS][i],static_cast<XML_Binary_Type>(symbol_table_types[SYMBOL_TABLE_PARAMS][i])));
     // 3.5 symbols done
     ASSERT_NO_RET_FALSE(2054,W.allRegistered());
 
-- 
2.43.0


From 666b1978e3a3d93ebd83777065f9ca7cef89fcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 100/134] fix: document of previous conversion was not
 released, its texts could be used for new one

---
 include/binary_xml/bin_xml_plugin.h |  1 +
 src/bin_xml_plugin.cpp              | 11 +++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/binary_xml/bin_xml_plugin.h b/include/binary_xml/bin_xml_plugin.h
index d9382e8..6c56377 100644
--- a/include/binary_xml/bin_xml_plugin.h
+++ b/include/binary_xml/bin_xml_plugin.h
@@ -15,6 +15,7 @@ protected:
     xmlNode     *root_element;
     std::map<const void*,std::string> composed;  // texts which are not stored in one piece in DOM (entities, CDATA, comments inside)
     const char *getText(xmlNode *first,xmlNode *end,const void *key);
+    void        Close();
 public:
     Bin_xml_plugin(const char *filename,Bin_xml_creator *bin_xml_creator);
     virtual ~Bin_xml_plugin();
diff --git a/src/bin_xml_plugin.cpp b/src/bin_xml_plugin.cpp
index e7d5094..f8103e8 100644
--- a/src/bin_xml_plugin.cpp
+++ b/src/bin_xml_plugin.cpp
@@ -28,6 +28,13 @@ Bin_xml_plugin::Bin_xml_plugin(const char *filename,Bin_xml_creator *bin_xml_cre
 */
 
 Bin_xml_plugin::~Bin_xml_plugin()
+{
+    Close();
+
+    xmlCleanupParser(); // není to nebezpečné?
+}
+
+void Bin_xml_plugin::Close()
 {
     if (doc != nullptr) 
     {
@@ -35,12 +42,12 @@ Bin_xml_plugin::~Bin_xml_plugin()
         doc = nullptr;
     }
     root_element = nullptr;
-
-    xmlCleanupParser(); // není to nebezpečné?
+    composed.clear(); // texts of released document
 }
 
 bool Bin_xml_plugin::Initialize()
 {
+    Close(); // from previous conversion
     if (!Bin_src_plugin::Initialize()) return false;
 // loading xml
     doc = xmlReadFile(filename, NULL, 0);
-- 
2.43.0


From 4054f5aacc9ce82c607db5005357c781eee6fa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 101/134] fix: chunk of hexadecimal value was refused with the
 smallest allowed buffer (16 bytes of output were required for one byte)

---
 src/bin_xml_types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index aa1ba33..c7cff02 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -1175,7 +1175,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 src  += offset;
 
                 if (size > 16) size = 16; // limited output
-                ASSERT_NO_RET_N1(2126,(int)size*16+2 <= dst_size);
+                ASSERT_NO_RET_N1(2126,(int)size*2+2 <= dst_size);
 
                 Hex2Str(src,size,dst);
 
-- 
2.43.0


From c031c2b37707facd7885944f42f4c370400d91e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 102/134] fix: pool of writer killed while growing the file
 could not be opened

---
 src/bin_write_plugin.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index fbafab7..49b51c0 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1997,12 +1997,18 @@ bool BW_plugin::CheckExistingFile(int file_size)
 {
     ASSERT_NO_RET_FALSE(1953,strcmp(pool->binary_xml_write_type_info,"binary_xml.pksoft.org") == 0);
     ASSERT_NO_RET_FALSE(1954,pool->pool_format_version == BIN_WRITE_POOL_FORMAT_VERSION);
-    ASSERT_NO_RET_FALSE(1943,(int)pool->file_size == file_size);
+    ASSERT_NO_RET_FALSE(1943,(int)pool->file_size <= file_size);
     ASSERT_NO_RET_FALSE(1944,(int)pool->mmap_size == max_pool_size); // !! must be the same !!
     ASSERT_NO_RET_FALSE(1945,pool->allocator_limit == (int)pool->file_size);
     ASSERT_NO_RET_FALSE(1946,pool->allocator >= (int)sizeof(*pool));
     ASSERT_NO_RET_FALSE(1947,pool->allocator <= pool->allocator_limit);
 
+    if ((int)pool->file_size < file_size && ftruncate(fd,pool->file_size) < 0) // writer was killed in makeSpace before new size was stored
+    {
+        ERRNO_SHOW(10457,"ftruncate",filename);
+        return false;
+    }
+
     this->check_only = true;
     this->check_failures = 0;
 
-- 
2.43.0


From 24651c96853ef52e69863ca266fac49c39e5ad17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 103/134] fix: 64 bit numbers out of range were read as
 different numbers

---
 src/utils.cpp | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index f3608f2..367f3cc 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -334,12 +334,17 @@ bool ScanInt64(const char *&p,int64_t &value)
     if (neg) p1++;
     if (!isdigit(*p1)) return false;
 
-    int64_t x = 0;
+    const uint64_t limit = static_cast<uint64_t>(INT64_MAX) + neg;
+    uint64_t x = 0;
     while (isdigit(*p1))
-        x = x *10 + (*(p1++) - '0');
+    {
+        int digit = *(p1++) - '0';
+        if (x > (limit - digit) / 10) return false; // doesn't fit into int64_t
+        x = x *10 + digit;
+    }
     
     p = p1;
-    value = (neg ? -x : x);
+    value = (neg ? 0 - x : x);
     return true;
 }
 
@@ -355,6 +360,7 @@ bool ScanUInt64(const char *&p,uint64_t &value)
         if (!isxdigit(*p1)) return false;
         while (*p1 != '\0')
         {
+            if (x >> 60 != 0 && isxdigit(*p1)) return false; // doesn't fit into uint64_t
             if (*p1 >= '0' && *p1 <= '9')
                 x = (x << 4) + (*(p1++) - '0');
             else if (*p1 >= 'A' && *p1 <= 'F')
@@ -369,7 +375,11 @@ bool ScanUInt64(const char *&p,uint64_t &value)
         if (!isdigit(*p1)) return false;
 
         while (isdigit(*p1))
-            x = x *10 + (*(p1++) - '0');
+        {
+            int digit = *(p1++) - '0';
+            if (x > (UINT64_MAX - digit) / 10) return false; // doesn't fit into uint64_t
+            x = x *10 + digit;
+        }
     }
     
     p = p1;
@@ -386,6 +396,7 @@ bool ScanUInt64Hex(const char *&p,uint64_t &value)
     if (!isxdigit(*p1)) return false;
     while (*p1 != '\0')
     {
+        if (x >> 60 != 0 && isxdigit(*p1)) return false; // doesn't fit into uint64_t
         if (*p1 >= '0' && *p1 <= '9')
             x = (x << 4) + (*(p1++) - '0');
         else if (*p1 >= 'A' && *p1 <= 'F')
@@ -952,12 +963,17 @@ bool ScanInt64W(char *&p,int64_t &value)
     if (neg) p1++;
     if (!isdigit(*p1)) return false;
 
-    int64_t x = 0;
+    const uint64_t limit = static_cast<uint64_t>(INT64_MAX) + neg;
+    uint64_t x = 0;
     while (isdigit(*p1))
-        x = x *10 + (*(p1++) - '0');
+    {
+        int digit = *(p1++) - '0';
+        if (x > (limit - digit) / 10) return false; // doesn't fit into int64_t
+        x = x *10 + digit;
+    }
     
     p = p1;
-    value = (neg ? -x : x);
+    value = (neg ? 0 - x : x);
     return true;
 }
 
@@ -973,6 +989,7 @@ bool ScanUInt64W(char *&p,uint64_t &value)
         if (!isxdigit(*p1)) return false;
         while (*p1 != '\0')
         {
+            if (x >> 60 != 0 && isxdigit(*p1)) return false; // doesn't fit into uint64_t
             if (*p1 >= '0' && *p1 <= '9')
                 x = (x << 4) + (*(p1++) - '0');
             else if (*p1 >= 'A' && *p1 <= 'F')
@@ -987,7 +1004,11 @@ bool ScanUInt64W(char *&p,uint64_t &value)
         if (!isdigit(*p1)) return false;
 
         while (isdigit(*p1))
-            x = x *10 + (*(p1++) - '0');
+        {
+            int digit = *(p1++) - '0';
+            if (x > (UINT64_MAX - digit) / 10) return false; // doesn't fit into uint64_t
+            x = x *10 + digit;
+        }
     }
     
     p = p1;
-- 
2.43.0


From be3240f5891a197dc13cb37e1cf525c795d819f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 104/134] fix: asterisk in mask did not match empty end nor
 text with asterisk and question marks after it were ignored

---
 src/utils.cpp | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 367f3cc..9eacbe5 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -782,32 +782,23 @@ bool Go(const char *&p,char separator)
 bool AdvEqual(const char *mask,const char *value)
 {
     if (mask == nullptr) return true;
-    while (*mask != '\0' && *value != '\0')
+    while (*mask != '\0')
     {
-        if (*mask == *value || *mask == '?')
+        if (*mask == '*')
         {
-            mask++;
-            value++;
-        }
-        else if (*mask == '*' && *(mask+1) == '\0') // asterix at the end
-            return true; // ok
-        else if (*mask == '*')
-        {
-            mask++;
-            while (*mask == '*' || *mask == '?') mask++;
-
-            // I need to find the first character after *
+            while (*mask == '*') mask++;
+            if (*mask == '\0') return true; // asterix at the end - ok
 
+            // I need to find the rest after *, asterix can represent empty text too
             while (*value != '\0')
-            {
-                if (*mask == *value && AdvEqual(mask+1,value+1)) return true; // found
-                value++;
-            }
+                if (AdvEqual(mask,value++)) return true; // found
+            return false;
         }
-        else return false; // no match
-
+        if (*value == '\0' || (*mask != *value && *mask != '?')) return false; // no match
+        mask++;
+        value++;
     }
-    return *mask == '\0' && *value == '\0'; // both strings has the same end
+    return *value == '\0'; // both strings has the same end
 }
 
 int ScanHex(const char *&p,uint8_t *dst,int dst_size)
-- 
2.43.0


From d4559e6cf1fc7ac308a38405d31b24fad1ad2ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 105/134] fix: StrWrite lost the position in source without
 limit

---
 src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 9eacbe5..bcbc528 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -1150,7 +1150,7 @@ bool StrWrite(char *&dest,const char *dest_limit,const char *&src,const char *sr
     if (src_size > dst_space) return false; // nic neudělám a končím
     strncpy(dest,src,src_size);
     dest += src_size;
-    src = src_limit;
+    src += src_size;
     return true;
 }
 
-- 
2.43.0


From 5a2f2882029d46a6f0e8dae1f9be3ada89e1c91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 106/134] fix: extension of file without extension replaced a
 part of the directory with dot

---
 src/utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index bcbc528..683a903 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -247,6 +247,7 @@ char *AllocFilenameChangeExt(const char *filename,const char *extension,const ch
         return new_name;
     }
     const char *dot = strrchr(filepath,'.');
+    if (dot != nullptr && strchr(dot,'/') != nullptr) dot = nullptr; // dot of directory
     int len = (dot != nullptr ? dot - filepath : strlen(filepath));
     int ext_len = strlen(extension);
 
-- 
2.43.0


From cd20067c8ff8e3995d0c0a1b665949d335f1e80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 107/134] fix: GetXB returned wrong name (.wb) of file
 converted from .wsdl

---
 src/bin_xml_packer.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/bin_xml_packer.cpp b/src/bin_xml_packer.cpp
index d7d0af5..883a328 100644
--- a/src/bin_xml_packer.cpp
+++ b/src/bin_xml_packer.cpp
@@ -360,18 +360,15 @@ bool Bin_xml_packer::GetXB(const char *xml_filename,char *xb_filename,const char
         return false;
     }
 	
-    int len = strlen(xml_filename);
     // XML extension check
-    if (strcmp(dot,".wsdl") == 0) len--; // shorted!
-    else if (strcmp(dot,".xml") != 0 && strcmp(dot,".xsd") != 0)
+    if (strcmp(dot,".wsdl") != 0 && strcmp(dot,".xml") != 0 && strcmp(dot,".xsd") != 0)
     {
         *err_message = "expected file with .xml (or .xsd or .wsdl) extension!";
         return false;
     }
     // XB creation
     strcpy(xb_filename,xml_filename);
-    xb_filename[len-1] = 0;
-    xb_filename[len-2] = 'b';
+    strcpy(xb_filename + (dot - xml_filename),".xb");
 
     Bin_xml_packer BXP(xml_filename,xb_filename);
 
-- 
2.43.0


From 79819bd65373a2979417e38956c9d55fbe0f39c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 108/134] fix: conversion of file with unknown extension
 crashed

---
 src/bin_xml_creator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index bdbaebd..4659864 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -376,6 +376,11 @@ static bool write_all(int file,const char *src,int64_t size)
 
 bool Bin_xml_creator::DoAll()
 {
+    if (src == nullptr)
+    {
+        std::cerr << "error: unknown type of source file, cannot create " << (dst != nullptr ? dst : "(null)") << "\n";
+        return false;
+    }
     ASSERT_NO_RET_FALSE(2049,dst != nullptr);
     int dst_len = strlen(dst);
     ASSERT_NO_RET_FALSE(2050,dst_len > 0);
-- 
2.43.0


From 1ae4a7492b4dc6d81dcab954c51e6701ad3fbe5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:44 +0000
Subject: [PATCH 109/134] fix: ampersand in name of namespace was read as &#38;

---
 include/binary_xml/bin_xml_plugin.h |  1 +
 src/bin_xml_plugin.cpp              | 23 +++++++++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/binary_xml/bin_xml_plugin.h b/include/binary_xml/bin_xml_plugin.h
index 6c56377..f5e7771 100644
--- a/include/binary_xml/bin_xml_plugin.h
+++ b/include/binary_xml/bin_xml_plugin.h
@@ -15,6 +15,7 @@ protected:
     xmlNode     *root_element;
     std::map<const void*,std::string> composed;  // texts which are not stored in one piece in DOM (entities, CDATA, comments inside)
     const char *getText(xmlNode *first,xmlNode *end,const void *key);
+    const char *getHref(const xmlNs *ns);
     void        Close();
 public:
     Bin_xml_plugin(const char *filename,Bin_xml_creator *bin_xml_creator);
diff --git a/src/bin_xml_plugin.cpp b/src/bin_xml_plugin.cpp
index f8103e8..056defc 100644
--- a/src/bin_xml_plugin.cpp
+++ b/src/bin_xml_plugin.cpp
@@ -1,5 +1,6 @@
 #include <binary_xml/bin_xml_plugin.h>
 #include <assert.h>
+#include <string.h>
 
 namespace pklib_xml {
 
@@ -125,6 +126,24 @@ const char *Bin_xml_plugin::getText(xmlNode *first,xmlNode *end,const void *key)
     }
     return found->second.c_str();
 }
+
+const char *Bin_xml_plugin::getHref(const xmlNs *ns)
+// name of namespace, libxml2 leaves ampersands in it as &#38;
+{
+    if (ns->href == nullptr) return "";
+    const char *href = reinterpret_cast<const char*>(ns->href);
+    if (strstr(href,"&#38;") == nullptr) return href;
+
+    auto found = composed.find(ns);
+    if (found == composed.end())
+    {
+        std::string text;
+        for(const char *end;(end = strstr(href,"&#38;")) != nullptr;href = end + strlen("&#38;"))
+            text.append(href,end-href).append("&");
+        found = composed.emplace(ns,text + href).first;
+    }
+    return found->second.c_str();
+}
 //-------------------------------------------------------------------------------------------------
 
 void Bin_xml_plugin::ForAllChildren(OnElement_t on_element,void *parent,void *userdata)
@@ -158,11 +177,11 @@ void Bin_xml_plugin::ForAllParams(OnParam_t on_param,void *element,void *userdat
 
     if (X->ns != nullptr)
     {   
-        on_param("xmlns",(X->ns->href != nullptr ? reinterpret_cast<const char *>(X->ns->href) : ""),element,userdata);
+        on_param("xmlns",getHref(X->ns),element,userdata);
     }
     else if (X->nsDef != nullptr)
     {   
-        on_param("xmlns",(X->nsDef->href != nullptr ? reinterpret_cast<const char *>(X->nsDef->href) : ""),element,userdata);
+        on_param("xmlns",getHref(X->nsDef),element,userdata);
     }
 
 
-- 
2.43.0


From 420d803e26916f6efc9c3f0241cd37494e42505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:24 +0000
Subject: [PATCH 110/134] fix: attribute named et-tecera was stored as
 attribute author

---
 src/bin_xml_creator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 4659864..dd093fe 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -1419,7 +1419,7 @@ int Bin_xml_creator::FindOrAdd(const char *symbol,const int t,const char *value)
 int Bin_xml_creator::Find(const char *symbol,const int t)
 {
     if (symbol == nullptr) return -1;
-    if (strcmp(symbol,"et-tecera") == 0) return XTNR_ET_TECERA;
+    if (t == SYMBOL_TABLE_NODES && strcmp(symbol,"et-tecera") == 0) return XTNR_ET_TECERA;
 
 // binary search
     int B = 0;
-- 
2.43.0


From 306f9941832b4b4dd75c982d459d2fa7979c4a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:41 +0000
Subject: [PATCH 111/134] fix: GetInt returned wrapped values for numbers out
 of range

---
 src/utils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 683a903..651374c 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -1066,7 +1066,7 @@ int  GetInt(const char *p)
     bool neg = (*p == '-');
     if (neg) p++;
 
-    int x = 0;
+    int64_t x = 0;
     if (p[0] == '0' && p[1] == 'x') // HEXADECIMAL !
     {
         p += 2;
@@ -1109,6 +1109,7 @@ int  GetInt(const char *p)
             
                      
             }
+            if (x > 0xffffffffLL) return INT_NULL_VALUE; // doesn't fit into 32 bits
             p++;
         }
     }
@@ -1118,7 +1119,10 @@ int  GetInt(const char *p)
         if (!isdigit(*p)) return INT_NULL_VALUE;
 
         while (isdigit(*p))
+        {
             x = x *10 + (*(p++) - '0');
+            if (x > 0x7fffffffLL) return INT_NULL_VALUE; // doesn't fit into int
+        }
     }
     
     return neg ? -x : x;
-- 
2.43.0


From ba3c031ec43d691e43ac62ec9fc940a55be111e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:34 +0000
Subject: [PATCH 112/134] fix: reader which is not opened returned invalid
 strings for relative pointers

---
 include/binary_xml/bin_xml.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/binary_xml/bin_xml.h b/include/binary_xml/bin_xml.h
index e8c4a98..555e4b1 100644
--- a/include/binary_xml/bin_xml.h
+++ b/include/binary_xml/bin_xml.h
@@ -212,8 +212,8 @@ public:
     inline tag_name_id_t getNodeID(const char *name) const          { return static_cast<tag_name_id_t>(tag_symbols.getID(name));}
     inline param_name_id_t getParamID(const char *name) const       { return static_cast<param_name_id_t>(param_symbols.getID(name));}
     inline XML_Item *getRoot() const                                { return (THIS_IS_NULL ? nullptr : data);}
-    inline uint32_t getRelPtr(const char *value) const              { return (doc != nullptr && value > reinterpret_cast<char*>(doc) && value < reinterpret_cast<char*>(doc) + size ? (uint32_t)(value - reinterpret_cast<char*>(doc) ) : 0); } 
-    inline const char *getString(uint32_t rel_ptr) const            { return (doc != nullptr && rel_ptr != 0 && rel_ptr < size ? (const char *) doc + rel_ptr : nullptr); }
+    inline uint32_t getRelPtr(const char *value) const              { return (data != nullptr && value > reinterpret_cast<char*>(doc) && value < reinterpret_cast<char*>(doc) + size ? (uint32_t)(value - reinterpret_cast<char*>(doc) ) : 0); } 
+    inline const char *getString(uint32_t rel_ptr) const            { return (data != nullptr && rel_ptr != 0 && rel_ptr < size ? (const char *) doc + rel_ptr : nullptr); }
 
     friend std::ostream& operator<<(std::ostream& os,  XB_reader& R);
 
-- 
2.43.0


From deef5e72d10b9f2f28a1bb70392d29fef8459d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:35 +0000
Subject: [PATCH 113/134] fix: target directory as long as a path overflowed
 buffer in AllocFilenameChangeExt

---
 src/utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index 651374c..571b68a 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -234,6 +234,7 @@ char *AllocFilenameChangeExt(const char *filename,const char *extension,const ch
 
         STRCPY(filepath,target_dir);
         int len = strlen(filepath);
+        if (len > PATH_MAX-2) len = PATH_MAX-2; // separator and terminator must fit
         filepath[len++] = '/';
         strncpy(filepath+len,filename,PATH_MAX-len-1);
     }
-- 
2.43.0


From fd12a2ec5c0a1653360ab5262bcfcacfb8cd5f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:39 +0000
Subject: [PATCH 114/134] fix: time zone was ignored in time without
 milliseconds and when it was malformed

---
 src/utils.cpp | 55 +++++++++++++++++++++++++--------------------------
 1 file changed, 27 insertions(+), 28 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 571b68a..b0caf51 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -537,38 +537,37 @@ bool ScanUnixTime64msec(const char *&p,int64_t &value)
 
     if (!ScanUnixTime(p,tm32)) return false;
     int64_t tm64 = tm32;
-    if (*p != '.') 
+    bool zone_expected = memchr(start,'T',p-start) != nullptr;
+    int v000 = 0;
+    if (*p == '.') 
     {
-        value = (int64_t)tm32*1000; // whole seconds only
-        return true;  // OK
-    }
-    p++;
+        p++;
 
-    if (*p < '0' || *p > '9') return false;
-    int v000 = 100 * (*(p++) - '0');
-    if (*p < '0' || *p > '9') return false;
-    v000 += 10 * (*(p++) - '0');
-    if (*p < '0' || *p > '9') return false;
-    v000 += (*(p++) - '0');
+        if (*p < '0' || *p > '9') return false;
+        v000 = 100 * (*(p++) - '0');
+        if (*p < '0' || *p > '9') return false;
+        v000 += 10 * (*(p++) - '0');
+        if (*p < '0' || *p > '9') return false;
+        v000 += (*(p++) - '0');
 
-    if (start[10] == 'T') // zone expected
-    {
     // skip next decimals
-        while (*p >= '0' && *p <= '9') p++;
-        if (*p == 'Z') ;// UTC
-        else if (*p == '+' || *p == '-')
-        {
-            char sign = *(p++);
-            int hour,min;
-            if (ScanInt(p,hour) && *p == ':' && ScanInt(++p,min))
-            {
-                if (sign == '+')
-                    tm64 -= hour*3600 + min*60; 
-                else
-                    tm64 += hour*3600 + min*60; 
-            }
-        }
-            
+        if (zone_expected)
+            while (*p >= '0' && *p <= '9') p++;
+    }
+
+    if (*p == 'Z') p++; // UTC
+    else if (zone_expected && (*p == '+' || *p == '-'))
+    {
+        char sign = *(p++);
+        int hour,min;
+        if (!isdigit(*p) || !ScanInt(p,hour) || hour > 23 || *p != ':') return false;
+        p++;
+        if (!isdigit(*p) || !ScanInt(p,min) || min > 59) return false;
+
+        if (sign == '+')
+            tm64 -= hour*3600 + min*60; 
+        else
+            tm64 += hour*3600 + min*60; 
     }
 
     value = v000 + tm64 * 1000;
-- 
2.43.0


From 4cadb705a7de939727f7a8696364eec064c34ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:49 +0000
Subject: [PATCH 115/134] fix: malformed text and numbers out of range were
 converted to different values by XBT_FromString

---
 src/bin_xml_types.cpp | 80 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 60 insertions(+), 20 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index c7cff02..64e9aff 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -3,7 +3,11 @@
 #include <binary_xml/utils.h>
 #include <binary_xml/bin_xml.h>
 #include <assert.h>
+#include <ctype.h>
+#include <errno.h>
+#include <stdlib.h>
 
+#include <cmath>
 #include <string>
 
 namespace pklib_xml
@@ -594,11 +598,40 @@ bool XBT_Copy(const char *src,XML_Binary_Type type,int size,char **_wp,char *lim
     return true; // OK
 }
 
+static bool XBT_IsEnd(const char *p)
+// nothing else follows converted value
+{
+    SkipSpaces(p);
+    return *p == '\0';
+}
+
+static bool str2int(const char *src,int32_t &dst)
+// return false when text is not a number or doesn't fit into 32 bits
+{
+    char *end;
+    errno = 0;
+    int64_t value = strtoll(src,&end,10);
+    if (end == src || !XBT_IsEnd(end) || errno == ERANGE || value != (int32_t)value) return false;
+    dst = value;
+    return true;
+}
+
+static bool str2double(const char *src,double &dst)
+// return false when text is not a number or its value is out of range
+{
+    char *end;
+    errno = 0;
+    dst = strtod(src,&end);
+    return end != src && XBT_IsEnd(end) && !(errno == ERANGE && std::isinf(dst));
+}
+
 static bool str2dec(const char *src,int decimals,int32_t &dst)
-// return false when value doesn't fit into 32 bits
+// return false when text is not a number or its value doesn't fit into 32 bits with these decimals
 {
+    SkipSpaces(src);
     bool neg = (*src == '-');
-    if (neg) src++;
+    if (neg || *src == '+') src++;
+    if (!isdigit(*src) && !(*src == '.' && isdigit(src[1]))) return false; // no number
 
     const int64_t limit = neg ? 0x80000000LL : 0x7fffffffLL;
     int64_t value = 0;
@@ -618,7 +651,9 @@ static bool str2dec(const char *src,int decimals,int32_t &dst)
             src++;
             decimals--;
         }
+        while (*src == '0') src++; // other decimals would be lost
     }
+    if (!XBT_IsEnd(src)) return false;
     while (decimals > 0)
     {
         value *= 10;
@@ -642,7 +677,7 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
             
         case XBT_INT32:
             AA(*_wp);
-            *reinterpret_cast<int32_t*>(*_wp) = atoi(src);
+            if (!str2int(src,*reinterpret_cast<int32_t*>(*_wp))) return false;
             *_wp += sizeof(int32_t);
             return true;
         
@@ -675,7 +710,7 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
             {
                 AA(*_wp);
                 uint32_t ip_addr;
-                if (ScanIPv4(src,ip_addr))
+                if (ScanIPv4(src,ip_addr) && XBT_IsEnd(src))
                 {
                     *reinterpret_cast<int32_t*>(*_wp) = ip_addr;
                     *_wp += sizeof(int32_t);
@@ -689,7 +724,7 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
         case XBT_INT64:
             {
                 int64_t v;
-                ASSERT_NO_RET_FALSE(2022,ScanInt64(src,v));
+                ASSERT_NO_RET_FALSE(2022,ScanInt64(src,v) && XBT_IsEnd(src));
                 AA8(*_wp);
                 *reinterpret_cast<int64_t*>(*_wp) = v;
                 *_wp += sizeof(int64_t);
@@ -698,7 +733,7 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
         case XBT_UINT32:
             {
                 uint64_t v;
-                ASSERT_NO_RET_FALSE(2146,ScanUInt64(src,v) && (v >> 32) == 0);
+                ASSERT_NO_RET_FALSE(2146,ScanUInt64(src,v) && (v >> 32) == 0 && XBT_IsEnd(src));
                 AA(*_wp);
                 *reinterpret_cast<uint32_t*>(*_wp) = v;
                 *_wp += sizeof(uint32_t);
@@ -707,7 +742,7 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
         case XBT_UINT64:
             {
                 uint64_t v;
-                ASSERT_NO_RET_FALSE(2124,ScanUInt64(src,v));
+                ASSERT_NO_RET_FALSE(2124,ScanUInt64(src,v) && XBT_IsEnd(src));
                 AA8(*_wp);
                 *reinterpret_cast<uint64_t*>(*_wp) = v;
                 *_wp += sizeof(uint64_t);
@@ -723,14 +758,14 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
                 AA(*_wp);
                 int scanned = ScanHex(src,reinterpret_cast<uint8_t *>(*_wp),16);
                 *_wp += scanned;
-                return scanned == 16;
+                return scanned == 16 && XBT_IsEnd(src);
             }
         case XBT_SHA1:
             {
                 AA(*_wp);
                 int scanned = ScanHex(src,reinterpret_cast<uint8_t *>(*_wp),20);
                 *_wp += scanned;
-                return scanned == 20;
+                return scanned == 20 && XBT_IsEnd(src);
             }
         case XBT_HEX:
             {
@@ -739,28 +774,33 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
                 *_wp += sizeof(int32_t);
                 *size = ScanHex(src,reinterpret_cast<uint8_t *>(*_wp),limit - *_wp);
                 *_wp += *size;
-                return true;
+                return XBT_IsEnd(src);
             }
         case XBT_FLOAT:
-            AA(*_wp);
-            *reinterpret_cast<float*>(*_wp) = atof(src);
-            *_wp += sizeof(float);
-            return true;
+            {
+                AA(*_wp);
+                double v;
+                if (!str2double(src,v)) return false;
+                if (std::isinf(static_cast<float>(v)) && !std::isinf(v)) return false; // out of range
+                *reinterpret_cast<float*>(*_wp) = v;
+                *_wp += sizeof(float);
+                return true;
+            }
         case XBT_DOUBLE:
             AA8(*_wp);
-            *reinterpret_cast<double*>(*_wp) = atof(src);
+            if (!str2double(src,*reinterpret_cast<double*>(*_wp))) return false;
             *_wp += sizeof(double);
             return true;
         case XBT_UNIX_TIME:
             {
                 AA(*_wp);
-                uint32_t tm0;
-                if (!ScanUnixTime(src,tm0))
+                int64_t tm0;
+                if (!ScanUnixTime64msec(src,tm0) || !XBT_IsEnd(src) || tm0 % 1000 != 0 || tm0 < 0 || tm0/1000 > 0xffffffffLL)
                 {
                     fprintf(stderr,"UNIX_TIME: Conversion of value '%s' to binary representation failed!" ANSI_RESET_LF,src);
                     return false;
                 }
-                *reinterpret_cast<uint32_t*>(*_wp) = tm0;
+                *reinterpret_cast<uint32_t*>(*_wp) = tm0/1000;
                 *_wp += sizeof(uint32_t);
                 return true;
             }
@@ -768,7 +808,7 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
             {
                 AA8(*_wp);
                 int64_t tm0;
-                if (!ScanUnixTime64msec(src,tm0))
+                if (!ScanUnixTime64msec(src,tm0) || !XBT_IsEnd(src))
                 {
                     fprintf(stderr,"UNIX_TIME64_MSEC: Conversion of value '%s' to binary representation failed!" ANSI_RESET_LF,src);
                     return false;
@@ -781,7 +821,7 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
             {
                 AA(*_wp);
                 int32_t dt0;
-                if (!ScanUnixDate(src,dt0))
+                if (!ScanUnixDate(src,dt0) || !XBT_IsEnd(src))
                 {
                     fprintf(stderr,"UNIX_DATE: Conversion of value '%s' to binary representation failed!" ANSI_RESET_LF,src);
                     return false;
-- 
2.43.0


From 98405badcb7d6b8efbaf97ea931d176fabb75f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:55 +0000
Subject: [PATCH 116/134] fix: times before 1970 and after 2106 were printed
 but could not be read by ScanUnixTime64msec

---
 src/utils.cpp | 57 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 22 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index b0caf51..f962b91 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -462,10 +462,36 @@ static bool IsDayOfMonth(int year,int month,int day)
 
 const int MAX_DAY = 0xffffffff/(24*60*60);
 
+static bool ScanTimeOfDay(const char *&p,int &value)
+// optional time after date
+{
+    int hour,minute,second;
+
+    value = 0;
+    if (*p == '\0') return true; // end of string
+    if (*p != ' ' && *p != 'T') return false;
+    p++;
+    
+    if (!ScanInt(p,hour) || hour < 0 || hour > 23) return false;    
+    value += hour*3600;
+    if (*p == '\0') return true; // end of string
+    if (*p != ':') return false;
+    p++;
+
+    if (!ScanInt(p,minute) || minute < 0 || minute > 59) return false;    
+    value += minute*60;
+    if (*p != ':') return false;
+    p++;
+
+    if (!ScanInt(p,second) || second < 0 || second > 59) return false;    
+    value += second;
+    return true;
+}
+
 bool ScanUnixTime(const char *&p,uint32_t &value)
 {
     value = 0;
-    int year,month,day,hour,minute,second;
+    int year,month,day;
 
     const char *beg = p;
 
@@ -506,37 +532,24 @@ bool ScanUnixTime(const char *&p,uint32_t &value)
     value *= 24*60*60;
     const uint32_t day_start = value;
 
-    if (*p == '\0') return true; // end of string
-    if (*p != ' ' && *p != 'T') return false;
-    p++;
-    
-    if (!ScanInt(p,hour) || hour < 0 || hour > 23) return false;    
-    value += hour*3600;
+    int second_of_day;
+    if (!ScanTimeOfDay(p,second_of_day)) return false;
+    value += second_of_day;
     if (day_start > value) return false; // last day is not complete in 32 bits
-    if (*p == '\0') return true; // end of string
-    if (*p != ':') return false;
-    p++;
-
-    if (!ScanInt(p,minute) || minute < 0 || minute > 59) return false;    
-    value += minute*60;
-    if (*p != ':') return false;
-    p++;
-
-    if (!ScanInt(p,second) || second < 0 || second > 59) return false;    
-    value += second;
-    if (day_start > value) return false;
     return true;
 }
 
 bool ScanUnixTime64msec(const char *&p,int64_t &value)
 {
     value = 0;
-    uint32_t tm32;
+    int32_t days;
+    int seconds;
 
     const char *start = p;
 
-    if (!ScanUnixTime(p,tm32)) return false;
-    int64_t tm64 = tm32;
+    if (!ScanUnixDate(p,days)) return false;
+    if (!ScanTimeOfDay(p,seconds)) return false;
+    int64_t tm64 = (int64_t)days*24*60*60 + seconds; // any time, not only 32 bits
     bool zone_expected = memchr(start,'T',p-start) != nullptr;
     int v000 = 0;
     if (*p == '.') 
-- 
2.43.0


From 151ca4d7d306f12cee120c287a972ddb658e88eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:48 +0000
Subject: [PATCH 117/134] fix: IPv4 addresses were compared from the last byte

---
 src/bin_xml_types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 64e9aff..8b699a0 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -400,6 +400,7 @@ int XBT_Compare(XML_Binary_Type A_type,const void *A_value,int A_size,XML_Binary
             case XBT_UNIX_DATE: RETURN_COMPARE_OF_TYPE(int32_t);
             case XBT_UINT32:    RETURN_COMPARE_OF_TYPE(uint32_t);
             case XBT_UNIX_TIME: RETURN_COMPARE_OF_TYPE(uint32_t);
+            case XBT_IPv4:      RETURN_COMPARE_OF_TYPE(uint32_t);
             case XBT_UNIX_TIME64_MSEC: RETURN_COMPARE_OF_TYPE(int64_t); 
             case XBT_INT64:     RETURN_COMPARE_OF_TYPE(int64_t);
             case XBT_UINT64:    RETURN_COMPARE_OF_TYPE(uint64_t);
@@ -414,7 +415,6 @@ int XBT_Compare(XML_Binary_Type A_type,const void *A_value,int A_size,XML_Binary
             case XBT_HEX:
             case XBT_GUID:
             case XBT_SHA1:
-            case XBT_IPv4:
             case XBT_IPv6:
                                 if (A_size == B_size) // the same size
                                     return memcmp(A_value,B_value,A_size);
-- 
2.43.0


From 28884ca8b5b2c023601c61d8652b2b0926e10044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:48 +0000
Subject: [PATCH 118/134] fix: equal BLOB_STRING keys were not equal when one
 of them was changed or had more allocated space

---
 src/bin_xml_types.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 8b699a0..d670c7b 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -1310,6 +1310,8 @@ bool XBT_Equal(XML_Binary_Data_Ref A,XML_Binary_Data_Ref B)
         else
             return false; // no compare of any types
     }
+    else if (A.type == XBT_BLOB_STRING) // only text is important, not allocated size and content after text
+        return XBT_Compare(A.type,A.data,A.size,B.type,B.data,B.size) == 0;
     if (A.size != B.size) return false;
     return memcmp(A.data,B.data,A.size) == 0;
 }
-- 
2.43.0


From 260a403641c17fd1c9acaea5ce81072bbb50455e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:09 +0000
Subject: [PATCH 119/134] fix: a damaged symbol index of a reopened pool was
 used for the message about it

---
 src/bin_write_plugin.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 49b51c0..b02cdb7 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1444,7 +1444,10 @@ bool BW_symbol_table_16B::check(BW_pool *pool)
     for(int i = 0;i <= max_id;i++)
     {
         // index reference must be in range of correct names, otherwise index is invalid
-        ASSERT_NO_RET_FALSE(2109,elements[i] >= names_offset && elements[i] < names_offset + names_size);
+        if (elements[i] >= names_offset && elements[i] < names_offset + names_size) continue;
+        index = 0; // never use it again - not even for name of document in the following message
+        LOG_ERROR("[A2109] %s - invalid index",pool->getDocTypeName());
+        return false;
     }
     return true; // OK
 }
-- 
2.43.0


From 51e4c071b63d0f3ab8f2d338c2b879aa80958dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:09 +0000
Subject: [PATCH 120/134] fix: differences of dictionary were forgotten and
 equal symbols refused when a reopened pool had no index

---
 src/bin_write_plugin.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index b02cdb7..5635409 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2063,9 +2063,10 @@ bool BW_plugin::registerTag(int16_t id,const char *name,XML_Binary_Type type)
     if (check_only)
     {
         bool ok1 = (id >= 0 && id <= pool->tags.max_id);
-        const char *name_stored = pool->getTagName(id);
+        const char *name_stored = ok1 ? pool->tags.getName(pool,id) : nullptr; // index may be missing
         bool ok2 = name_stored != nullptr && strcmp(name,name_stored) == 0;
-        XML_Binary_Type type_stored = pool->getTagType(id);
+        const XML_Binary_Type_Stored *type_ptr = ok1 ? pool->tags.getType(pool,id) : nullptr;
+        XML_Binary_Type type_stored = type_ptr != nullptr ? static_cast<XML_Binary_Type>(*type_ptr) : XBT_UNKNOWN;
         bool ok3 = (type_stored == type);
         
         if (ok1 && ok2 && ok3) return true; // OK
@@ -2113,9 +2114,10 @@ bool BW_plugin::registerAttr(int16_t id,const char *name,XML_Binary_Type type)
     if (check_only)
     {
         bool ok1 = (id >= 0 && id <= pool->params.max_id);
-        const char *name_stored = pool->getAttrName(id);
+        const char *name_stored = ok1 ? pool->params.getName(pool,id) : nullptr; // index may be missing
         bool ok2 = name_stored != nullptr && strcmp(name,name_stored) == 0;
-        XML_Binary_Type type_stored = pool->getAttrType(id);
+        const XML_Binary_Type_Stored *type_ptr = ok1 ? pool->params.getType(pool,id) : nullptr;
+        XML_Binary_Type type_stored = type_ptr != nullptr ? static_cast<XML_Binary_Type>(*type_ptr) : XBT_UNKNOWN;
         bool ok3 = (type_stored == type);
         
         if (ok1 && ok2 && ok3) return true; // OK
@@ -2294,6 +2296,7 @@ void BW_plugin::importParams(XB_reader *src)
 
 bool BW_plugin::allRegistered()
 {
+    if (check_only && check_failures != 0) return false; // different dictionary
     ASSERT_NO_RET_FALSE(1142,makeSpace(BW2_INITIAL_FILE_SIZE + sizeof(BW_offset_t) * (pool->tags.max_id + pool->params.max_id + 2)));
 //    BW_offset_t names_limit = pool->allocator;
     if (check_only && pool->tags.index != 0 && pool->params.index != 0)
-- 
2.43.0


From 084500e1c546fea740739cffaf4d8c941865c484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:12 +0000
Subject: [PATCH 121/134] fix: elements nested too deep exhausted stack when a
 file was checked or read

---
 include/binary_xml/bin_xml.h         |  1 +
 include/binary_xml/bin_xml_creator.h |  1 +
 src/bin_write_plugin.cpp             |  1 +
 src/bin_xml.cpp                      | 25 ++++++++++++++++---------
 src/bin_xml_creator.cpp              | 14 ++++++++++++++
 5 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/include/binary_xml/bin_xml.h b/include/binary_xml/bin_xml.h
index 555e4b1..c7a8f53 100644
--- a/include/binary_xml/bin_xml.h
+++ b/include/binary_xml/bin_xml.h
@@ -25,6 +25,7 @@ namespace pklib_xml
 const int SW_VERSION = 0x200;   // 0.2.0
 const int XB_FORMAT_VERSION = 0x00001;  // 0.1
 const int XML_MAX_DEEP = 1024;
+const int XML_MAX_TREE_DEEP = 4096;    // elements of file are processed recursively, deeper file would exhaust stack
 
 #define XB_FORMAT_VERSION 0x100
 //-------------------------------------------------------------------------------------------------
diff --git a/include/binary_xml/bin_xml_creator.h b/include/binary_xml/bin_xml_creator.h
index d869677..a953bcc 100644
--- a/include/binary_xml/bin_xml_creator.h
+++ b/include/binary_xml/bin_xml_creator.h
@@ -95,6 +95,7 @@ protected:
     int     total_node_count;
     int     total_param_count;
     int64_t total_text_size;    // entities can make texts longer than source file
+    int     tree_deep;          // deepest element, root is 0
 // 2nd pass to fill tables
     const char              **symbol_table[SYMBOL_TABLES_COUNT];
     XML_Binary_Type_Stored  *symbol_table_types[SYMBOL_TABLES_COUNT];
diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 5635409..78a98d9 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2899,6 +2899,7 @@ void BW_plugin::ForAllChildrenRecursively(OnElementRec_t on_element,void *parent
     if (parent == nullptr) return; // no attributes
     BW_element *E = reinterpret_cast<BW_element*>(parent);
     on_element(E,userdata,deep);
+    if (deep > XML_MAX_TREE_DEEP) return; // too deep for recursion, such tree cannot be stored to file
     if (E->first_child == 0) return; // no elements
     BW_element *child = BWE(E->first_child);
     for(;;)
diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index 757fe37..3012316 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -28,13 +28,13 @@ struct _XML_Checker
 {
     const XB_reader     &R;
     const char          *begin,*end;
-    std::vector<bool>   opened,closed;  // elements can be shared, but each is checked only once
+    static const uint16_t OPENED = 0xffff;
+    std::vector<uint16_t>   heights;    // of checked elements, 0 - not yet; elements can be shared, but each is checked only once
 
     _XML_Checker(const XB_reader &_R,const char *_begin,const char *_end,bool recursive) : R(_R),begin(_begin),end(_end)
     {
         if (!recursive) return;
-        opened.resize((end-begin)/4+1);
-        closed.resize((end-begin)/4+1);
+        heights.resize((end-begin)/4+1);
     }
 
     bool CheckValue(XML_Binary_Type type,const char *p,const char *limit) // p is aligned place of value
@@ -105,16 +105,23 @@ struct _XML_Checker
         return true;
     }
 
-    bool CheckTree(XML_Item *X)
+    bool CheckTree(XML_Item *X,int deep = 0)
     {
+        if (deep > XML_MAX_TREE_DEEP) return false; // recursion would exhaust stack
         if (!CheckElement(X)) return false;
         const size_t idx = (reinterpret_cast<const char*>(X) - begin) >> 2;
-        if (closed[idx]) return true;
-        if (opened[idx]) return false; // element inside of itself
-        opened[idx] = true;
+        if (heights[idx] == OPENED) return false; // element inside of itself
+        if (heights[idx] != 0) return deep + heights[idx] - 1 <= XML_MAX_TREE_DEEP; // already checked, but in other depth
+        heights[idx] = OPENED;
+        uint16_t height = 1;
         for(int i = 0;i < X->childcount;i++)
-            if (!CheckTree(X->getChildByIndex(i))) return false;
-        closed[idx] = true;
+        {
+            XML_Item *child = X->getChildByIndex(i);
+            if (!CheckTree(child,deep+1)) return false;
+            const uint16_t child_height = heights[(reinterpret_cast<const char*>(child) - begin) >> 2];
+            if (height <= child_height) height = child_height + 1;
+        }
+        heights[idx] = height;
         return true;
     }
 };
diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index dd093fe..bd89fff 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -398,11 +398,17 @@ bool Bin_xml_creator::Make_xb()
     this->total_node_count = 4; // service elements!
     this->total_param_count = 0;
     this->total_text_size = 0;
+    this->tree_deep = 0;
 
     void *root = src->getRoot();
     ASSERT_NO_RET_FALSE(1184,root != nullptr);
     // total_node_count, total_param_count
     src->ForAllChildrenRecursively(FirstPassEvent,root,(void*)this,0);
+    if (tree_deep + 2 > XML_MAX_TREE_DEEP) // document and payload are above root
+    {
+        std::cerr << "error: elements of " << src->getFilename() << " are nested too deep\n";
+        return false;
+    }
 
     FreeSymbolTable(); // from previous conversion
     CopySymbolTable() || MakeSymbolTable();
@@ -574,7 +580,13 @@ bool Bin_xml_creator::Append(void *element)
     this->total_node_count = 0;
     this->total_param_count = 0;
     this->total_text_size = 0;
+    this->tree_deep = 0;
     src->ForAllChildrenRecursively(FirstPassEvent,element,(void*)this,0);
+    if (tree_deep > XML_MAX_TREE_DEEP)
+    {
+        std::cerr << "error: elements of " << src->getFilename() << " are nested too deep\n";
+        return false;
+    }
     int64_t size_needed = 1024 + (int64_t)total_node_count*64 + (int64_t)total_param_count*32 + total_text_size;
     if (size_needed + file_info.st_size > INT32_MAX)
     {
@@ -630,6 +642,7 @@ void Bin_xml_creator::FirstPassEvent(void *element,void *userdata,int deep)
     assert(element != nullptr);
     Bin_xml_creator *_this = reinterpret_cast<Bin_xml_creator*>(userdata);
     _this->total_node_count++;
+    if (deep > _this->tree_deep) _this->tree_deep = deep;
     if (!_this->src->ForAllBinParams(FirstPassBinParamEvent,element,userdata)) // this is faster!
         _this->src->ForAllParams(FirstPassParamEvent,element,userdata);
 
@@ -725,6 +738,7 @@ bool Bin_xml_creator::Make_xbw()
     this->total_node_count = 4; // service elements!
     this->total_param_count = 0;
     this->total_text_size = 0;
+    this->tree_deep = 0;
 
     void *root = src->getRoot();
     ASSERT_NO_RET_FALSE(2052,root != nullptr);
-- 
2.43.0


From 8d1009fe467fe72c304e3d556945b73b2b9ea136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:31 +0000
Subject: [PATCH 122/134] fix: times of years in millions were stored as other
 moments

---
 src/utils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index f962b91..6253de3 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -510,6 +510,11 @@ bool ScanUnixTime(const char *&p,uint32_t &value)
         fprintf(stderr,"Unsupported year %d! Unix epoch starts at 1970.",year);
         return false;
     }
+    if (year > 2106) // number of days could overflow too
+    {
+        fprintf(stderr,"Date %s exceed 32 bit unsigned int! Please use different type.",beg);
+        return false;
+    }
 
     value = (year - 1970) * 365;
     value += (year - 1968 - 1) / 4;   // -1 don't add 1 day for this year now
-- 
2.43.0


From 3c30fdaceb60ca692dc6ffc2ec57a34d8ff667c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:09 +0000
Subject: [PATCH 123/134] fix: an element with over 32767 attributes crashed
 conversion to .xb

---
 include/binary_xml/bin_xml_creator.h |  1 +
 src/bin_xml_creator.cpp              | 16 ++++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/include/binary_xml/bin_xml_creator.h b/include/binary_xml/bin_xml_creator.h
index a953bcc..7e59be1 100644
--- a/include/binary_xml/bin_xml_creator.h
+++ b/include/binary_xml/bin_xml_creator.h
@@ -96,6 +96,7 @@ protected:
     int     total_param_count;
     int64_t total_text_size;    // entities can make texts longer than source file
     int     tree_deep;          // deepest element, root is 0
+    int     max_param_count;    // of one element
 // 2nd pass to fill tables
     const char              **symbol_table[SYMBOL_TABLES_COUNT];
     XML_Binary_Type_Stored  *symbol_table_types[SYMBOL_TABLES_COUNT];
diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index bd89fff..ac0eb37 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -399,6 +399,7 @@ bool Bin_xml_creator::Make_xb()
     this->total_param_count = 0;
     this->total_text_size = 0;
     this->tree_deep = 0;
+    this->max_param_count = 0;
 
     void *root = src->getRoot();
     ASSERT_NO_RET_FALSE(1184,root != nullptr);
@@ -409,6 +410,11 @@ bool Bin_xml_creator::Make_xb()
         std::cerr << "error: elements of " << src->getFilename() << " are nested too deep\n";
         return false;
     }
+    if (max_param_count > INT16_MAX) // XML_Item::paramcount
+    {
+        std::cerr << "error: element of " << src->getFilename() << " has too many attributes\n";
+        return false;
+    }
 
     FreeSymbolTable(); // from previous conversion
     CopySymbolTable() || MakeSymbolTable();
@@ -581,12 +587,18 @@ bool Bin_xml_creator::Append(void *element)
     this->total_param_count = 0;
     this->total_text_size = 0;
     this->tree_deep = 0;
+    this->max_param_count = 0;
     src->ForAllChildrenRecursively(FirstPassEvent,element,(void*)this,0);
     if (tree_deep > XML_MAX_TREE_DEEP)
     {
         std::cerr << "error: elements of " << src->getFilename() << " are nested too deep\n";
         return false;
     }
+    if (max_param_count > INT16_MAX) // XML_Item::paramcount
+    {
+        std::cerr << "error: element of " << src->getFilename() << " has too many attributes\n";
+        return false;
+    }
     int64_t size_needed = 1024 + (int64_t)total_node_count*64 + (int64_t)total_param_count*32 + total_text_size;
     if (size_needed + file_info.st_size > INT32_MAX)
     {
@@ -643,8 +655,11 @@ void Bin_xml_creator::FirstPassEvent(void *element,void *userdata,int deep)
     Bin_xml_creator *_this = reinterpret_cast<Bin_xml_creator*>(userdata);
     _this->total_node_count++;
     if (deep > _this->tree_deep) _this->tree_deep = deep;
+    int other_params = _this->total_param_count;
     if (!_this->src->ForAllBinParams(FirstPassBinParamEvent,element,userdata)) // this is faster!
         _this->src->ForAllParams(FirstPassParamEvent,element,userdata);
+    if (_this->total_param_count - other_params > _this->max_param_count)
+        _this->max_param_count = _this->total_param_count - other_params;
 
     XML_Binary_Type type = XBT_UNKNOWN;
     int size = 0;
@@ -739,6 +754,7 @@ bool Bin_xml_creator::Make_xbw()
     this->total_param_count = 0;
     this->total_text_size = 0;
     this->tree_deep = 0;
+    this->max_param_count = 0;
 
     void *root = src->getRoot();
     ASSERT_NO_RET_FALSE(2052,root != nullptr);
-- 
2.43.0


From c02d4e28296ca79312a4038d5ba9b2af3ececf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:53 +0000
Subject: [PATCH 124/134] fix: symbols registered with a gap, an id already
 used or over 32768 were lost without notice

---
 src/bin_write_plugin.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 78a98d9..62d0725 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2075,6 +2075,15 @@ bool BW_plugin::registerTag(int16_t id,const char *name,XML_Binary_Type type)
         return false;
     }
     ASSERT_NO_RET_FALSE(10441,makeSpace(pool->tags.getNamesSize(pool) + strlen(name) + 64)); // copy of table + new symbol
+    if (id >= 0 && id <= pool->tags.max_id) // already registered - must be the same
+    {
+        const char *name_stored = pool->tags.getName(pool,id);
+        const XML_Binary_Type_Stored *type_ptr = pool->tags.getType(pool,id);
+        if (name_stored != nullptr && strcmp(name,name_stored) == 0 && type_ptr != nullptr && *type_ptr == type) return true;
+        LOG_ERROR("registerTag(%d,%s,%s) failed - id is already used for %s",id,name,XML_BINARY_TYPE_NAMES[type],name_stored);
+        return false;
+    }
+    ASSERT_NO_RET_FALSE(10458,id == pool->tags.max_id+1); // symbol with gap before it would be lost
     ASSERT_NO_RET_NULL(2108,pool->tags.Open(pool)); // must be opened
 // elements must be defined first
 //    ASSERT_NO_RET_FALSE(1108,pool->params.names_offset == 0);
@@ -2126,6 +2135,15 @@ bool BW_plugin::registerAttr(int16_t id,const char *name,XML_Binary_Type type)
         return false;
     }
     ASSERT_NO_RET_FALSE(10442,makeSpace(pool->params.getNamesSize(pool) + strlen(name) + 64)); // copy of table + new symbol
+    if (id >= 0 && id <= pool->params.max_id) // already registered - must be the same
+    {
+        const char *name_stored = pool->params.getName(pool,id);
+        const XML_Binary_Type_Stored *type_ptr = pool->params.getType(pool,id);
+        if (name_stored != nullptr && strcmp(name,name_stored) == 0 && type_ptr != nullptr && *type_ptr == type) return true;
+        LOG_ERROR("registerAttr(%d,%s,%s) failed - id is already used for %s",id,name,XML_BINARY_TYPE_NAMES[type],name_stored);
+        return false;
+    }
+    ASSERT_NO_RET_FALSE(10459,id == pool->params.max_id+1); // symbol with gap before it would be lost
     ASSERT_NO_RET_NULL(2098,pool->params.Open(pool)); // must be opened
 
 // elements must be defined first, empty element are not allowed!
@@ -2175,6 +2193,7 @@ XML_Tag_Names   BW_plugin::registerTag(const char *name,XML_Binary_Type type)
             return static_cast<XML_Tag_Names>(id);
         }
     }
+    ASSERT_NO_RET_(10460,pool->tags.max_id < INT16_MAX,XTNR_NULL); // no more ids
     ASSERT_NO_RET_(10443,makeSpace(pool->tags.getNamesSize(pool) + strlen(name) + 64),XTNR_NULL); // copy of table + new symbol
     ASSERT_NO_RET_(2099,pool->tags.Open(pool),XTNR_NULL); // must be opened
 
@@ -2222,6 +2241,7 @@ XML_Param_Names BW_plugin::registerParam(const char *name,XML_Binary_Type type)
 // elements must be defined first, empty element are not allowed!
     ASSERT_NO_RET_(2119,pool->tags.names_offset != 0,XPNR_NULL);
 // must be opened
+    ASSERT_NO_RET_(10461,pool->params.max_id < INT16_MAX,XPNR_NULL); // no more ids
     ASSERT_NO_RET_(10444,makeSpace(pool->params.getNamesSize(pool) + strlen(name) + 64),XPNR_NULL); // copy of table + new symbol
     ASSERT_NO_RET_(2121,pool->params.Open(pool),XPNR_NULL); 
 
-- 
2.43.0


From 68760db6c166fac01945845332a5ad1a5e9842a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:03 +0000
Subject: [PATCH 125/134] fix: converting or comparing a text longer than stack
 crashed

---
 src/bin_write_plugin.cpp | 22 ++++++++++++----------
 src/bin_xml_types.cpp    | 22 ++++++++++++----------
 2 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 62d0725..fbabb27 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -17,6 +17,7 @@
 
 #include <sys/mman.h>
 #include <assert.h>
+#include <vector>
 
 #define NOT_IMPLEMENTED false // used in assert
 #define THIS reinterpret_cast<char*>(this)
@@ -633,11 +634,11 @@ BW_element*     BW_element::attrData(int16_t id,XML_Binary_Data_Ref &data)
     { // default conversion
         // this is not so easy
         // I must know the size of target representation before I start
-        char *buffer = reinterpret_cast<char*>(alloca(data.size+64)); // binary representation should fit into it's string representation size
-        char *p = buffer;
+        std::vector<char> buffer(data.size+64); // binary representation should fit into it's string representation size, text can be longer than stack
+        char *p = buffer.data();
         //bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
-        ASSERT_NO_RET_NULL(1995,XBT_FromString(data.data,attr_type,&p,buffer+data.size+64));
-        int target_data_size = p - buffer;
+        ASSERT_NO_RET_NULL(1995,XBT_FromString(data.data,attr_type,&p,buffer.data()+buffer.size()));
+        int target_data_size = p - buffer.data();
 
         if (pool->allocator + (int)sizeof(BW_element) + target_data_size + 16 > pool->allocator_limit) // need makeSpace
         {
@@ -650,7 +651,7 @@ BW_element*     BW_element::attrData(int16_t id,XML_Binary_Data_Ref &data)
 
         attr->init(pool,id,attr_type,BIN_WRITE_ATTR_FLAG);
 
-        memcpy(attr+1,buffer,target_data_size);
+        memcpy(attr+1,buffer.data(),target_data_size);
 
         add(attr);
     }
@@ -2677,17 +2678,18 @@ BW_element* BW_plugin::tagData(int16_t id,XML_Binary_Data_Ref &data)
     const char *value = data.data; // data belongs to the caller
     int value_size = data.size;
 
+    std::vector<char> buffer; // text can be longer than stack
     XML_Binary_Type tag_type = pool->getTagType(id);
     if (tag_type != data.type)
     {
         ASSERT_NO_RET_NULL(2001,data.type == XBT_STRING); // only supported conversion
-        char *buffer = reinterpret_cast<char*>(alloca(data.size+64));
-        char *p = buffer;
-        char *p_limit = buffer + data.size + 64;
+        buffer.resize(data.size+64);
+        char *p = buffer.data();
+        char *p_limit = buffer.data() + buffer.size();
         // bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
         ASSERT_NO_RET_NULL(2004,XBT_FromString(data.data,tag_type,&p,p_limit));
-        value = buffer;
-        value_size = p - buffer;
+        value = buffer.data();
+        value_size = p - buffer.data();
     }
 
     BW_element* result = reinterpret_cast<BW_element*>(pool->allocate8(sizeof(BW_element)+value_size));
diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index d670c7b..e01edf0 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -9,6 +9,7 @@
 
 #include <cmath>
 #include <string>
+#include <vector>
 
 namespace pklib_xml
 {
@@ -1285,27 +1286,28 @@ void XBT_ToXMLStream(XML_Binary_Type type,const char *data,std::ostream &os,bool
 
 bool XBT_Equal(XML_Binary_Data_Ref A,XML_Binary_Data_Ref B)
 {
+    std::vector<char> buffer; // text can be longer than stack
     if (A.type != B.type)
     {
         if (A.type == XBT_STRING)
         {
-            char *buffer = reinterpret_cast<char*>(alloca(A.size+64));
-            char *buffer_limit = buffer+A.size+64;
-            char *p = buffer;
+            buffer.resize(A.size+64);
+            char *buffer_limit = buffer.data()+buffer.size();
+            char *p = buffer.data();
             if (!XBT_FromString(A.data,B.type,&p,buffer_limit)) return false; // cannot convert
 
-            A.data = buffer;
-            A.size = p - buffer;
+            A.data = buffer.data();
+            A.size = p - buffer.data();
         }
         else if (B.type == XBT_STRING)
         {
-            char *buffer = reinterpret_cast<char*>(alloca(B.size+64));
-            char *buffer_limit = buffer+B.size+64;
-            char *p = buffer;
+            buffer.resize(B.size+64);
+            char *buffer_limit = buffer.data()+buffer.size();
+            char *p = buffer.data();
             if (!XBT_FromString(B.data,A.type,&p,buffer_limit)) return false; // cannot convert
 
-            B.data = buffer;
-            B.size = p - buffer;
+            B.data = buffer.data();
+            B.size = p - buffer.data();
         }
         else
             return false; // no compare of any types
-- 
2.43.0


From c0835a7dd43f8798416be36478d8d809a5b6036e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:23 +0000
Subject: [PATCH 126/134] fix: sorting an array over 2 GB computed negative
 offsets

---
 src/missings.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/missings.cpp b/src/missings.cpp
index 3bd517a..86901f8 100644
--- a/src/missings.cpp
+++ b/src/missings.cpp
@@ -21,7 +21,7 @@ void qsort_r2(void *base, int nmemb, int size,
     if (nmemb < 2) return;
 
     char *temp = (char*)alloca(size);
-#define BASE(idx) ((char*)base + (size)*(idx))
+#define BASE(idx) ((char*)base + (size_t)(size)*(idx))
 
     char *pivot = (char*)alloca(size); // the middle element can be moved by swapping
     memcpy(pivot,BASE(nmemb / 2),size);
@@ -54,8 +54,8 @@ void mergesort_r2(void *base, int nmemb, int size,
     void *src = base;
     char *temp = new char[(size_t)size*(nmemb > 0 ? nmemb : 0)]; // can be too big for stack
     void *dst = temp;
-#define SRC(idx) ((char*)src + (size)*(idx))
-#define DST(idx) ((char*)dst + (size)*(idx))
+#define SRC(idx) ((char*)src + (size_t)(size)*(idx))
+#define DST(idx) ((char*)dst + (size_t)(size)*(idx))
     for(int merge_len = 1;merge_len < nmemb;merge_len <<= 1)
     {
         int D = 0;
-- 
2.43.0


From 62dea11768bee34bc5353017d2a611713247087c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:23 +0000
Subject: [PATCH 127/134] fix: qsort_r2 overflowed the stack on an unlucky
 order or on big elements

---
 src/missings.cpp | 63 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 41 insertions(+), 22 deletions(-)

diff --git a/src/missings.cpp b/src/missings.cpp
index 86901f8..08805bd 100644
--- a/src/missings.cpp
+++ b/src/missings.cpp
@@ -14,39 +14,58 @@ const SHA1_t SHA1_NULL = {{0}};
 const SHA1_t SHA1_NULL = {0};
 #endif
 
-void qsort_r2(void *base, int nmemb, int size,
+static void qsort_r2_part(void *base, int nmemb, int size,
                   int (*compar)(const void *, const void *, void *),
-                  void *arg)
+                  void *arg, char *pivot, char *temp)
 {
-    if (nmemb < 2) return;
-
-    char *temp = (char*)alloca(size);
 #define BASE(idx) ((char*)base + (size_t)(size)*(idx))
+    while (nmemb >= 2)
+    {
+        memcpy(pivot,BASE(nmemb / 2),size); // the middle element can be moved by swapping
 
-    char *pivot = (char*)alloca(size); // the middle element can be moved by swapping
-    memcpy(pivot,BASE(nmemb / 2),size);
+        int left = 0;
+        int right = nmemb - 1;
+        while (left <= right)
+        {
+            while (compar(BASE(left),pivot,arg) < 0) left++;
+            while (compar(BASE(right),pivot,arg) > 0) right--;
 
-    int left = 0;
-    int right = nmemb - 1;
-    while (left <= right)
-    {
-        while (compar(BASE(left),pivot,arg) < 0) left++;
-        while (compar(BASE(right),pivot,arg) > 0) right--;
+            if (left > right) break;
 
-        if (left > right) break;
+            memcpy(temp,BASE(left),size);
+            memcpy(BASE(left),BASE(right),size);
+            memcpy(BASE(right),temp,size);
+            left++;
+            right--;
+        }
 
-        memcpy(temp,BASE(left),size);
-        memcpy(BASE(left),BASE(right),size);
-        memcpy(BASE(right),temp,size);
-        left++;
-        right--;
+        // recursion only into the smaller part, so depth is at most log2(nmemb)
+        if (right + 1 < nmemb - left)
+        {
+            qsort_r2_part(base, right + 1, size,compar,arg,pivot,temp);
+            base = BASE(left);
+            nmemb -= left;
+        }
+        else
+        {
+            qsort_r2_part(BASE(left), nmemb - left, size,compar,arg,pivot,temp);
+            nmemb = right + 1;
+        }
     }
-
-    qsort_r2(base, right + 1,           size,compar,arg);
-    qsort_r2(BASE(left), nmemb - left,  size,compar,arg);
 #undef BASE
 }
 
+void qsort_r2(void *base, int nmemb, int size,
+                  int (*compar)(const void *, const void *, void *),
+                  void *arg)
+{
+    if (nmemb < 2) return;
+
+    char *buffer = new char[(size_t)size*2]; // pivot and temp, an element can be too big for stack
+    qsort_r2_part(base,nmemb,size,compar,arg,buffer,buffer + size);
+    delete [] buffer;
+}
+
 void mergesort_r2(void *base, int nmemb, int size,
                   int (*compar)(const void *, const void *, void *),
                   void *arg)
-- 
2.43.0


From 14de37957d9816ba16ac006ce8623a31df21fa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:24 +0000
Subject: [PATCH 128/134] fix: a file or a dangling link on the way was taken
 as a created directory

---
 src/files.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/files.cpp b/src/files.cpp
index 3b73955..5df06e5 100644
--- a/src/files.cpp
+++ b/src/files.cpp
@@ -30,7 +30,15 @@ bool force_directory(const char *directory, mode_t mode)
 //          D(std::cout << "Dbg: " << directory_part << "\n");
     
             if (err == 0) continue;// ok - created
-            if (errno == EEXIST) continue;// ok - already exists
+            if (errno == EEXIST) // ok - already exists, if it is a directory
+            {
+                struct stat part_info;
+                if (stat(directory_part,&part_info) == 0)
+                {
+                    if (S_ISDIR(part_info.st_mode)) continue;
+                    errno = ENOTDIR;
+                }
+            }
         
             ERRNO_SHOW(1009,"mkdir",directory_part);
             return false;
-- 
2.43.0


From ef050b5f516012627c0a3870956031d66b0551b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:17 +0000
Subject: [PATCH 129/134] fix: impossible sizes of values overflowed and were
 written outside of the pool

---
 include/binary_xml/bin_write_plugin.h |  2 +-
 src/bin_write_plugin.cpp              | 28 ++++++++++++++-------------
 src/bin_xml_types.cpp                 |  1 +
 3 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/include/binary_xml/bin_write_plugin.h b/include/binary_xml/bin_write_plugin.h
index 69773c1..035d812 100644
--- a/include/binary_xml/bin_write_plugin.h
+++ b/include/binary_xml/bin_write_plugin.h
@@ -285,7 +285,7 @@ public:
     BW_pool*    getPool() { return pool; }
     int         getFd() { return fd; }
     bool        isInitialized() { return initialized;}
-    bool makeSpace(int size);
+    bool makeSpace(int64_t size);
 
     bool registerTag(int16_t id,const char *name,XML_Binary_Type type);
     bool registerAttr(int16_t id,const char *name,XML_Binary_Type type);
diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index fbabb27..ee19fb9 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -658,12 +658,13 @@ BW_element*     BW_element::attrData(int16_t id,XML_Binary_Data_Ref &data)
     else
     {
         ASSERT_NO_RET_NULL(1992,attr_type == data.type);
+        ASSERT_NO_RET_NULL(10462,data.size >= 0);
 
-        if (pool->allocator + (int)sizeof(BW_element) + data.size + 16 > pool->allocator_limit) // need makeSpace
+        if (pool->allocator + (int64_t)sizeof(BW_element) + data.size + 16 > pool->allocator_limit) // need makeSpace
         {
             BW_plugin *plugin = plugins.getPlugin(pool);
             ASSERT_NO_RET_NULL(10449,plugin != nullptr);
-            ASSERT_NO_RET_NULL(10450,plugin->makeSpace(sizeof(BW_element)+data.size+16)); // + alignment
+            ASSERT_NO_RET_NULL(10450,plugin->makeSpace((int64_t)sizeof(BW_element)+data.size+16)); // + alignment
         }
         BW_element* attr      = reinterpret_cast<BW_element*>(pool->allocate8(sizeof(BW_element)+data.size));
         ASSERT_NO_RET_NULL(1993,attr != nullptr);
@@ -1071,7 +1072,7 @@ bool BW_element::setStr(BW_plugin *W,BW_element *parent,const char *value)
     else // must reallocate and it is not so easy
     {
         // replace by a bigger element of the same kind with the same content
-        ASSERT_NO_RET_FALSE(10445,W->makeSpace(BW2_INITIAL_FILE_SIZE+value_len*2));
+        ASSERT_NO_RET_FALSE(10445,W->makeSpace(BW2_INITIAL_FILE_SIZE+(int64_t)value_len*2));
         BW_pool *pool = getPool();
         BW_element *new_value = pool->new_element(static_cast<XML_Binary_Type>(value_type),value_len);
         ASSERT_NO_RET_FALSE(10446,new_value != nullptr);
@@ -1655,10 +1656,10 @@ const char *BW_pool::getDocTypeName()
 
 char*  BW_pool::allocate(int size)
 {
-    if (size <= 0) return 0;
+    if (size <= 0 || size > INT32_MAX - 3) return 0;
     ROUND32UP(size);
 // memory must be prepared in allocator_limit before allocation - in BW_pool is fd inaccessible
-    ASSERT_NO_RET_0(1080,allocator + size <= allocator_limit);
+    ASSERT_NO_RET_0(1080,size <= allocator_limit - allocator);
 
     BW_offset_t offset = allocator;
     allocator += size;
@@ -1671,11 +1672,11 @@ char*  BW_pool::allocate(int size)
 
 char*           BW_pool::allocate8(int size)        // 64 bit aligned value
 {
-    if (size <= 0) return 0;
+    if (size <= 0 || size > INT32_MAX - 7) return 0;
     ROUND64UP(allocator);
     ROUND64UP(size);
 // memory must be prepared in allocator_limit before allocation - in BW_pool is fd inaccessible
-    ASSERT_NO_RET_0(1942,allocator + size <= allocator_limit);
+    ASSERT_NO_RET_0(1942,size <= allocator_limit - allocator);
 
     BW_offset_t offset = allocator;
     allocator += size;
@@ -2038,9 +2039,9 @@ bool BW_plugin::CheckExistingFile(int file_size)
 #undef WORK_ID
 #define WORK_ID pool->getDocTypeName()
 
-bool BW_plugin::makeSpace(int size)
+bool BW_plugin::makeSpace(int64_t size)
 {
-    int new_size = ((pool->allocator+4095+size) >> 12 << 12); // I want rounded file size
+    int64_t new_size = ((pool->allocator+4095+size) >> 12 << 12); // I want rounded file size
     ASSERT_NO_RET_FALSE(1143,new_size <= (int)pool->mmap_size);
     if (new_size <= (int)pool->file_size) return true; // no grow - ok
     if (ftruncate(fd,new_size) < 0)
@@ -2453,7 +2454,7 @@ BW_element* BW_plugin::tagStr(int16_t id,const char *value)
     if (tag_type == XBT_VARIANT) tag_type = XBT_STRING;
 
     int value_len = strlen(value);
-    ASSERT_NO_RET_NULL(1146,makeSpace(BW2_INITIAL_FILE_SIZE+value_len*2));
+    ASSERT_NO_RET_NULL(1146,makeSpace(BW2_INITIAL_FILE_SIZE+(int64_t)value_len*2));
 
     BW_element* result = pool->new_element(tag_type,value_len);
     ASSERT_NO_RET_NULL(2041,result != nullptr);
@@ -2478,7 +2479,7 @@ BW_element* BW_plugin::tagBLOB(int16_t id,const void *value,int32_t size)
     XML_Binary_Type tag_type = pool->getTagType(id);
     ASSERT_NO_RET_NULL(1935,tag_type == XBT_BLOB || tag_type == XBT_VARIANT);
 
-    ASSERT_NO_RET_NULL(1955,makeSpace(BW2_INITIAL_FILE_SIZE+size+4));
+    ASSERT_NO_RET_NULL(1955,makeSpace(BW2_INITIAL_FILE_SIZE+(int64_t)size+4));
 
     BW_element* result = pool->new_element(XBT_BLOB,size);
     ASSERT_NO_RET_NULL(2042,result != nullptr);
@@ -2498,7 +2499,7 @@ BW_element* BW_plugin::tagHEX(int16_t id,const void *value,int32_t size)
     XML_Binary_Type tag_type = pool->getTagType(id);
     ASSERT_NO_RET_NULL(2131,tag_type == XBT_HEX);
 
-    ASSERT_NO_RET_NULL(2132,makeSpace(BW2_INITIAL_FILE_SIZE+size+4));
+    ASSERT_NO_RET_NULL(2132,makeSpace(BW2_INITIAL_FILE_SIZE+(int64_t)size+4));
 
     BW_element* result = pool->new_element(XBT_HEX,size);
     ASSERT_NO_RET_NULL(2133,result != nullptr);
@@ -2670,7 +2671,8 @@ BW_element* BW_plugin::tagIPv6(int16_t id,const char *value)
 BW_element* BW_plugin::tagData(int16_t id,XML_Binary_Data_Ref &data)
 {
     ASSERT_NO_RET_NULL(2003,this != nullptr);
-    ASSERT_NO_RET_NULL(2002,makeSpace(BW2_INITIAL_FILE_SIZE+8+data.size));
+    ASSERT_NO_RET_NULL(10463,data.size >= 0);
+    ASSERT_NO_RET_NULL(2002,makeSpace(BW2_INITIAL_FILE_SIZE+8+(int64_t)data.size));
 
     if (data.type == XBT_NULL)
         return tag(id);
diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index e01edf0..86902da 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -454,6 +454,7 @@ int XBT_Size2(XML_Binary_Type type,int size)
 // It contains also some envelope information needed for storing value
 // sizeof(BW_element) is not included
 {
+    ASSERT_NO_RET_N1(10464,size >= 0 && size <= (type == XBT_BLOB_STRING ? INT32_MAX / 2 : INT32_MAX - 64)); // envelope must fit into int too
     switch(type)
     {
         case XBT_NULL:
-- 
2.43.0


From 18c55ca6176c917b4bb0687932e4c46d35f9a853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:07 +0000
Subject: [PATCH 130/134] fix: elements of XML entities were lost in conversion

---
 include/binary_xml/bin_xml_plugin.h |  5 ++-
 src/bin_xml_plugin.cpp              | 67 ++++++++++++++++++++++-------
 2 files changed, 55 insertions(+), 17 deletions(-)

diff --git a/include/binary_xml/bin_xml_plugin.h b/include/binary_xml/bin_xml_plugin.h
index f5e7771..4440318 100644
--- a/include/binary_xml/bin_xml_plugin.h
+++ b/include/binary_xml/bin_xml_plugin.h
@@ -4,6 +4,7 @@
 #include <libxml/tree.h>
 #include <map>
 #include <string>
+#include <vector>
 
 #include "bin_xml_creator.h"
 
@@ -13,8 +14,8 @@ class Bin_xml_plugin : public Bin_src_plugin // interface for xml input format
 protected:
     xmlDoc      *doc;
     xmlNode     *root_element;
-    std::map<const void*,std::string> composed;  // texts which are not stored in one piece in DOM (entities, CDATA, comments inside)
-    const char *getText(xmlNode *first,xmlNode *end,const void *key);
+    std::map<std::pair<const void*,int>,std::string> composed;  // texts which are not stored in one piece in DOM (entities, CDATA, comments inside)
+    const char *getText(xmlNode **first,xmlNode **end,const void *owner,int index);
     const char *getHref(const xmlNs *ns);
     void        Close();
 public:
diff --git a/src/bin_xml_plugin.cpp b/src/bin_xml_plugin.cpp
index 056defc..41bcafc 100644
--- a/src/bin_xml_plugin.cpp
+++ b/src/bin_xml_plugin.cpp
@@ -68,6 +68,32 @@ bool Bin_xml_plugin::Initialize()
 
 //-------------------------------------------------------------------------------------------------
 
+static bool hasElement(const xmlNode *N)
+// entity can contain elements
+{
+    if (N->type != XML_ENTITY_REF_NODE || N->children == nullptr) return false;
+    for(xmlNode *C = N->children->children;C != nullptr;C = C->next)
+        if (C->type == XML_ELEMENT_NODE || hasElement(C)) return true;
+    return false;
+}
+
+static void addContent(xmlNode *first,std::vector<xmlNode*> &content)
+// entities with elements are replaced by their content
+{
+    for(xmlNode *N = first;N != nullptr;N = N->next)
+        if (hasElement(N))
+            addContent(N->children->children,content);
+        else
+            content.push_back(N);
+}
+
+static std::vector<xmlNode*> getContent(xmlNode *X)
+{
+    std::vector<xmlNode*> content;
+    addContent(X->children,content);
+    return content;
+}
+
 void *Bin_xml_plugin::getRoot()
 {
     return root_element;
@@ -83,38 +109,46 @@ const char *Bin_xml_plugin::getNodeValue(void *element)
 {
     xmlNode *X = reinterpret_cast<xmlNode *>(element);
 // there is 1 value per element: the first nonspace text, it can be before, between or after subelements
-    for(xmlNode *N = X->children;N != nullptr;)
+    std::vector<xmlNode*> content = getContent(X);
+    xmlNode **limit = content.data() + content.size();
+    int index = 0;
+    for(xmlNode **first = content.data();first < limit;index++)
     {
-        xmlNode *end = N;
-        while (end != nullptr && end->type != XML_ELEMENT_NODE) end = end->next;
-        const char *value = getText(N,end,N);
+        xmlNode **end = first;
+        while (end < limit && (*end)->type != XML_ELEMENT_NODE) end++;
+        const char *value = getText(first,end,X,index);
         while(*value != '\0' && isspace((unsigned char)*value)) value++;
         if (*value != '\0') return value;
-        N = (end == nullptr ? nullptr : end->next);
+        first = (end < limit ? end + 1 : limit);
     }
     return nullptr;
 }
 
-const char *Bin_xml_plugin::getText(xmlNode *first,xmlNode *end,const void *key)
+const char *Bin_xml_plugin::getText(xmlNode **first,xmlNode **end,const void *owner,int index)
 // text of nodes from first to end (exclusive), comments and processing instructions are not part of text
 {
     int pieces = 0;
     xmlNode *piece = nullptr;
-    for(xmlNode *N = first;N != end;N = N->next)
+    for(xmlNode **I = first;I < end;I++)
+    {
+        xmlNode *N = *I;
         if (N->type == XML_TEXT_NODE || N->type == XML_CDATA_SECTION_NODE || N->type == XML_ENTITY_REF_NODE)
         {
             pieces++;
             piece = N;
         }
+    }
     if (pieces == 0) return "";
     if (pieces == 1 && piece->type != XML_ENTITY_REF_NODE)
         return piece->content == nullptr ? "" : reinterpret_cast<const char*>(piece->content);
 
-    auto found = composed.find(key);
+    auto found = composed.find({owner,index});
     if (found == composed.end())
     {
         std::string text;
-        for(xmlNode *N = first;N != end;N = N->next)
+        for(xmlNode **I = first;I < end;I++)
+        {
+            xmlNode *N = *I;
             if (N->type == XML_TEXT_NODE || N->type == XML_CDATA_SECTION_NODE || N->type == XML_ENTITY_REF_NODE)
             {
                 xmlChar *content = xmlNodeGetContent(N);
@@ -122,7 +156,8 @@ const char *Bin_xml_plugin::getText(xmlNode *first,xmlNode *end,const void *key)
                 text += reinterpret_cast<const char*>(content);
                 xmlFree(content);
             }
-        found = composed.emplace(key,text).first;
+        }
+        found = composed.emplace(std::make_pair(owner,index),text).first;
     }
     return found->second.c_str();
 }
@@ -134,13 +169,13 @@ const char *Bin_xml_plugin::getHref(const xmlNs *ns)
     const char *href = reinterpret_cast<const char*>(ns->href);
     if (strstr(href,"&#38;") == nullptr) return href;
 
-    auto found = composed.find(ns);
+    auto found = composed.find({ns,0});
     if (found == composed.end())
     {
         std::string text;
         for(const char *end;(end = strstr(href,"&#38;")) != nullptr;href = end + strlen("&#38;"))
             text.append(href,end-href).append("&");
-        found = composed.emplace(ns,text + href).first;
+        found = composed.emplace(std::make_pair((const void*)ns,0),text + href).first;
     }
     return found->second.c_str();
 }
@@ -151,7 +186,7 @@ void Bin_xml_plugin::ForAllChildren(OnElement_t on_element,void *parent,void *us
     assert(on_element != nullptr);
     if (parent == nullptr) return; // done
 
-    for(xmlNode *X = reinterpret_cast<xmlNode *>(parent)->children;X != nullptr;X = X->next)
+    for(xmlNode *X : getContent(reinterpret_cast<xmlNode *>(parent)))
         if (X->type == XML_ELEMENT_NODE)
             on_element(X,userdata);
 }
@@ -162,7 +197,7 @@ void Bin_xml_plugin::ForAllChildrenRecursively(OnElementRec_t on_element,void *p
     if (parent == nullptr) return; // done
     on_element(reinterpret_cast<xmlNode*>(parent),userdata,deep);
 
-    for(xmlNode *X = reinterpret_cast<xmlNode *>(parent)->children;X != nullptr;X = X->next)
+    for(xmlNode *X : getContent(reinterpret_cast<xmlNode *>(parent)))
         if (X->type == XML_ELEMENT_NODE)
         {
             ForAllChildrenRecursively(on_element,X,userdata,deep+1);
@@ -187,7 +222,9 @@ void Bin_xml_plugin::ForAllParams(OnParam_t on_param,void *element,void *userdat
 
     for(xmlAttr *A = X->properties;A != nullptr;A = A->next)
     {
-        const char *value = getText(A->children,nullptr,A);
+        std::vector<xmlNode*> content;
+        addContent(A->children,content);
+        const char *value = getText(content.data(),content.data() + content.size(),A,0);
     
         on_param(reinterpret_cast<const char*>(A->name),value,element,userdata);
     }
-- 
2.43.0


From f8cd4060be48cb6db1283c274a2aa09496450e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:49 +0000
Subject: [PATCH 131/134] fix: elements with values of several types or empty
 attributes could not be copied to a pool

---
 include/binary_xml/bin_write_plugin.h |  1 +
 src/bin_write_plugin.cpp              | 55 ++++++++++++++++++++++++---
 2 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/include/binary_xml/bin_write_plugin.h b/include/binary_xml/bin_write_plugin.h
index 035d812..c8534b1 100644
--- a/include/binary_xml/bin_write_plugin.h
+++ b/include/binary_xml/bin_write_plugin.h
@@ -331,6 +331,7 @@ public: // tag creation
     BW_element*     CopyPathOnly(XB_reader &xb,XML_Item *root,...);
     BW_element*     CopyAll(BW_element *dst,XB_reader &xb,XML_Item *src);
 private:
+    BW_element*     tagCopy(XML_Item *src);
     BW_element*     pathTag(XML_Item *src,bool with_value);
     BW_element*     CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Item *root,va_list ap);
 public: // Bin_src_plugin
diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index ee19fb9..a05ba89 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -17,6 +17,7 @@
 
 #include <sys/mman.h>
 #include <assert.h>
+#include <string>
 #include <vector>
 
 #define NOT_IMPLEMENTED false // used in assert
@@ -629,6 +630,8 @@ BW_element*     BW_element::attrData(int16_t id,XML_Binary_Data_Ref &data)
 
     BW_pool             *pool = getPool();    
     XML_Binary_Type     attr_type = pool->getAttrType(id);
+    if (attr_type == XBT_VARIANT || data.type == XBT_NULL)
+        attr_type = data.type; // each value has its own type, value of any type can be missing
 
     if (data.type == XBT_STRING && attr_type != XBT_STRING)
     { // default conversion
@@ -679,10 +682,41 @@ BW_element*     BW_element::attrData(int16_t id,XML_Binary_Data_Ref &data)
 
 }
 
+static XML_Binary_Data_Ref DataForType(XML_Binary_Data_Ref data,XML_Binary_Type type,std::string &buffer)
+// values of one symbol can have different types in .xb (7 and 7.5), its common type is reached through text
+{
+    if (data.type == type || type == XBT_VARIANT || data.type == XBT_NULL || data.type == XBT_STRING) return data;
+    if (data.type == XBT_HEX || data.type == XBT_BLOB)
+    { // can be long
+        char chunk[MIN_OUT_BUFFER_SIZE*2];
+        int offset = 0;
+        for(;;)
+        {
+            int size = XBT_ToStringChunk(data.type,data.data,offset,chunk,sizeof(chunk));
+            if (size < 0) return data; // not convertable
+            if (size == 0) break;
+            for(int i = 0;i < size;i++)
+                if (chunk[i] != '\n') buffer += chunk[i]; // without line breaks
+        }
+    }
+    else
+    {
+        const char *text = XBT_ToString(data.type,data.data);
+        if (text == nullptr) return data; // not convertable
+        buffer = text;
+    }
+    if (!XBT_CanHold(buffer.c_str(),type)) return data; // not convertable
+    data.type = XBT_STRING;
+    data.data = const_cast<char*>(buffer.c_str());
+    data.size = buffer.length()+1;
+    return data;
+}
+
 BW_element*     BW_element::attrCopy(XB_reader &xb,XML_Item *X,XML_Param_Description *param_desc)
 {
     if (THIS_IS_NULL) return nullptr;
-    XML_Binary_Data_Ref data = param_desc->getData(X);
+    std::string buffer;
+    XML_Binary_Data_Ref data = DataForType(param_desc->getData(X),getPool()->getAttrType(param_desc->name),buffer);
     return attrData(param_desc->name,data);
 }
 
@@ -1214,7 +1248,8 @@ bool         BW_element::EqualKeys(XB_reader &xb,XML_Item *src)
                 XML_Binary_Data_Ref bw_data = child->getData(); 
                 if (bw_data.data == nullptr) return false;
     
-                if (!XBT_Equal(pd_data,bw_data)) return false;            
+                std::string buffer;
+                if (!XBT_Equal(DataForType(pd_data,bw_data.type,buffer),bw_data)) return false;            
 
 
                 // OK, equal
@@ -2682,6 +2717,7 @@ BW_element* BW_plugin::tagData(int16_t id,XML_Binary_Data_Ref &data)
 
     std::vector<char> buffer; // text can be longer than stack
     XML_Binary_Type tag_type = pool->getTagType(id);
+    if (tag_type == XBT_VARIANT) tag_type = data.type; // each value has its own type
     if (tag_type != data.type)
     {
         ASSERT_NO_RET_NULL(2001,data.type == XBT_STRING); // only supported conversion
@@ -2722,12 +2758,20 @@ BW_element* BW_plugin::CopyPathOnly(XB_reader &xb,XML_Item *root,...)
     return result;
 }
 
+BW_element* BW_plugin::tagCopy(XML_Item *src)
+{
+    std::string buffer;
+    XML_Binary_Data_Ref data = src->getData();
+    if (data.type != XBT_NULL)
+        data = DataForType(data,pool->getTagType(src->name),buffer);
+    return tagData(src->name,data);
+}
+
 BW_element* BW_plugin::pathTag(XML_Item *src,bool with_value)
 // only the whole copied element has value, elements on path have keys only
 {
     if (!with_value) return tag(src->name);
-    XML_Binary_Data_Ref data = src->getData();
-    return tagData(src->name,data);
+    return tagCopy(src);
 }
 
 BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Item *root,va_list ap)
@@ -2846,8 +2890,7 @@ BW_element*     BW_plugin::CopyAll(BW_element *dst,XB_reader &xb,XML_Item *src)
     for(int i = 0;i < src->childcount;i++)
     {
         XML_Item *child = src->getChildByIndex(i);
-        XML_Binary_Data_Ref data = child->getData();
-        BW_element *child2 = CopyAll(tagData(child->name,data),xb,child);
+        BW_element *child2 = CopyAll(tagCopy(child),xb,child);
         ASSERT_NO_RET_NULL(10454,child2 != nullptr);
         dst->add(child2);
     }
-- 
2.43.0


From 56dc3b7a80588de47da51db532034fc05528fe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:35 +0000
Subject: [PATCH 132/134] fix: tag could be registered by name with type which
 does not exist

---
 src/bin_write_plugin.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index a05ba89..21428f5 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2210,6 +2210,9 @@ bool BW_plugin::registerAttr(int16_t id,const char *name,XML_Binary_Type type)
 
 XML_Tag_Names   BW_plugin::registerTag(const char *name,XML_Binary_Type type)
 {
+    ASSERT_NO_RET_(10466,name != nullptr,XTNR_NULL);
+    ASSERT_NO_RET_(10467,type >= XBT_NULL && type < XBT_LAST,XTNR_NULL);
+
     if (pool->tags.names_offset == 0) // empty
         pool->tags.names_offset = pool->allocator;
 
-- 
2.43.0


From 4365849a2eb9dd2cf98d97b93376405d4886637c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:35 +0000
Subject: [PATCH 133/134] fix: pool with too small limit was created bigger
 than its limit

---
 src/bin_write_plugin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 21428f5..f3b2811 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2007,6 +2007,7 @@ bool BW_plugin::InitEmptyFile()
 {
 // setFileSize?? --> this function can be called at differrent situations
     ASSERT_NO_RET_FALSE(1104,fd >= 0);
+    ASSERT_NO_RET_FALSE(10465,max_pool_size >= BW2_INITIAL_FILE_SIZE); // file would be bigger than its limit
     if (ftruncate(fd,BW2_INITIAL_FILE_SIZE) < 0)
     {
         ERRNO_SHOW(1105,"ftruncate",filename);
-- 
2.43.0


From 93247f731ae5106c0047083dfd845d4c487ae807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:42 +0000
Subject: [PATCH 134/134] fix: symbols of full pool could not be verified after
 reopening

---
 src/bin_write_plugin.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index f3b2811..389f0d1 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2358,10 +2358,11 @@ void BW_plugin::importParams(XB_reader *src)
 bool BW_plugin::allRegistered()
 {
     if (check_only && check_failures != 0) return false; // different dictionary
+    if (check_only && (pool->tags.index != 0 || pool->tags.max_id < 0) && (pool->params.index != 0 || pool->params.max_id < 0))
+        return (check_failures == 0); // no problems?
+
     ASSERT_NO_RET_FALSE(1142,makeSpace(BW2_INITIAL_FILE_SIZE + sizeof(BW_offset_t) * (pool->tags.max_id + pool->params.max_id + 2)));
 //    BW_offset_t names_limit = pool->allocator;
-    if (check_only && pool->tags.index != 0 && pool->params.index != 0)
-        return (check_failures == 0); // no problems?
 
     ASSERT_NO_RET_FALSE(1123,pool->tags.index != 0   || pool->makeTable(pool->tags));
     ASSERT_NO_RET_FALSE(1124,pool->params.index != 0 || pool->makeTable(pool->params));
-- 
2.43.0

