From 42e9914c31f35cb100ecdf29487b18dd9250a913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 001/101] fix: TimeStamp from ptime keeps only the fraction of
 a second as nanoseconds

total_nanoseconds() is the whole duration since 1970 in nanoseconds; truncated
to 32 bit it made the resulting time stamp wrong by up to two seconds (and it
overflows for dates after 2262).
---
 src/icl_core/src/icl_core/TimeStamp.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/icl_core/src/icl_core/TimeStamp.cpp b/src/icl_core/src/icl_core/TimeStamp.cpp
index b321c8a..609a463 100644
--- a/src/icl_core/src/icl_core/TimeStamp.cpp
+++ b/src/icl_core/src/icl_core/TimeStamp.cpp
@@ -90,9 +90,13 @@ TimeStamp::TimeStamp(const boost::posix_time::ptime& ptime_stamp)
 {
   boost::posix_time::ptime unix_time_base(boost::gregorian::date(1970, 1, 1));
 
-  secs = boost::posix_time::time_period(unix_time_base, ptime_stamp).length().total_seconds();
-  nsecs = int32_t(boost::posix_time::time_period(unix_time_base, ptime_stamp).
-  length().total_nanoseconds());
+  const boost::posix_time::time_duration length
+    = boost::posix_time::time_period(unix_time_base, ptime_stamp).length();
+  secs = length.total_seconds();
+  // Only the fraction of a second: total_nanoseconds() would count the whole
+  // duration again.
+  nsecs = int32_t(length.fractional_seconds()
+                  * (1000000000 / boost::posix_time::time_duration::ticks_per_second()));
   normalizeTime();
 }
 
@@ -100,9 +104,13 @@ TimeStamp& TimeStamp::operator = (const boost::posix_time::ptime& ptime_stamp)
 {
   boost::posix_time::ptime unix_time_base(boost::gregorian::date(1970, 1, 1));
 
-  secs = boost::posix_time::time_period(unix_time_base, ptime_stamp).length().total_seconds();
-  nsecs = int32_t(boost::posix_time::time_period(unix_time_base, ptime_stamp).
-  length().total_nanoseconds());
+  const boost::posix_time::time_duration length
+    = boost::posix_time::time_period(unix_time_base, ptime_stamp).length();
+  secs = length.total_seconds();
+  // Only the fraction of a second: total_nanoseconds() would count the whole
+  // duration again.
+  nsecs = int32_t(length.fractional_seconds()
+                  * (1000000000 / boost::posix_time::time_duration::ticks_per_second()));
   normalizeTime();
   return *this;
 }
-- 
2.43.0


From 01c42674a8ad66780421e8b2a70d34e8a9e4c7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 002/101] fix: TimeStamp::fromIso8601BasicUTC refuses months
 outside 1..12

A month above 12 read beyond the end of the table of month lengths.
---
 src/icl_core/src/icl_core/TimeStamp.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/icl_core/src/icl_core/TimeStamp.cpp b/src/icl_core/src/icl_core/TimeStamp.cpp
index 609a463..2cf83e5 100644
--- a/src/icl_core/src/icl_core/TimeStamp.cpp
+++ b/src/icl_core/src/icl_core/TimeStamp.cpp
@@ -21,6 +21,8 @@
  */
 //----------------------------------------------------------------------
 
+#include <stdexcept>
+
 #include "icl_core/os.h"
 #include "icl_core/TimeStamp.h"
 
@@ -145,6 +147,10 @@ TimeStamp TimeStamp::fromIso8601BasicUTC(const String& str)
   if (str.size() >= 6)
   {
     tm_mon = boost::lexical_cast<int32_t>(str.substr(4,2));
+    if (tm_mon < 1 || tm_mon > 12)
+    {
+      throw std::out_of_range("TimeStamp::fromIso8601BasicUTC: month out of range");
+    }
   }
   if (str.size() >= 8)
   {
-- 
2.43.0


From 7575240a14444e0df3fb306b644207ad22477059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 003/101] fix: TimeStamp formats without shared state and never
 leaves its buffer undefined

gmtime()/localtime() return one static object for all threads, so concurrent
formatting (log outputs do that) mixed up time stamps.  A time stamp that does
not fit the format (year 10000 and later) left the buffer uninitialised, and
one that gmtime() can not represent dereferenced NULL.
---
 src/icl_core/src/icl_core/TimeStamp.cpp | 26 ++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/icl_core/src/icl_core/TimeStamp.cpp b/src/icl_core/src/icl_core/TimeStamp.cpp
index 2cf83e5..a757791 100644
--- a/src/icl_core/src/icl_core/TimeStamp.cpp
+++ b/src/icl_core/src/icl_core/TimeStamp.cpp
@@ -217,18 +217,34 @@ TimeStamp& TimeStamp::fromNow()
 void TimeStamp::strfTime(char* dest, size_t max_len, const char *format) const
 {
   time_t time = tsSec();
-  struct tm *newtime;
-  newtime = gmtime(&time);
-  strftime(dest, max_len, format, newtime);
+#ifdef _SYSTEM_POSIX_
+  // gmtime() shares its result between all threads.
+  struct tm time_buffer;
+  struct tm *newtime = gmtime_r(&time, &time_buffer);
+#else
+  struct tm *newtime = gmtime(&time);
+#endif
+  if ((newtime == NULL || strftime(dest, max_len, format, newtime) == 0) && max_len > 0)
+  {
+    // The contents of dest are undefined if strftime() fails.
+    dest[0] = 0;
+  }
 }
 
 void TimeStamp::strfLocaltime(char* dest, size_t max_len, const char *format) const
 {
   time_t time = tsSec();
+#ifdef _SYSTEM_POSIX_
+  // localtime() shares its result between all threads.
+  struct tm time_buffer;
+  struct tm *newtime = localtime_r(&time, &time_buffer);
+#else
   struct tm *newtime = localtime(&time);
-  if (newtime)
+#endif
+  if ((newtime == NULL || strftime(dest, max_len, format, newtime) == 0) && max_len > 0)
   {
-    strftime(dest, max_len, format, newtime);
+    // The contents of dest are undefined if strftime() fails.
+    dest[0] = 0;
   }
 }
 
-- 
2.43.0


From 14cae91b102ab996d6ae1f87f01088b2eb5a14a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:56 +0000
Subject: [PATCH 004/101] fix: microseconds of a time span were printed as
 nanoseconds

---
 src/icl_core/src/icl_core/TimeSpan.cpp        | 2 +-
 src/icl_core/src/icl_core_logging/Logging.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core/TimeSpan.cpp b/src/icl_core/src/icl_core/TimeSpan.cpp
index 9f7077c..28f8305 100644
--- a/src/icl_core/src/icl_core/TimeSpan.cpp
+++ b/src/icl_core/src/icl_core/TimeSpan.cpp
@@ -256,7 +256,7 @@ std::ostream& operator << (std::ostream& stream, const TimeSpan& time_span)
   }
   else if (calc_nsec / 1000 * 1000 == calc_nsec)
   {
-    stream << calc_nsec << "us";
+    stream << calc_nsec / 1000 << "us";
   }
   else
   {
diff --git a/src/icl_core/src/icl_core_logging/Logging.cpp b/src/icl_core/src/icl_core_logging/Logging.cpp
index 35ccdd7..240d302 100644
--- a/src/icl_core/src/icl_core_logging/Logging.cpp
+++ b/src/icl_core/src/icl_core_logging/Logging.cpp
@@ -83,7 +83,7 @@ ThreadStream& operator << (ThreadStream& stream, const icl_core::TimeSpan& time_
   }
   else if (calc_nsec / 1000 * 1000 == calc_nsec)
   {
-    stream << calc_nsec << "us";
+    stream << calc_nsec / 1000 << "us";
   }
   else
   {
-- 
2.43.0


From 77347d4bb66900a6e6642962a1675e8e2a5f2f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:56 +0000
Subject: [PATCH 005/101] fix: scaling a time span loses the fraction of a
 second

---
 src/icl_core/src/icl_core/TimeSpan.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core/TimeSpan.h b/src/icl_core/src/icl_core/TimeSpan.h
index f67f2e0..14c334d 100644
--- a/src/icl_core/src/icl_core/TimeSpan.h
+++ b/src/icl_core/src/icl_core/TimeSpan.h
@@ -209,13 +209,18 @@ inline TimeSpan operator - (const TimeSpan& left, const TimeSpan& right)
 
 inline TimeSpan operator / (const TimeSpan& span, double divisor)
 {
-  TimeSpan a(int64_t(span.tsSec() / divisor), int32_t(span.tsNSec() / divisor));
+  // Scale the complete span, so that the fraction of a second is carried over.
+  const long double nsec = (1e9L * span.tsSec() + span.tsNSec()) / divisor;
+  const int64_t sec = int64_t(nsec / 1e9L);
+  TimeSpan a(sec, int32_t(nsec - 1e9L * sec));
   return a;
 }
 
 inline TimeSpan operator * (const TimeSpan& span, double divisor)
 {
-  TimeSpan a(int64_t(span.tsSec() * divisor), int32_t(span.tsNSec() * divisor));
+  const long double nsec = (1e9L * span.tsSec() + span.tsNSec()) * divisor;
+  const int64_t sec = int64_t(nsec / 1e9L);
+  TimeSpan a(sec, int32_t(nsec - 1e9L * sec));
   return a;
 }
 
-- 
2.43.0


From 8d96385979075abcdac2e4241e5f61e2715b8c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 006/101] fix: trim() of an empty string reads outside of the
 string

---
 src/icl_core/src/icl_core/StringHelper.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core/StringHelper.cpp b/src/icl_core/src/icl_core/StringHelper.cpp
index 71107e2..6dfe477 100644
--- a/src/icl_core/src/icl_core/StringHelper.cpp
+++ b/src/icl_core/src/icl_core/StringHelper.cpp
@@ -72,8 +72,8 @@ String trim(String const & str)
     ++trim_front;
   }
 
-  std::string::size_type trim_end = length - 1;
-  while ((trim_end > trim_front) && isspace(static_cast<unsigned char>(str[trim_end])))
+  std::string::size_type trim_end = length;
+  while ((trim_end > trim_front) && isspace(static_cast<unsigned char>(str[trim_end - 1])))
   {
     --trim_end;
   }
@@ -84,7 +84,7 @@ String trim(String const & str)
   }
   else
   {
-    result = str.substr(trim_front, trim_end - trim_front + 1);
+    result = str.substr(trim_front, trim_end - trim_front);
   }
 
   return result;
-- 
2.43.0


From 4392eb600826fc128bdbfbeb8087cb49d3521d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 007/101] fix: split() with an empty delimiter never returns

---
 src/icl_core/src/icl_core/StringHelper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core/StringHelper.cpp b/src/icl_core/src/icl_core/StringHelper.cpp
index 6dfe477..f7698a9 100644
--- a/src/icl_core/src/icl_core/StringHelper.cpp
+++ b/src/icl_core/src/icl_core/StringHelper.cpp
@@ -29,9 +29,10 @@ std::vector<String> split(const String& str, const String& delimiter)
   String s = str;
   String::size_type pos = 0;
   std::vector<String> substrings;
-  if (s.empty())
+  // An empty delimiter does not separate anything.
+  if (s.empty() || delimiter.empty())
   {
-    substrings.push_back("");
+    substrings.push_back(s);
     return substrings;
   }
   while ((pos = s.find(delimiter)) != String::npos)
-- 
2.43.0


From 547a37bfa64e9fa5763046049fa861aabda65bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 008/101] fix: ZBuffer::reset() cannot be instantiated

---
 src/icl_core/src/icl_core/ZBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core/ZBuffer.h b/src/icl_core/src/icl_core/ZBuffer.h
index 19cb5d0..d6fb1a0 100644
--- a/src/icl_core/src/icl_core/ZBuffer.h
+++ b/src/icl_core/src/icl_core/ZBuffer.h
@@ -77,7 +77,7 @@ public:
   }
 
   //! Empties the Z buffer.
-  void reset() { m_buffer.assign(size); }
+  void reset() { m_buffer.assign(m_buffer.size(), boost::optional<T>()); }
   //! Returns the buffer size.
   const size_type size() const { return m_buffer.size(); }
   //! Read-only access to the buffer.
-- 
2.43.0


From f50cb827124c0df57d89428a4ae0c4c9abea43dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 009/101] fix: setBits() and clearBits() truncate 64 bit fields
 to int

---
 src/icl_core/src/icl_core/BitfieldHelper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core/BitfieldHelper.h b/src/icl_core/src/icl_core/BitfieldHelper.h
index c93539b..9bb28bc 100644
--- a/src/icl_core/src/icl_core/BitfieldHelper.h
+++ b/src/icl_core/src/icl_core/BitfieldHelper.h
@@ -39,7 +39,7 @@ namespace icl_core {
 template <typename T>
 void setBits(int bits, typename ConvertToRef<T>::ToRef bitfield)
 {
-  bitfield = T(int(bitfield) | bits);
+  bitfield = T(bitfield | T(bits));
 }
 
 /*!
@@ -48,7 +48,7 @@ void setBits(int bits, typename ConvertToRef<T>::ToRef bitfield)
 template <typename T>
 void clearBits(int bits, typename ConvertToRef<T>::ToRef bitfield)
 {
-  bitfield = T(int(bitfield) & ~bits);
+  bitfield = T(bitfield & ~T(bits));
 }
 
 /*!
-- 
2.43.0


From 84bf21ef78f411990e49f23d3a9b1ac2979834c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 010/101] fix: DataHeader leaves the device-specific item
 number undefined

---
 src/icl_core/src/icl_core/DataHeader.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core/DataHeader.h b/src/icl_core/src/icl_core/DataHeader.h
index 9d71082..735009d 100644
--- a/src/icl_core/src/icl_core/DataHeader.h
+++ b/src/icl_core/src/icl_core/DataHeader.h
@@ -66,7 +66,8 @@ struct DataHeader
   DataHeader()
     : coordinate_system(),
       timestamp(),
-      sequence_number(0)
+      sequence_number(0),
+      dsin(0)
   { }
 
   //! Constructor.
@@ -75,7 +76,8 @@ struct DataHeader
              uint32_t sequence_number = 0)
     : coordinate_system(coordinate_system),
       timestamp(timestamp),
-      sequence_number(sequence_number)
+      sequence_number(sequence_number),
+      dsin(0)
   { }
 
   //! Destructor.
-- 
2.43.0


From 9b1c26378617c65ce37c5924f16968e9e153b70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 011/101] fix: zipFile() reports success for unreadable files
 and incomplete archives

---
 src/icl_core/src/icl_core/os_fs.cpp | 30 +++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/icl_core/src/icl_core/os_fs.cpp b/src/icl_core/src/icl_core/os_fs.cpp
index 60d0ebf..bef5410 100644
--- a/src/icl_core/src/icl_core/os_fs.cpp
+++ b/src/icl_core/src/icl_core/os_fs.cpp
@@ -29,6 +29,7 @@
 #include "icl_core/BaseTypes.h"
 
 #ifdef _IC_BUILDER_ZLIB_
+# include <stdio.h>
 # include <zlib.h>
 #endif
 
@@ -38,16 +39,22 @@ namespace os {
 #ifdef _IC_BUILDER_ZLIB_
 bool zipFile(const char *filename, const char *additional_extension)
 {
-  bool ret = true;
+  bool ret = false;
   icl_core::String gzip_file_name = icl_core::String(filename) + additional_extension + ".gz";
   char big_buffer[0x1000];
   int bytes_read = 0;
-  gzFile unzipped_file = gzopen(filename, "rb");
-  gzFile zipped_file = gzopen(gzip_file_name.c_str(), "wb");
+  // The original has to be read as it is, even if it happens to be compressed.
+  FILE *unzipped_file = fopen(filename, "rb");
+  gzFile zipped_file = NULL;
+  if (unzipped_file != NULL)
+  {
+    zipped_file = gzopen(gzip_file_name.c_str(), "wb");
+  }
 
   if (unzipped_file != NULL && zipped_file != NULL)
   {
-    bytes_read = gzread(unzipped_file, big_buffer, 0x1000);
+    ret = true;
+    bytes_read = int(fread(big_buffer, 1, 0x1000, unzipped_file));
     while (bytes_read > 0)
     {
       if (gzwrite(zipped_file, big_buffer, bytes_read) != bytes_read)
@@ -57,17 +64,24 @@ bool zipFile(const char *filename, const char *additional_extension)
         break;
       }
 
-      bytes_read = gzread(unzipped_file, big_buffer, 0x1000);
+      bytes_read = int(fread(big_buffer, 1, 0x1000, unzipped_file));
+    }
+    if (ferror(unzipped_file))
+    {
+      std::cerr << "ZipFile(" << filename << "->" << gzip_file_name << ") Error on reading." << std::endl;
+      ret = false;
     }
   }
 
   if (unzipped_file != NULL)
   {
-    gzclose(unzipped_file);
+    fclose(unzipped_file);
   }
-  if (zipped_file != NULL)
+  // Closing writes the rest of the compressed data.
+  if (zipped_file != NULL && gzclose(zipped_file) != Z_OK)
   {
-    gzclose(zipped_file);
+    std::cerr << "ZipFile(" << filename << "->" << gzip_file_name << ") Error on closing." << std::endl;
+    ret = false;
   }
 
   return ret;
-- 
2.43.0


From 02e3a3d06285ce0c077df01c72b63cca8c600a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 012/101] fix: Singleton's double-checked locking is a data
 race

---
 src/icl_core/src/icl_core/Singleton.h   |  4 +++-
 src/icl_core/src/icl_core/Singleton.hpp | 10 +++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/icl_core/src/icl_core/Singleton.h b/src/icl_core/src/icl_core/Singleton.h
index 19b19c9..874bd13 100644
--- a/src/icl_core/src/icl_core/Singleton.h
+++ b/src/icl_core/src/icl_core/Singleton.h
@@ -27,6 +27,8 @@
 #ifndef ICL_CORE_SINGLETON_H_INCLUDED
 #define ICL_CORE_SINGLETON_H_INCLUDED
 
+#include <boost/atomic.hpp>
+
 #include "icl_core/SingletonCreationPolicies.h"
 #include "icl_core/SingletonLifetimePolicies.h"
 #include "icl_core/SingletonThreadingModels.h"
@@ -71,7 +73,7 @@ private:
   //! Helper for destroying the instance.
   static void destroySingleton();
   //! The singleton instance.
-  static T *m_instance;
+  static boost::atomic<T *> m_instance;
   //! Indicates whether the instance has been destroyed.
   static bool m_destroyed;
   //! The lock for synchronizing instantiation.  Must be default-constructable.
diff --git a/src/icl_core/src/icl_core/Singleton.hpp b/src/icl_core/src/icl_core/Singleton.hpp
index 0d96957..f5e3559 100644
--- a/src/icl_core/src/icl_core/Singleton.hpp
+++ b/src/icl_core/src/icl_core/Singleton.hpp
@@ -36,12 +36,12 @@ template
  template <class> class TLifetimePolicy, template <class> class TThreadingModel>
 T& Singleton<T, TCreationPolicy, TLifetimePolicy, TThreadingModel>::instance()
 {
-  T *temp = m_instance;
+  T *temp = m_instance.load(boost::memory_order_acquire);
   TThreadingModel<T>::memoryBarrier();
   if (temp == NULL)
   {
     typename TThreadingModel<T>::Guard guard(m_lock);
-    temp = m_instance;
+    temp = m_instance.load(boost::memory_order_relaxed);
     if (temp == NULL)
     {
       if (m_destroyed)
@@ -51,11 +51,11 @@ T& Singleton<T, TCreationPolicy, TLifetimePolicy, TThreadingModel>::instance()
       }
       temp = TCreationPolicy<T>::create();
       TThreadingModel<T>::memoryBarrier();
-      m_instance = temp;
+      m_instance.store(temp, boost::memory_order_release);
       TLifetimePolicy<T>::scheduleDestruction(&destroySingleton);
     }
   }
-  return *m_instance;
+  return *temp;
 }
 
 template
@@ -71,7 +71,7 @@ void Singleton<T, TCreationPolicy, TLifetimePolicy, TThreadingModel>::destroySin
 template
 <class T, template <class> class TCreationPolicy,
  template <class> class TLifetimePolicy, template <class> class TThreadingModel>
-T *Singleton<T, TCreationPolicy, TLifetimePolicy, TThreadingModel>::m_instance = NULL;
+boost::atomic<T *> Singleton<T, TCreationPolicy, TLifetimePolicy, TThreadingModel>::m_instance(static_cast<T *>(NULL));
 
 template
 <class T, template <class> class TCreationPolicy,
-- 
2.43.0


From 3c04e496a6f977fc29f7c131f2cd9a7737973183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 013/101] fix: SchemeParser keeps parts of the previous result

---
 src/icl_core/src/icl_core/SchemeParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/icl_core/src/icl_core/SchemeParser.cpp b/src/icl_core/src/icl_core/SchemeParser.cpp
index a30c605..a607355 100644
--- a/src/icl_core/src/icl_core/SchemeParser.cpp
+++ b/src/icl_core/src/icl_core/SchemeParser.cpp
@@ -193,6 +193,11 @@ bool SchemeParser::parseScheme(const String &str, Scheme &scheme_handler,
   // scheme rule
   rule<> scheme_rule = !scheme_p[addScheme] >> specifier_p[addSpecifier] >> !anchor_p >> !query_p;
 
+  // The result must not contain anything of a previous parse.
+  scheme_handler.scheme_type = OtherScheme;
+  scheme_handler.scheme_name.clear();
+  scheme_handler.specifier.clear();
+  scheme_handler.anchor.clear();
   scheme_handler.queries.clear();
   info = parse(str.c_str(), scheme_rule);
 
-- 
2.43.0


From 9ccad1d75acd69b6757d52a484ca3bac5d8adc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 014/101] fix: AttributeTree dereferences the missing subtree
 list of a leaf

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 0afbbe5..5398cbf 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -960,10 +960,10 @@ char *AttributeTree::getSpecialAttribute(const char *description, AttributeTree
 {
   // search recursive to the root for that attribute
   AttributeTree *at_path_parent = this;
-  AttributeTree *at_path = at_path_parent->m_subtree_list->subTree(description);
+  AttributeTree *at_path = at_path_parent->getSubTree(description);
   while (at_path_parent && at_path == NULL)
   {
-    at_path = at_path_parent->m_subtree_list->subTree(description);
+    at_path = at_path_parent->getSubTree(description);
     at_path_parent = at_path_parent->parentTree();
   }
 
@@ -1020,7 +1020,7 @@ char *AttributeTree::getAttribute(const char *param_description, const char *def
             *description_part = 0;
             description_part++;
           }
-          at = at->m_subtree_list->subTree(next_description);
+          at = at->getSubTree(next_description);
         }
         // now we are at the inner attribute tree
         // is there an attribute
@@ -1088,7 +1088,7 @@ char *AttributeTree::newSubNodeDescription(const char *base_description)
 
   sprintf(description + base_len - j, "%i", i);
 
-  while (m_subtree_list->subTree(description) && i < 100000)
+  while (getSubTree(description) && i < 100000)
   {
     i++;
     sprintf(description + base_len - j, "%i", i);
@@ -1110,7 +1110,7 @@ AttributeTree *AttributeTree::addSubTree(AttributeTree *tree, AttributeTree *aft
 {
   if (tree)
   {
-    if (m_subtree_list->subTree(tree->m_this_description))
+    if (tree->m_this_description && getSubTree(tree->m_this_description))
     {
       char *new_description = newSubNodeDescription(tree->m_this_description);
       free(tree->m_this_description);
-- 
2.43.0


From 3e41e826cc969f639f6781940f1a8c5d2ec30ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 015/101] fix: newSubNodeDescription() reads before its text
 and can return a used name

---
 .../src/icl_core_config/AttributeTree.cpp     | 21 ++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 5398cbf..2dbe0bf 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1066,29 +1066,26 @@ char* AttributeTree::getOrSetDefault(const char *description, const char *defaul
 char *AttributeTree::newSubNodeDescription(const char *base_description)
 {
   int base_len = strlen(base_description);
-  char *description = (char*)malloc(base_len + 6);
+  char *description = (char*)malloc(base_len + 12);
   assert(description != NULL); // Just abort if we are out of memory.
   strcpy(description, base_description);
   int i = 1;
   int j = 0;
 
   // find the maxima length of number in base_description
-  if (base_len>0)
+  while (j < base_len && j < 9
+         && isdigit(static_cast<unsigned char>(description[base_len - j - 1])))
   {
-    while (base_len>=j-1 &&
-           sscanf(description+base_len-j-1, "%i", &i)==1)
-    {
-      j++;
-    }
-    if (j!=0)
-    {
-      i++;
-    }
+    j++;
+  }
+  if (j!=0)
+  {
+    i = atoi(description + base_len - j) + 1;
   }
 
   sprintf(description + base_len - j, "%i", i);
 
-  while (getSubTree(description) && i < 100000)
+  while (getSubTree(description))
   {
     i++;
     sprintf(description + base_len - j, "%i", i);
-- 
2.43.0


From 6386bc31c8a29e93fd753847c643c54bfde5e3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 016/101] fix: a copied attribute tree has its subtrees in
 reverse order

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 2dbe0bf..6670a6b 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -488,12 +488,12 @@ void SubTreeList::copy(AttributeTree *parent)
   assert(parent != NULL
          && "SubTreeList::copy() called with NULL parent! Allocated attribute tree would be lost!");
 
-  SubTreeList *loop = this;
-  while (loop)
+  // Every new subtree is inserted at the front, so the last one has to be copied first.
+  if (m_next)
   {
-    new AttributeTree(*loop->m_sub_tree, parent);
-    loop = loop->m_next;
+    m_next->copy(parent);
   }
+  new AttributeTree(*m_sub_tree, parent);
 }
 
 void SubTreeList::unlinkParent()
-- 
2.43.0


From 2cd778f667235719ee8eaf1b8f2ca5a7cc4e9f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 017/101] fix: AttributeTree::unlinkSub() leaks the subtree
 list

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 6670a6b..8ba04d0 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -504,6 +504,7 @@ void SubTreeList::unlinkParent()
     if (loop->m_sub_tree)
     {
       loop->m_sub_tree->m_parent = 0;
+      loop->m_sub_tree = 0;
     }
     loop = loop->m_next;
   }
@@ -817,6 +818,8 @@ void AttributeTree::unlinkSub()
   {
     // die parent-Zeiger der Unterbäume auf 0 setzen
     m_subtree_list->unlinkParent();
+    // die Liste selbst wird nicht mehr gebraucht
+    delete m_subtree_list;
     // den Unterbaumzeiger auf 0
     m_subtree_list = 0;
   }
-- 
2.43.0


From f823e5bdce6530e53c9a91bc3b3f44e271c64502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 018/101] fix: AttributeTree::changed() misses new and renamed
 subtrees

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 8ba04d0..6ca10ff 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -699,6 +699,7 @@ AttributeTree::AttributeTree(const char *description, AttributeTree *parent)
   if (m_parent)
   {
     m_parent->m_subtree_list = new SubTreeList(this, m_parent->m_subtree_list);
+    m_parent->m_changed = true;
   }
 }
 
@@ -780,6 +781,7 @@ AttributeTree::AttributeTree(const AttributeTree &tree, AttributeTree *parent)
   if (m_parent)
   {
     m_parent->m_subtree_list = new SubTreeList(this, m_parent->m_subtree_list);
+    m_parent->m_changed = true;
   }
 
   m_changed = false;
@@ -853,6 +855,7 @@ void AttributeTree::setDescription(const char *description)
   {
     m_this_description = 0;
   }
+  m_changed = true;
 }
 
 void AttributeTree::setAttribute(const char *attribute)
@@ -1127,6 +1130,7 @@ AttributeTree *AttributeTree::addSubTree(AttributeTree *tree, AttributeTree *aft
     }
 
     tree->m_parent = this;
+    m_changed = true;
     return tree;
   }
   else
-- 
2.43.0


From 9f4843f63de7f575e86aebc1693d0a716594cfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 019/101] fix: AttributeTree::setAttribute(description, 0)
 erases the attribute it should not set

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 6ca10ff..ba04be1 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -935,7 +935,10 @@ AttributeTree* AttributeTree::setAttribute(const char *description, const char *
   {
     // Keine Description -> Wir sind am Endknoten -> Eintrag machen
     //  printf("set attribute: %s :%s\n",m_this_description,attribute);
-    setAttribute(attribute);
+    if (attribute)
+    {
+      setAttribute(attribute);
+    }
 
     return this;
   }
-- 
2.43.0


From 9dadaf30135d2af1af49822c9eca2cdf7f994bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 020/101] fix: a comment node without text crashes
 AttributeTree::printSubTree()

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index ba04be1..e59826b 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1572,7 +1572,7 @@ bool AttributeTree::isComment()
 
 bool AttributeTree::isMultilineComment()
 {
-  return isComment() && (strchr(attribute(), '\n') != NULL);
+  return isComment() && attribute() && (strchr(attribute(), '\n') != NULL);
 }
 
 const char* AttributeTree::comment()
-- 
2.43.0


From d5ab2e6ad8b0b89ad5c4007f3406f24675f02a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 021/101] fix: AttributeTree::printSubTree() writes
 descriptions that cannot be read back

---
 .../src/icl_core_config/AttributeTree.cpp     | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index e59826b..79f35f2 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1142,6 +1142,22 @@ AttributeTree *AttributeTree::addSubTree(AttributeTree *tree, AttributeTree *aft
   }
 }
 
+// Multiline comments and includes are only recognized at the beginning of a line,
+// so everything above them has to be printed in the bracket style.
+static bool needsBrackets(AttributeTree *tree)
+{
+  for (AttributeTree *sub = tree->firstSubTree(); sub; sub = tree->nextSubTree(sub))
+  {
+    if (sub->isMultilineComment()
+        || (sub->getDescription() && !strcmp(sub->getDescription(), include_str))
+        || needsBrackets(sub))
+    {
+      return true;
+    }
+  }
+  return false;
+}
+
 void AttributeTree::printSubTree(ostream& out, int change_style_depth, const char *upper_description)
 {
   // virtual attributes are not stored !
@@ -1170,7 +1186,7 @@ void AttributeTree::printSubTree(ostream& out, int change_style_depth, const cha
   }
 
   int contents = contains();
-  if (contents >= change_style_depth || hasMultilineComment())
+  if (contents >= change_style_depth || needsBrackets(this))
   {
     out << the_upper_description << t_description << '{' << endl;
     if (m_this_attribute && strcmp(m_this_attribute, ""))
@@ -1197,7 +1213,7 @@ void AttributeTree::printSubTree(ostream& out, int change_style_depth, const cha
     assert(description != NULL); // Just abort if we are out of memory.
     memset(description, 0, len + 1);
 
-    if ((tud_len > 0) && (the_upper_description[tud_len-1] == ' '))
+    if ((tud_len == 0) || (the_upper_description[tud_len-1] == ' '))
     {
       strcat(strcpy(description, the_upper_description), t_description);
     }
-- 
2.43.0


From fd6646f5f06e6a8b97a6120737527aae72c520b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 022/101] fix: AttributeTree::get() never returns on long lines
 and unfinished comments, and drops an unfinished last line

---
 .../src/icl_core_config/AttributeTree.cpp     | 55 +++++++++++--------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 79f35f2..ca8e079 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -31,6 +31,10 @@
 #include <direct.h>
 #endif
 
+#include <ctype.h>
+#include <string>
+#include <vector>
+
 #include "icl_core/os_string.h"
 #include "icl_core_config/AttributeTree.h"
 
@@ -58,17 +62,24 @@ int file_path_str_len = 0;
 int file_name_str_len = 0;
 const int INCLUDE_OFFSET = 10;
 
-static char buffer[2000];
+static std::vector<char> line_buffer;
 
-void readNextLineInBuffer(istream &in)
+//! Reads the next line, returns \c false if there is none.
+bool readNextLineInBuffer(istream &in)
 {
-  in.getline(buffer, 1998);
+  std::string next_line;
+  if (!std::getline(in, next_line))
+  {
+    return false;
+  }
   // Window/Unix
-  int line_length=strlen(buffer);
-  if (line_length > 0 && buffer[line_length-1]=='\r')
+  if (!next_line.empty() && next_line[next_line.length()-1]=='\r')
   {
-    buffer[line_length-1]=0;
+    next_line.erase(next_line.length()-1);
   }
+  line_buffer.assign(next_line.begin(), next_line.end());
+  line_buffer.push_back(0);
+  return true;
 }
 
 // ===============================================================
@@ -1311,21 +1322,16 @@ int AttributeTree::load(const char *filename, bool unmark_changes, bool process_
 int AttributeTree::get(istream &in, bool process_include, bool load_comments,
                        const class FilePath *file_path)
 {
-  // save stack memory on reccursive calls!
-  // without static in the insmod call for the RTL-module we crash !
-  buffer[1999] = 0;
   char *attribute, *line;
   AttributeTree *at = this;
   int lineno = 1;
 
-  readNextLineInBuffer(in);
-
-  do
+  while (readNextLineInBuffer(in))
   {
     //LOCAL_PRINTF("get next line %i\n",lineno);
     lineno++;
-    line = buffer;
-    while (isspace(*line))
+    line = &line_buffer[0];
+    while (isspace(static_cast<unsigned char>(*line)))
     {
       line++;
     }
@@ -1392,19 +1398,22 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
             do
             {
               lineno++;
-              readNextLineInBuffer(in);
-              line = buffer;
-              char *line_end = buffer + strlen(buffer);
-              line_end--;
-              while (isspace(*line))
+              if (!readNextLineInBuffer(in))
+              {
+                // the comment does not end
+                return lineno;
+              }
+              line = &line_buffer[0];
+              char *line_end = line + strlen(line);
+              while (isspace(static_cast<unsigned char>(*line)))
               {
                 line++;
               }
-              while (line_end >= buffer && isspace(*line_end))
+              while (line_end > line && isspace(static_cast<unsigned char>(line_end[-1])))
               {
                 line_end--;
               }
-              *(line_end + 1) = 0;
+              *line_end = 0;
               comment_end = (strstr(line, comment_end_str) != NULL);
 
               if (load_comments && !comment_end)
@@ -1441,7 +1450,7 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
           }
           else
           {
-            if (!in.eof() && line[0])
+            if (line[0])
             {
               //LOCAL_PRINTF("AttributeTree::get >> found '%s' and could not interpret\n", line);
               return lineno;
@@ -1450,9 +1459,7 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
         }
       }
     }
-    readNextLineInBuffer(in);
   }
-  while (!in.eof());
   return -1;
 }
 
-- 
2.43.0


From 41ae1b324b8d678c98e1f5aa1b8a0fba6d9cf4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 023/101] fix: AttributeTree::load() never ends on a file that
 includes itself

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index ca8e079..9f0b453 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -32,6 +32,7 @@
 #endif
 
 #include <ctype.h>
+#include <set>
 #include <string>
 #include <vector>
 
@@ -1289,15 +1290,25 @@ int AttributeTree::load(const char *filename, bool unmark_changes, bool process_
     setAttribute(m_file_name_str, at_file.name().c_str());
   }
 
+  // The files being loaded at the moment. Including one of them again would never end.
+  static std::set<icl_core::String> files_in_progress;
+  if (!files_in_progress.insert(at_file.absoluteName()).second)
+  {
+    printf("tAttributeTree >> File '%s' includes itself\n", (const char*)at_file.absoluteName().c_str());
+    return eFILE_LOAD_ERROR;
+  }
+
   int error;
   ifstream in(at_file.absoluteName().c_str());
   if (!in)
   {
+    files_in_progress.erase(at_file.absoluteName());
     printf("tAttributeTree >> Could not open file '%s'\n", (const char*)at_file.absoluteName().c_str());
     return eFILE_LOAD_ERROR;
   }
 
   error = get(in, process_include, load_comments, &at_file);
+  files_in_progress.erase(at_file.absoluteName());
   if (error >= 0)
   {
     printf("Error in line %i while reading AttributeTree %s\n", error,
-- 
2.43.0


From d3d7b635ad07732b62d5b1256d9d755a8775f6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:17 +0000
Subject: [PATCH 024/101] fix: FilePath::normalizePath() changes which file a
 path denotes

---
 .../src/icl_core_config/AttributeTree.cpp     | 151 +++++-------------
 1 file changed, 41 insertions(+), 110 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 9f0b453..c275d9a 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -124,130 +124,61 @@ icl_core::String FilePath::normalizePath(const icl_core::String& _filename)
   //DEBUGMSG(DD_SYSTEM, DL_VERBOSE, "FilePath::normalizePath(%s)\n", filename.c_str());
 
   // Replace directory separators.
-  string::size_type slash_before_dot;
-  string::size_type dot_start = 0;
-
-  dot_start = filename.find(DSEP_OTHER, 0);
-  while (dot_start != string::npos)
+  string::size_type separator = filename.find(DSEP_OTHER, 0);
+  while (separator != string::npos)
   {
-    filename[dot_start] = DSEP;
+    filename[separator] = DSEP;
 
-    dot_start = filename.find(DSEP_OTHER, dot_start);
+    separator = filename.find(DSEP_OTHER, separator);
   }
-  dot_start = 0;
-
-  //DEBUGMSG(DD_SYSTEM, DL_VERBOSE, "FilePath::normalizePath>> status '%s'\n", filename.c_str());
 
-  // Search for single dots at the beginning.
-  while (!filename.find(string(".") + DSEP))
-  {
-    //DEBUGMSG(DD_SYSTEM, DL_VERBOSE, "FilePath::normalizePath>> SingleDots at begin '%s'\n",
-    //         filename.c_str());
-    string temp_filename(filename, 2, string::npos);
-    temp_filename.swap(filename);
-  }
-#ifdef _SYSTEM_WIN32_
-  // Search for single dots after the drive letter at the beginning.
-  if (filename.find(string(":.") + DSEP) == 1)
-  {
-    string temp_filename;
-    temp_filename.append(filename, 0, 2);
-    dot_start += 3;
-    temp_filename.append(filename, dot_start, filename.length() - dot_start);
-    temp_filename.swap(filename);
-    dot_start = 0;
-  }
-#endif
-  //DEBUGMSG(DD_SYSTEM, DL_VERBOSE, "FilePath::normalizePath>> status '%s'\n", filename.c_str());
-
-  // Search for single dots inside.
-  dot_start = filename.find(string(1, DSEP) + "." + DSEP, 0);
-  while (dot_start != string::npos)
+  // Resolve every "." and ".." that is followed by a separator.
+  string normalized;
+  string::size_type start = 0;
+  for (separator = filename.find(DSEP, 0); separator != string::npos;
+       separator = filename.find(DSEP, start))
   {
-    //DEBUGMSG(DD_SYSTEM, DL_VERBOSE, "FilePath::normalizePath>> SingleDots inside '%s'\n",
-    //         filename.c_str());
-    string temp_filename(filename, 0, dot_start);
-    temp_filename.append(filename, dot_start + 2, filename.length() - dot_start - 2);
-    temp_filename.swap(filename);
+    string component(filename, start, separator - start);
+    bool is_first = (start == 0);
+    start = separator + 1;
 
-    dot_start = filename.find(string(1, DSEP) + "." + DSEP, dot_start);
-  }
-  //DEBUGMSG(DD_SYSTEM, DL_VERBOSE, "FilePath::normalizePath>> status '%s'\n", filename.c_str());
-
-  // Search for double dots.
-  dot_start = filename.find(string(1, DSEP) + ".." + DSEP, 0);
-  while (dot_start != string::npos)
-  {
-    //DEBUGMSG(DD_SYSTEM, DL_VERBOSE, "FilePath::normalizePath>> DoubleDots '%s' found at %i\n",
-    //         filename.c_str(), dot_start);
-
-    // Check if we can shorten the path.
-    slash_before_dot = filename.rfind(DSEP, dot_start - 1);
-    if (slash_before_dot != string::npos)
+    if (component == "." || (component.empty() && normalized.empty() && !is_first))
     {
-      // OK to shorten?
-      if (filename[slash_before_dot+1] != DSEP && filename[slash_before_dot+1] != '.' &&
-          (slash_before_dot >= 1) ? filename[slash_before_dot-1] != ':' : 1)
-      {
-        dot_start += 3;
-        string temp_filename(filename, 0, slash_before_dot);
-        temp_filename.append(filename, dot_start, filename.length() - dot_start);
-        temp_filename.swap(filename);
-      }
-      else
-      {
-        break;
-      }
-
-      dot_start = slash_before_dot;
+      continue;
     }
-    else if (dot_start > 0)
+    if (component == "..")
     {
-      string temp_filename;
-
+      string::size_type last = normalized.find_last_not_of(DSEP);
+      if (last != string::npos)
+      {
+        string::size_type begin = normalized.rfind(DSEP, last);
+        begin = (begin == string::npos) ? 0 : begin + 1;
+        string parent(normalized, begin, last + 1 - begin);
 #ifdef _SYSTEM_WIN32_
-      // Add drive letter?
-      if (filename[1] = ':')
+        // There is nothing above a drive letter.
+        if (parent[parent.length() - 1] == ':')
+        {
+          continue;
+        }
+#endif
+        if (parent != "..")
+        {
+          normalized.erase(begin);
+          continue;
+        }
+      }
+      else if (!normalized.empty())
       {
-        temp_filename.append(filename, 0, 2);
+        // There is nothing above the root directory.
+        continue;
       }
-#endif
-      // Really??
-      dot_start += 2;
-      temp_filename.append(filename, dot_start, filename.length() - dot_start);
-      temp_filename.swap(filename);
-      dot_start = 0;
     }
-    else
-    {
-      break;
-    }
-
-    dot_start = filename.find(string(1, DSEP) + ".." + DSEP, dot_start);
-  }
-  //DEBUGMSG(DD_SYSTEM, DL_VERBOSE, "FilePath::normalizePath>> status '%s'\n", filename.c_str());
-  // Search again for single dots at the beginning.
-  while (!filename.find(string(".") + DSEP))
-  {
-    //DEBUGMSG(DD_SYSTEM, DL_VERBOSE, "FilePath::normalizePath>> SingleDots at begin '%s'\n",
-    //         filename.c_str());
-    string temp_filename(filename, 2, string::npos);
-    temp_filename.swap(filename);
-  }
-#ifdef _SYSTEM_WIN32_
-  dot_start = 0;
-  // Search again for single dots after the drive letter at the
-  // beginning.
-  if ((filename.find(string(":.") + DSEP) == 1))
-  {
-    string temp_filename;
-    temp_filename.append(filename, 0, 2);
-    dot_start += 3;
-    temp_filename.append(filename, dot_start, filename.length() - dot_start);
-    temp_filename.swap(filename);
-    dot_start = 0;
+    normalized += component;
+    normalized += DSEP;
   }
-#endif
+  normalized.append(filename, start, string::npos);
+  filename.swap(normalized);
+
   //DEBUGMSG(DD_SYSTEM, DL_VERBOSE, "FilePath::normalizePath>> Return '%s'\n", filename.c_str());
   return filename;
 }
-- 
2.43.0


From 244577b61a744b02ce44864bbb45eeebc83cc321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:17 +0000
Subject: [PATCH 025/101] fix: FilePath::extension() throws if there is no dot
 and takes the dot of a directory

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index c275d9a..5542a24 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -403,6 +403,12 @@ void FilePath::init(const char* filename)
   }
 
   m_file_name_extension_split = m_file.rfind('.');
+  // A dot in a directory name does not start an extension.
+  if (m_file_name_extension_split == string::npos
+      || m_file_name_extension_split < m_file_path_name_split)
+  {
+    m_file_name_extension_split = m_file.length();
+  }
 }
 
 
-- 
2.43.0


From 17d980b2b909df6b8141516c0977d488c9297c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:17 +0000
Subject: [PATCH 026/101] fix: FilePath::replaceEnvironment() never returns if
 a variable refers to itself

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 5542a24..9c95842 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -227,9 +227,18 @@ icl_core::String FilePath::replaceEnvironment(const icl_core::String& _filename)
 
   //DEBUGMSG(DD_SYSTEM, DL_VERBOSE, "FilePath::replaceEnvironment(%s)\n", filename.c_str());
 
+  // The value of a variable can contain references, too, even to itself.
+  int replacements = 0;
+
   string::size_type dot_start = filename.find("${");
   while (dot_start != string::npos)
   {
+    if (++replacements > 1000)
+    {
+      printf("tFilePath::replaceEnvironment(%s)>> Failure on endless replacement\n",
+             (const char*) _filename.c_str());
+      return _filename;
+    }
     dot_start += 2;
     string::size_type dot_end = filename.find("}", dot_start);
     if (dot_end == string::npos)
-- 
2.43.0


From 766bf34c45bc6c6840383b48771b12612f5399be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:17 +0000
Subject: [PATCH 027/101] fix: FilePath resolves relative names against the
 directory the process was started in

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 9c95842..6d91428 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -29,6 +29,8 @@
 
 #ifdef _SYSTEM_WIN32_
 #include <direct.h>
+#else
+#include <unistd.h>
 #endif
 
 #include <ctype.h>
@@ -384,11 +386,12 @@ void FilePath::init(const char* filename)
     delete[] buffer;
   }
 #else
-  char* tmp;
-  tmp = getenv("PWD");
+  // $PWD still names the old directory after a call of chdir().
+  char* tmp = getcwd(NULL, 0);
   if (tmp != NULL)
   {
     m_pwd = tmp;
+    free(tmp);
   }
   else
   {
-- 
2.43.0


From b982519d7fec2f6eff255fa5154a072bff4e442f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 028/101] fix: AttributeTree::setAttribute(description, 0)
 erases the attribute of an existing subtree

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 6d91428..269f0b7 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -884,7 +884,10 @@ AttributeTree *AttributeTree::setAttribute(const char *param_description, const
     //printf("c:%p \n",ret);
     return ret;
   }
-  setAttribute(attribute);
+  if (attribute)
+  {
+    setAttribute(attribute);
+  }
   return this;
 }
 
-- 
2.43.0


From d6577ff151334e10dd212eae7647d7ee39c176cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 029/101] fix: AttributeTree::printSubTree() loses empty
 attributes and garbles comments in the bracket style

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 269f0b7..1ce27b7 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1150,10 +1150,10 @@ void AttributeTree::printSubTree(ostream& out, int change_style_depth, const cha
   }
 
   int contents = contains();
-  if (contents >= change_style_depth || needsBrackets(this))
+  if ((contents >= change_style_depth && !isComment()) || needsBrackets(this))
   {
     out << the_upper_description << t_description << '{' << endl;
-    if (m_this_attribute && strcmp(m_this_attribute, ""))
+    if (m_this_attribute)
     {
       out << the_upper_description << ':' << m_this_attribute << endl;
     }
-- 
2.43.0


From 16d7d4822c66b659369fb4608cc204e3d478fec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 030/101] fix: AttributeTree::save() reports success and
 unmarks changes although writing failed

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 1ce27b7..17c862f 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1214,6 +1214,11 @@ int AttributeTree::save(const char *filename, int change_style_depth, bool unmar
     return eFILE_SAVE_ERROR;
   }
   printSubTree(out, change_style_depth, "");
+  out.close();
+  if (!out)
+  {
+    return eFILE_SAVE_ERROR;
+  }
 
   if (unmark_changes)
   {
-- 
2.43.0


From 1005d2e443b58a93d67b6785c1d420e92ee432e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 031/101] fix: Getopt accepts a long option that needs a value
 although the value is missing

---
 src/icl_core/src/icl_core_config/GetoptParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/GetoptParser.cpp b/src/icl_core/src/icl_core_config/GetoptParser.cpp
index 9f04e5c..65a9840 100644
--- a/src/icl_core/src/icl_core_config/GetoptParser.cpp
+++ b/src/icl_core/src/icl_core_config/GetoptParser.cpp
@@ -151,7 +151,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
         {
           // According to the regular expression the value has to be
           // the 3rd (and last) match result.
-          if (mres.size() == 4)
+          if (mres[2].matched)
           {
             m_param_opt[name] = mres[3];
           }
@@ -182,7 +182,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
 
             if (prefix_it->second.hasValue())
             {
-              if (mres.size() == 4)
+              if (mres[2].matched)
               {
                 m_prefix_param_opt[prefix_it->first].push_back(KeyValue(prefix_res[1], mres[3]));
               }
-- 
2.43.0


From baaaae40455a0f87addff883a5f81e2871389cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 032/101] fix: Getopt::extraCmdParam() reads behind the end of
 the parameters

---
 src/icl_core/src/icl_core_config/GetoptParser.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/GetoptParser.cpp b/src/icl_core/src/icl_core_config/GetoptParser.cpp
index 65a9840..2ca6364 100644
--- a/src/icl_core/src/icl_core_config/GetoptParser.cpp
+++ b/src/icl_core/src/icl_core_config/GetoptParser.cpp
@@ -384,7 +384,15 @@ char **Getopt::argv() const
 
 icl_core::String Getopt::extraCmdParam(size_t index) const
 {
-  return m_extra_cmd_param[index];
+  if (index < m_extra_cmd_param.size())
+  {
+    return m_extra_cmd_param.at(index);
+  }
+  else
+  {
+    // If the parameter does not exist return an empty string.
+    return "";
+  }
 }
 
 size_t Getopt::extraCmdParamCount() const
-- 
2.43.0


From e764dfae7f6d7a292be66de715f9a1745f366edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 033/101] fix: Getopt interprets the name of a prefix option as
 a regular expression

---
 src/icl_core/src/icl_core_config/GetoptParser.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/GetoptParser.cpp b/src/icl_core/src/icl_core_config/GetoptParser.cpp
index 2ca6364..8237443 100644
--- a/src/icl_core/src/icl_core_config/GetoptParser.cpp
+++ b/src/icl_core/src/icl_core_config/GetoptParser.cpp
@@ -172,11 +172,10 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
         // Parameter not found in the list of configured parameters.
         // Check if a matching prefix option has been registered.
         bool found = false;
-        boost::smatch prefix_res;
         for (ParameterMap::const_iterator prefix_it = m_prefix_parameters.begin();
              !found && prefix_it != m_prefix_parameters.end(); ++prefix_it)
         {
-          if (boost::regex_match(name, prefix_res, boost::regex(prefix_it->first + "(.*)")))
+          if (name.compare(0, prefix_it->first.length(), prefix_it->first) == 0)
           {
             found = true;
 
@@ -184,7 +183,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
             {
               if (mres[2].matched)
               {
-                m_prefix_param_opt[prefix_it->first].push_back(KeyValue(prefix_res[1], mres[3]));
+                m_prefix_param_opt[prefix_it->first].push_back(KeyValue(name.substr(prefix_it->first.length()), mres[3]));
               }
               else
               {
@@ -195,7 +194,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
             }
             else
             {
-              m_prefix_param_opt[prefix_it->first].push_back(KeyValue(prefix_res[1], "yes"));
+              m_prefix_param_opt[prefix_it->first].push_back(KeyValue(name.substr(prefix_it->first.length()), "yes"));
             }
           }
         }
@@ -248,11 +247,10 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
         // Parameter not found in the list of configured parameters.
         // Check if a matching prefix option has been registered.
         bool found = false;
-        boost::smatch prefix_res;
         for (ParameterMap::const_iterator prefix_it = m_short_prefix_parameters.begin();
              !found && prefix_it != m_short_prefix_parameters.end(); ++prefix_it)
         {
-          if (boost::regex_match(name, prefix_res, boost::regex(prefix_it->first + "(.*)")))
+          if (name.compare(0, prefix_it->first.length(), prefix_it->first) == 0)
           {
             found = true;
 
@@ -268,12 +266,12 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
               }
               else
               {
-                m_prefix_param_opt[prefix_it->second.option()].push_back(KeyValue(prefix_res[1], *arg_it));
+                m_prefix_param_opt[prefix_it->second.option()].push_back(KeyValue(name.substr(prefix_it->first.length()), *arg_it));
               }
             }
             else
             {
-              m_prefix_param_opt[prefix_it->second.option()].push_back(KeyValue(prefix_res[1], "yes"));
+              m_prefix_param_opt[prefix_it->second.option()].push_back(KeyValue(name.substr(prefix_it->first.length()), "yes"));
             }
           }
         }
-- 
2.43.0


From b762aa2ebbb9061493493e31b20edee93d9eb364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 034/101] fix: Getopt does not recognize a delimiter of extra
 parameters that looks like an option

---
 src/icl_core/src/icl_core_config/GetoptParser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/GetoptParser.cpp b/src/icl_core/src/icl_core_config/GetoptParser.cpp
index 8237443..decf0d8 100644
--- a/src/icl_core/src/icl_core_config/GetoptParser.cpp
+++ b/src/icl_core/src/icl_core_config/GetoptParser.cpp
@@ -140,6 +140,10 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
     {
       m_extra_cmd_param.push_back(*arg_it);
     }
+    else if (m_extra_cmd_param_activated && *arg_it == m_extra_cmd_param_delimiter)
+    {
+      extra_cmd_params_reached = true;
+    }
     else if (boost::regex_match(*arg_it, mres, long_opt_regex))
     {
       // Found a long option parameter!
@@ -292,10 +296,6 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
         }
       }
     }
-    else if (m_extra_cmd_param_activated && *arg_it == m_extra_cmd_param_delimiter)
-    {
-      extra_cmd_params_reached = true;
-    }
     else if (positional_parameters_counter < m_required_positional_parameters.size())
     {
       // Found a required positional parameter
-- 
2.43.0


From b76400959df358ea804526e46ef485a1ded1d952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 035/101] fix: Getopt's cleanup keeps consumed arguments that
 equal a remaining one

---
 .../src/icl_core_config/GetoptParser.cpp      | 27 ++++++++-----------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/GetoptParser.cpp b/src/icl_core/src/icl_core_config/GetoptParser.cpp
index decf0d8..2eeef4a 100644
--- a/src/icl_core/src/icl_core_config/GetoptParser.cpp
+++ b/src/icl_core/src/icl_core_config/GetoptParser.cpp
@@ -20,6 +20,7 @@
  */
 //----------------------------------------------------------------------
 #include <iostream>
+#include <iterator>
 #include <stdlib.h>
 #include <boost/regex.hpp>
 #include <boost/foreach.hpp>
@@ -128,6 +129,8 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
 
   // Scan the commandline parameters and check for
   // registered options.
+  const icl_core::List<icl_core::String>& all_arguments = arguments;
+  icl_core::Vector<char*> non_opt_args;
   size_t positional_parameters_counter = 0;
   bool extra_cmd_params_reached = false;
   boost::regex long_opt_regex("--([^-][^=]*)(=(.*))?");
@@ -215,6 +218,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
           else
           {
             m_param_non_opt.push_back(*arg_it);
+            non_opt_args.push_back(argv[1 + std::distance(all_arguments.begin(), arg_it)]);
           }
         }
       }
@@ -292,6 +296,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
           else
           {
             m_param_non_opt.push_back(*arg_it);
+            non_opt_args.push_back(argv[1 + std::distance(all_arguments.begin(), arg_it)]);
           }
         }
       }
@@ -325,6 +330,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
 //      else
       {
         m_param_non_opt.push_back(*arg_it);
+        non_opt_args.push_back(argv[1 + std::distance(all_arguments.begin(), arg_it)]);
       }
     }
   }
@@ -347,23 +353,12 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
   // Remove all option parameters from the "real" commandline.
   if (cleanup == eCLC_Cleanup)
   {
-    int check = 1;
-    while (check < argc)
+    // Keep exactly the arguments which are not options.
+    argc = 1;
+    for (size_t index = 0; index < non_opt_args.size(); ++index)
     {
-      icl_core::Vector<icl_core::String>::const_iterator find_it =
-        std::find(m_param_non_opt.begin(), m_param_non_opt.end(), icl_core::String(argv[check]));
-      if (find_it == m_param_non_opt.end())
-      {
-        for (int move = check + 1; move < argc; ++move)
-        {
-          argv[move - 1] = argv[move];
-        }
-        --argc;
-      }
-      else
-      {
-        ++check;
-      }
+      argv[argc] = non_opt_args[index];
+      ++argc;
     }
   }
 
-- 
2.43.0


From bfb3cb70925e552898614b87c81b560ee7e57571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 036/101] fix: Getopt never becomes initialized and accumulates
 the arguments of every call

---
 src/icl_core/src/icl_core_config/GetoptParser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/icl_core/src/icl_core_config/GetoptParser.cpp b/src/icl_core/src/icl_core_config/GetoptParser.cpp
index 2eeef4a..07cbf4c 100644
--- a/src/icl_core/src/icl_core_config/GetoptParser.cpp
+++ b/src/icl_core/src/icl_core_config/GetoptParser.cpp
@@ -116,6 +116,11 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
   m_argc = argc;
   m_argv = argv;
 
+  // Forget the results of an earlier attempt that failed.
+  m_param_non_opt.clear();
+  m_param_opt.clear();
+  m_prefix_param_opt.clear();
+  m_extra_cmd_param.clear();
 
   // Store the program name.
   m_program_name = argv[0];
@@ -362,6 +367,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
     }
   }
 
+  m_initialized = true;
   return true;
 }
 
-- 
2.43.0


From cddbb23650b8d87b7e83d224fbeb26d71ffd436a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 037/101] fix: A configuration file that includes itself
 overflows the stack

---
 src/icl_core/src/icl_core_config/ConfigManager.cpp | 14 +++++++++++++-
 src/icl_core/src/icl_core_config/ConfigManager.h   |  3 +++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/ConfigManager.cpp b/src/icl_core/src/icl_core_config/ConfigManager.cpp
index 673c78b..89e20fe 100644
--- a/src/icl_core/src/icl_core_config/ConfigManager.cpp
+++ b/src/icl_core/src/icl_core_config/ConfigManager.cpp
@@ -22,6 +22,7 @@
 #include "icl_core_config/ConfigManager.h"
 
 #include <assert.h>
+#include <algorithm>
 #include <iostream>
 #include <tinyxml.h>
 
@@ -216,7 +217,9 @@ bool ConfigManager::load(const icl_core::String& filename)
       TiXmlElement *root_element = doc.RootElement();
       if (root_element != 0)
       {
+        m_files_in_progress.push_back(fp.absoluteName());
         readXml("", root_element, fp, false);
+        m_files_in_progress.pop_back();
       }
       return true;
     }
@@ -250,7 +253,16 @@ void ConfigManager::readXml(const icl_core::String& prefix, TiXmlNode *node, Fil
         const char *included_file = child_element->GetText();
         if (included_file != NULL)
         {
-          load(fp.path() + included_file);
+          const icl_core::String filename = fp.path() + included_file;
+          if (std::find(m_files_in_progress.begin(), m_files_in_progress.end(),
+                        FilePath(filename.c_str()).absoluteName()) != m_files_in_progress.end())
+          {
+            std::cerr << "CONFIG ERROR: The configuration file '" << filename << "' includes itself!" << std::endl;
+          }
+          else
+          {
+            load(filename);
+          }
         }
       }
       else
diff --git a/src/icl_core/src/icl_core_config/ConfigManager.h b/src/icl_core/src/icl_core_config/ConfigManager.h
index 87f56fb..b1de1d8 100644
--- a/src/icl_core/src/icl_core_config/ConfigManager.h
+++ b/src/icl_core/src/icl_core_config/ConfigManager.h
@@ -238,6 +238,9 @@ private:
 
   typedef icl_core::Map<icl_core::String, icl_core::List<ConfigObserver*> > ObserverMap;
   ObserverMap m_observers;
+
+  //! The XML files which are currently being read.
+  icl_core::List<icl_core::String> m_files_in_progress;
 };
 
   ////////////// DEPRECATED VERSIONS //////////////
-- 
2.43.0


From 9b010b47051887f0ddf8cd825e59596d1b37c8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:43 +0000
Subject: [PATCH 038/101] fix: AttributeTree::load() reports success for a file
 that cannot be read

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 17c862f..ed0fda5 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1272,6 +1272,11 @@ int AttributeTree::load(const char *filename, bool unmark_changes, bool process_
            (const char*) at_file.absoluteName().c_str());
     return eFILE_LOAD_ERROR;
   }
+  if (in.bad())
+  {
+    printf("tAttributeTree >> Could not read file '%s'\n", (const char*)at_file.absoluteName().c_str());
+    return eFILE_LOAD_ERROR;
+  }
 
 
   if (unmark_changes)
-- 
2.43.0


From ab9eb4585759cb20cc0e9b246a39fb20f857abe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 039/101] fix: Configuration and command line strings are cut
 off at the first blank

---
 src/icl_core/src/icl_core_config/Util.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/Util.h b/src/icl_core/src/icl_core_config/Util.h
index fac3669..d90b96e 100644
--- a/src/icl_core/src/icl_core_config/Util.h
+++ b/src/icl_core/src/icl_core_config/Util.h
@@ -36,6 +36,19 @@ namespace config {
 //! Namespace for internal implementation details.
 namespace impl {
 
+//! Extracts a value from a stream.
+template <typename T>
+void hexicalExtract(std::stringstream& interpreter, T& result)
+{
+  interpreter >> result;
+}
+
+//! A string is taken as a whole, including whitespace.
+inline void hexicalExtract(std::stringstream& interpreter, std::string& result)
+{
+  result = interpreter.str();
+}
+
 /*! Lexical cast which handles hexadecimal and octal numbers
  *  correctly.
  */
@@ -46,7 +59,7 @@ T hexical_cast(U input)
   interpreter.setf(std::ios::fmtflags(), std::ios::basefield);
   interpreter << input;
   T result;
-  interpreter >> result;
+  hexicalExtract(interpreter, result);
   return result;
 }
 
-- 
2.43.0


From 891aa6fc35f5e3ba94c626c7516f3658b311ebc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 040/101] fix: Reading a number from a text that is none
 succeeds with an undefined value

---
 src/icl_core/src/icl_core_config/Util.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/Util.h b/src/icl_core/src/icl_core_config/Util.h
index d90b96e..b9b4719 100644
--- a/src/icl_core/src/icl_core_config/Util.h
+++ b/src/icl_core/src/icl_core_config/Util.h
@@ -50,7 +50,8 @@ inline void hexicalExtract(std::stringstream& interpreter, std::string& result)
 }
 
 /*! Lexical cast which handles hexadecimal and octal numbers
- *  correctly.
+ *  correctly.  If the input is not a value of the requested type,
+ *  std::invalid_argument is thrown.
  */
 template <typename T, typename U>
 T hexical_cast(U input)
@@ -60,6 +61,10 @@ T hexical_cast(U input)
   interpreter << input;
   T result;
   hexicalExtract(interpreter, result);
+  if (interpreter.fail())
+  {
+    throw std::invalid_argument("Not a value of the requested type: " + interpreter.str());
+  }
   return result;
 }
 
-- 
2.43.0


From 7d956d7f2c1527d16f198ed203fa4ad7880826c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 041/101] fix: Boolean command line options are always read as
 false

---
 src/icl_core/src/icl_core_config/Util.h | 70 ++++++++++++++-----------
 1 file changed, 38 insertions(+), 32 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/Util.h b/src/icl_core/src/icl_core_config/Util.h
index b9b4719..5bcf272 100644
--- a/src/icl_core/src/icl_core_config/Util.h
+++ b/src/icl_core/src/icl_core_config/Util.h
@@ -36,38 +36,6 @@ namespace config {
 //! Namespace for internal implementation details.
 namespace impl {
 
-//! Extracts a value from a stream.
-template <typename T>
-void hexicalExtract(std::stringstream& interpreter, T& result)
-{
-  interpreter >> result;
-}
-
-//! A string is taken as a whole, including whitespace.
-inline void hexicalExtract(std::stringstream& interpreter, std::string& result)
-{
-  result = interpreter.str();
-}
-
-/*! Lexical cast which handles hexadecimal and octal numbers
- *  correctly.  If the input is not a value of the requested type,
- *  std::invalid_argument is thrown.
- */
-template <typename T, typename U>
-T hexical_cast(U input)
-{
-  std::stringstream interpreter;
-  interpreter.setf(std::ios::fmtflags(), std::ios::basefield);
-  interpreter << input;
-  T result;
-  hexicalExtract(interpreter, result);
-  if (interpreter.fail())
-  {
-    throw std::invalid_argument("Not a value of the requested type: " + interpreter.str());
-  }
-  return result;
-}
-
 /*! Lexical cast to bool.  Handles hexadecimal and octal numbers
  *  correctly like other integer values.
  *  \li The values 1, "yes" and "true" (in any capitalization) are
@@ -124,6 +92,44 @@ bool strict_bool_cast(U input)
   }
 }
 
+//! Extracts a value from a stream.
+template <typename T>
+void hexicalExtract(std::stringstream& interpreter, T& result)
+{
+  interpreter >> result;
+}
+
+//! A boolean value can also be given in words.
+inline void hexicalExtract(std::stringstream& interpreter, bool& result)
+{
+  result = strict_bool_cast(interpreter.str());
+}
+
+//! A string is taken as a whole, including whitespace.
+inline void hexicalExtract(std::stringstream& interpreter, std::string& result)
+{
+  result = interpreter.str();
+}
+
+/*! Lexical cast which handles hexadecimal and octal numbers
+ *  correctly.  If the input is not a value of the requested type,
+ *  std::invalid_argument is thrown.
+ */
+template <typename T, typename U>
+T hexical_cast(U input)
+{
+  std::stringstream interpreter;
+  interpreter.setf(std::ios::fmtflags(), std::ios::basefield);
+  interpreter << input;
+  T result;
+  hexicalExtract(interpreter, result);
+  if (interpreter.fail())
+  {
+    throw std::invalid_argument("Not a value of the requested type: " + interpreter.str());
+  }
+  return result;
+}
+
 }
 }
 }
-- 
2.43.0


From c63d490edf979ac0ace9eaf98294a301fdcfb2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 042/101] fix: ConfigValueDefault and ConfigEnumDefault keep a
 reference to a temporary default value

---
 src/icl_core/src/icl_core_config/ConfigEnumDefault.h  | 2 +-
 src/icl_core/src/icl_core_config/ConfigValueDefault.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/ConfigEnumDefault.h b/src/icl_core/src/icl_core_config/ConfigEnumDefault.h
index 5b38c95..9459b20 100644
--- a/src/icl_core/src/icl_core_config/ConfigEnumDefault.h
+++ b/src/icl_core/src/icl_core_config/ConfigEnumDefault.h
@@ -72,7 +72,7 @@ public:
   }
 
 private:
-  typename icl_core::ConvertToRef<T>::ToConstRef m_default_value;
+  T m_default_value;
 };
 
 }}
diff --git a/src/icl_core/src/icl_core_config/ConfigValueDefault.h b/src/icl_core/src/icl_core_config/ConfigValueDefault.h
index fab3eab..b6be348 100644
--- a/src/icl_core/src/icl_core_config/ConfigValueDefault.h
+++ b/src/icl_core/src/icl_core_config/ConfigValueDefault.h
@@ -70,7 +70,7 @@ public:
   }
 
 private:
-  typename icl_core::ConvertToRef<T>::ToConstRef m_default_value;
+  T m_default_value;
 };
 
 }}
-- 
2.43.0


From 4a5cc45985ea091684afe29716221bdf7a240f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 043/101] fix: registerObserver() interprets the key as a
 regular expression

---
 src/icl_core/src/icl_core_config/ConfigManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/ConfigManager.cpp b/src/icl_core/src/icl_core_config/ConfigManager.cpp
index 89e20fe..78be063 100644
--- a/src/icl_core/src/icl_core_config/ConfigManager.cpp
+++ b/src/icl_core/src/icl_core_config/ConfigManager.cpp
@@ -321,7 +321,7 @@ void ConfigManager::registerObserver(ConfigObserver *observer, const icl_core::S
       observer->valueChanged(iter.key());
     }
   }
-  else if (find(key).next())
+  else if (hasKey(key))
   {
     observer->valueChanged(key);
   }
-- 
2.43.0


From 7b9f13aaa73d3dc58199e2888a59b47e2dc7b604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 044/101] fix: ConfigList interprets its prefix as a regular
 expression

---
 src/icl_core/src/icl_core_config/ConfigList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/ConfigList.h b/src/icl_core/src/icl_core_config/ConfigList.h
index 8c315cf..409b87e 100644
--- a/src/icl_core/src/icl_core_config/ConfigList.h
+++ b/src/icl_core/src/icl_core_config/ConfigList.h
@@ -71,7 +71,7 @@ public:
     bool result = false;
     bool error = false;
     ConfigIterator cIter = ConfigManager::instance().find(
-      boost::regex_replace(prefix + m_config_prefix, boost::regex("\\/"), "\\\\\\/") + "\\/(.+?)(\\/(.+))?");
+      boost::regex_replace(prefix + m_config_prefix, boost::regex("[\\/.^$|()\\[\\]{}*+?\\\\]"), "\\\\$&") + "\\/(.+?)(\\/(.+))?");
     while(cIter.next())
     {
       bool found = false;
-- 
2.43.0


From b5a9d31a0de473abdeb70c4ba45679c25a512367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 045/101] fix: ConfigList::get() returns the elements of
 earlier calls again

---
 src/icl_core/src/icl_core_config/ConfigList.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/icl_core/src/icl_core_config/ConfigList.h b/src/icl_core/src/icl_core_config/ConfigList.h
index 409b87e..30565f9 100644
--- a/src/icl_core/src/icl_core_config/ConfigList.h
+++ b/src/icl_core/src/icl_core_config/ConfigList.h
@@ -70,6 +70,10 @@ public:
   {
     bool result = false;
     bool error = false;
+
+    m_element_map.clear();
+    m_string_value_map.clear();
+
     ConfigIterator cIter = ConfigManager::instance().find(
       boost::regex_replace(prefix + m_config_prefix, boost::regex("[\\/.^$|()\\[\\]{}*+?\\\\]"), "\\\\$&") + "\\/(.+?)(\\/(.+))?");
     while(cIter.next())
-- 
2.43.0


From 3bbcc3c281a35e281cb71eca6c6cd230eccda466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 046/101] fix: ConfigManager calls observers which were
 unregistered or deleted by another observer

---
 src/icl_core/src/icl_core_config/ConfigManager.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/ConfigManager.cpp b/src/icl_core/src/icl_core_config/ConfigManager.cpp
index 78be063..339634a 100644
--- a/src/icl_core/src/icl_core_config/ConfigManager.cpp
+++ b/src/icl_core/src/icl_core_config/ConfigManager.cpp
@@ -431,7 +431,17 @@ void ConfigManager::notify(const icl_core::String &key) const
   icl_core::List<ConfigObserver*>::iterator iter;
   for (iter = observers.begin(); iter != observers.end(); ++iter)
   {
-    (*iter)->valueChanged(key);
+    // An earlier observer may have unregistered (or deleted) this one.
+    bool registered = false;
+    for (find_it = m_observers.begin(); !registered && find_it != m_observers.end(); ++find_it)
+    {
+      registered = (find_it->first == key || find_it->first == "")
+        && std::find(find_it->second.begin(), find_it->second.end(), *iter) != find_it->second.end();
+    }
+    if (registered)
+    {
+      (*iter)->valueChanged(key);
+    }
   }
 }
 
-- 
2.43.0


From ff8c85c04ae096ce4d1e6ee45214be79c9d187d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:15 +0000
Subject: [PATCH 047/101] fix: SpinLock::tryLock() reports success exactly when
 it failed

---
 src/icl_core/src/icl_core_thread/SpinLock.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_thread/SpinLock.h b/src/icl_core/src/icl_core_thread/SpinLock.h
index ab955c5..85fafa2 100644
--- a/src/icl_core/src/icl_core_thread/SpinLock.h
+++ b/src/icl_core/src/icl_core_thread/SpinLock.h
@@ -59,7 +59,7 @@ public:
    */
   bool tryLock()
   {
-    return (m_state.exchange(LOCKED, boost::memory_order_acquire) == LOCKED);
+    return (m_state.exchange(LOCKED, boost::memory_order_acquire) == UNLOCKED);
   }
 
   //! Unlocks the mutex.
-- 
2.43.0


From f15f9e2bb7568dd6df7fce742da1661409072839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:13 +0000
Subject: [PATCH 048/101] fix: Semaphore::wait() fails if a signal arrives
 while it waits

---
 .../src/icl_core_logging/SemaphoreImplPosix.cpp    |  7 ++++++-
 .../src/icl_core_thread/SemaphoreImplPosix.cpp     | 14 ++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/SemaphoreImplPosix.cpp b/src/icl_core/src/icl_core_logging/SemaphoreImplPosix.cpp
index 9d23ad7..2cff99b 100644
--- a/src/icl_core/src/icl_core_logging/SemaphoreImplPosix.cpp
+++ b/src/icl_core/src/icl_core_logging/SemaphoreImplPosix.cpp
@@ -50,7 +50,12 @@ void SemaphoreImplPosix::post()
 
 bool SemaphoreImplPosix::wait()
 {
-  int res = sem_wait(m_semaphore);
+  int res = 0;
+  do
+  {
+    res = sem_wait(m_semaphore);
+  }
+  while (res != 0 && errno == EINTR);
   return (res == 0);
 }
 
diff --git a/src/icl_core/src/icl_core_thread/SemaphoreImplPosix.cpp b/src/icl_core/src/icl_core_thread/SemaphoreImplPosix.cpp
index 7a2f996..cfa47c4 100644
--- a/src/icl_core/src/icl_core_thread/SemaphoreImplPosix.cpp
+++ b/src/icl_core/src/icl_core_thread/SemaphoreImplPosix.cpp
@@ -58,7 +58,12 @@ bool SemaphoreImplPosix::tryWait()
 
 bool SemaphoreImplPosix::wait()
 {
-  int res = sem_wait(m_semaphore);
+  int res = 0;
+  do
+  {
+    res = sem_wait(m_semaphore);
+  }
+  while (res != 0 && errno == EINTR);
   return (res == 0);
 }
 
@@ -70,7 +75,12 @@ bool SemaphoreImplPosix::wait(const icl_core::TimeSpan& timeout)
 bool SemaphoreImplPosix::wait(const icl_core::TimeStamp& timeout)
 {
   struct timespec timeout_spec = timeout.timespec();
-  int res = sem_timedwait(m_semaphore, &timeout_spec);
+  int res = 0;
+  do
+  {
+    res = sem_timedwait(m_semaphore, &timeout_spec);
+  }
+  while (res != 0 && errno == EINTR);
   return (res == 0);
 }
 
-- 
2.43.0


From 7a13a5b6273a73451f2bdc0a5c649f1be440457c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 049/101] fix: The state of a thread is shared without
 synchronisation

---
 src/icl_core/src/icl_core_logging/Thread.h | 10 ++++++----
 src/icl_core/src/icl_core_thread/Thread.h  | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/Thread.h b/src/icl_core/src/icl_core_logging/Thread.h
index 24da6cd..aa3d3f4 100644
--- a/src/icl_core/src/icl_core_logging/Thread.h
+++ b/src/icl_core/src/icl_core_logging/Thread.h
@@ -27,6 +27,8 @@
 #ifndef ICL_CORE_LOGGING_THREAD_H_INCLUDED
 #define ICL_CORE_LOGGING_THREAD_H_INCLUDED
 
+#include <boost/atomic.hpp>
+
 #include <icl_core/BaseTypes.h>
 #include <icl_core/os_thread.h>
 #include <icl_core/Noncopyable.h>
@@ -102,10 +104,10 @@ private:
   //! Suspends the calling thread until thread is started.
   void waitStarted() const;
 
-  bool m_execute;
-  bool m_finished;
-  bool m_joined;
-  bool m_starting;
+  boost::atomic<bool> m_execute;
+  boost::atomic<bool> m_finished;
+  boost::atomic<bool> m_joined;
+  boost::atomic<bool> m_starting;
 
   ThreadImpl *m_impl;
 
diff --git a/src/icl_core/src/icl_core_thread/Thread.h b/src/icl_core/src/icl_core_thread/Thread.h
index 550ce0e..4debf6e 100644
--- a/src/icl_core/src/icl_core_thread/Thread.h
+++ b/src/icl_core/src/icl_core_thread/Thread.h
@@ -31,6 +31,8 @@
 #ifndef ICL_CORE_THREAD_THREAD_H_INCLUDED
 #define ICL_CORE_THREAD_THREAD_H_INCLUDED
 
+#include <boost/atomic.hpp>
+
 #include <icl_core/BaseTypes.h>
 #include <icl_core/Noncopyable.h>
 #include <icl_core/TimeSpan.h>
@@ -395,10 +397,10 @@ private:
 #endif
   /////////////////////////////////////////////////
 
-  bool m_execute;
-  bool m_finished;
-  bool m_joined;
-  bool m_starting;
+  boost::atomic<bool> m_execute;
+  boost::atomic<bool> m_finished;
+  boost::atomic<bool> m_joined;
+  boost::atomic<bool> m_starting;
 
   icl_core::String m_thread_info;
   icl_core::ThreadPriority m_priority;
-- 
2.43.0


From b7b3e4639ffad994cb2a0d4fc6306feab94ccdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 050/101] fix: Threads which have ended are never joined

---
 src/icl_core/src/icl_core_logging/Thread.cpp | 8 ++++----
 src/icl_core/src/icl_core_thread/Thread.cpp  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/Thread.cpp b/src/icl_core/src/icl_core_logging/Thread.cpp
index 4a26fb4..c18b4ae 100644
--- a/src/icl_core/src/icl_core_logging/Thread.cpp
+++ b/src/icl_core/src/icl_core_logging/Thread.cpp
@@ -83,7 +83,7 @@ Thread::~Thread()
 
 void Thread::join()
 {
-  if (running())
+  if (!m_joined)
   {
     m_impl->join();
   }
@@ -101,14 +101,14 @@ bool Thread::start()
     return running();
   }
 
-  m_starting = true;
-  m_finished = false;
-
   if (!m_joined)
   {
     join();
   }
 
+  m_starting = true;
+  m_finished = false;
+
   m_joined = false;
 
   if (!m_impl->start())
diff --git a/src/icl_core/src/icl_core_thread/Thread.cpp b/src/icl_core/src/icl_core_thread/Thread.cpp
index fce345e..0b9e981 100644
--- a/src/icl_core/src/icl_core_thread/Thread.cpp
+++ b/src/icl_core/src/icl_core_thread/Thread.cpp
@@ -137,7 +137,7 @@ bool Thread::executesHardRealtime() const
 
 void Thread::join()
 {
-  if (running())
+  if (!m_joined)
   {
     m_impl->join();
   }
@@ -183,14 +183,14 @@ bool Thread::start()
     return running();
   }
 
-  m_starting = true;
-  m_finished = false;
-
   if (!m_joined)
   {
     join();
   }
 
+  m_starting = true;
+  m_finished = false;
+
   m_joined = false;
 
   if (!m_impl->start())
-- 
2.43.0


From 9be95bba62cd08bb8da6ccbc9a9e88e097f5891b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 051/101] fix: Thread::wait() fails if the thread ends while it
 waits

---
 src/icl_core/src/icl_core_thread/Thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_thread/Thread.cpp b/src/icl_core/src/icl_core_thread/Thread.cpp
index 0b9e981..593b404 100644
--- a/src/icl_core/src/icl_core_thread/Thread.cpp
+++ b/src/icl_core/src/icl_core_thread/Thread.cpp
@@ -241,8 +241,8 @@ void Thread::runThread()
   run();
 
   m_execute = false;
-  m_thread_mutex.unlock();
   m_finished = true;
+  m_thread_mutex.unlock();
 
   LOGGING_TRACE_CO(IclCoreThread, Thread, threadInfo(), "Done." << endl);
 }
-- 
2.43.0


From 933383e333d65c834c1ead230927f7bdd3ed12c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 052/101] fix: A cancelled thread keeps its mutex locked and
 cannot be started again

---
 src/icl_core/src/icl_core_thread/Thread.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core_thread/Thread.cpp b/src/icl_core/src/icl_core_thread/Thread.cpp
index 593b404..2753ad4 100644
--- a/src/icl_core/src/icl_core_thread/Thread.cpp
+++ b/src/icl_core/src/icl_core_thread/Thread.cpp
@@ -28,6 +28,7 @@
 
 #include "Common.h"
 #include "Logging.h"
+#include "ScopedMutexLock.h"
 
 #if defined _SYSTEM_LXRT_
 # include "ThreadImplLxrt.h"
@@ -228,10 +229,12 @@ void Thread::runThread()
 
   LOGGING_TRACE_CO(IclCoreThread, Thread, threadInfo(), "Begin." << endl);
 
-  m_thread_mutex.lock();
+  // Released by its destructor, because a cancelled thread does not
+  // return from run().
+  ScopedMutexLock lock(m_thread_mutex);
   m_execute = true;
-  m_starting = false;
   m_finished = false;
+  m_starting = false;
 
   // If this is actually a periodic thread, this call makes it periodic.
   // It this is a "normal" thread, this call does nothing.
@@ -242,7 +245,6 @@ void Thread::runThread()
 
   m_execute = false;
   m_finished = true;
-  m_thread_mutex.unlock();
 
   LOGGING_TRACE_CO(IclCoreThread, Thread, threadInfo(), "Done." << endl);
 }
-- 
2.43.0


From bf7d5d7eb4e07741052e1f16d6fa9414447b4685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:49 +0000
Subject: [PATCH 053/101] fix: Periodic threads leak a timer descriptor for
 every start

---
 .../icl_core_thread/PeriodicThreadImplTimerfd.cpp    | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp b/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
index a96e422..8776fcd 100644
--- a/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
+++ b/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
@@ -28,6 +28,7 @@
 #include "Logging.h"
 
 #include <sys/timerfd.h>
+#include <unistd.h>
 
 namespace icl_core {
 namespace thread {
@@ -37,15 +38,26 @@ PeriodicThreadImplTimerfd::PeriodicThreadImplTimerfd(const icl_core::TimeSpan& p
     timer_created(false)
 {
   m_info = new struct periodic_info;
+  m_info->timer_fd = -1;
 }
 
 PeriodicThreadImplTimerfd::~PeriodicThreadImplTimerfd()
 {
+  if (m_info->timer_fd != -1)
+  {
+    close(m_info->timer_fd);
+  }
   delete m_info;
 }
 
 void PeriodicThreadImplTimerfd::makePeriodic()
 {
+  /* Release the timer of an earlier run */
+  if (m_info->timer_fd != -1)
+  {
+    close(m_info->timer_fd);
+  }
+
   /* Create the timer */
   int fd = timerfd_create(CLOCK_MONOTONIC, 0);
   m_info->wakeups_missed = 0;
-- 
2.43.0


From e79c7ef9a47c0842df705531ea6e8253fa39c7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:49 +0000
Subject: [PATCH 054/101] fix: A signal ends the wait for the period

---
 .../src/icl_core_thread/PeriodicThreadImplTimerfd.cpp      | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp b/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
index 8776fcd..716b38a 100644
--- a/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
+++ b/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
@@ -27,6 +27,7 @@
 #include "PeriodicThreadImplTimerfd.h"
 #include "Logging.h"
 
+#include <errno.h>
 #include <sys/timerfd.h>
 #include <unistd.h>
 
@@ -107,7 +108,11 @@ void PeriodicThreadImplTimerfd::waitPeriod()
 
   /* Wait for the next timer event. If we have missed any the
      number is written to "missed" */
-  ret = read(m_info->timer_fd, &missed, sizeof(missed));
+  do
+  {
+    ret = read(m_info->timer_fd, &missed, sizeof(missed));
+  }
+  while (ret == -1 && errno == EINTR);
   if (ret == -1)
   {
     perror ("read timer");
-- 
2.43.0


From 6960ccc96d3e96fb693a9d69f6750bd2e2982f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:49 +0000
Subject: [PATCH 055/101] fix: PeriodicThread::setPeriod() reports failure if
 the thread is not running

---
 .../src/icl_core_thread/PeriodicThreadImplTimerfd.cpp    | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp b/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
index 716b38a..00ad838 100644
--- a/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
+++ b/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
@@ -73,9 +73,13 @@ void PeriodicThreadImplTimerfd::makePeriodic()
 
 bool PeriodicThreadImplTimerfd::setPeriod(const icl_core::TimeSpan& period)
 {
-  m_period = period;
+  if (period < icl_core::TimeSpan())
+  {
+    return false;
+  }
 
-  int ret = -1;
+  // Without a timer the period is used when it is created.
+  int ret = 0;
   if (timer_created)
   {
     /* Make the timer periodic */
@@ -97,6 +101,7 @@ bool PeriodicThreadImplTimerfd::setPeriod(const icl_core::TimeSpan& period)
   }
   else
   {
+    m_period = period;
     return true;
   }
 }
-- 
2.43.0


From f0de0e5d64adef79fb6562b6a96cbae63065da2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:49 +0000
Subject: [PATCH 056/101] fix: The period of a periodic thread is shared
 without synchronisation

---
 .../PeriodicThreadImplTimerfd.cpp               | 17 ++++++++++++++++-
 .../icl_core_thread/PeriodicThreadImplTimerfd.h |  7 ++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp b/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
index 00ad838..2106b05 100644
--- a/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
+++ b/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
@@ -26,6 +26,7 @@
 
 #include "PeriodicThreadImplTimerfd.h"
 #include "Logging.h"
+#include "ScopedMutexLock.h"
 
 #include <errno.h>
 #include <sys/timerfd.h>
@@ -51,8 +52,16 @@ PeriodicThreadImplTimerfd::~PeriodicThreadImplTimerfd()
   delete m_info;
 }
 
+icl_core::TimeSpan PeriodicThreadImplTimerfd::period() const
+{
+  ScopedMutexLock lock(m_mutex);
+  return m_period;
+}
+
 void PeriodicThreadImplTimerfd::makePeriodic()
 {
+  ScopedMutexLock lock(m_mutex);
+
   /* Release the timer of an earlier run */
   if (m_info->timer_fd != -1)
   {
@@ -68,10 +77,16 @@ void PeriodicThreadImplTimerfd::makePeriodic()
     timer_created = true;
   }
 
-  setPeriod(m_period);
+  updateTimer(m_period);
 }
 
 bool PeriodicThreadImplTimerfd::setPeriod(const icl_core::TimeSpan& period)
+{
+  ScopedMutexLock lock(m_mutex);
+  return updateTimer(period);
+}
+
+bool PeriodicThreadImplTimerfd::updateTimer(const icl_core::TimeSpan& period)
 {
   if (period < icl_core::TimeSpan())
   {
diff --git a/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.h b/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.h
index b68596f..e172d24 100644
--- a/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.h
+++ b/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.h
@@ -27,6 +27,7 @@
 #ifndef ICL_CORE_THREAD_PERIODIC_THREAD_IMPL_TIMERFD_H_INCLUDED
 #define ICL_CORE_THREAD_PERIODIC_THREAD_IMPL_TIMERFD_H_INCLUDED
 
+#include "Mutex.h"
 #include "PeriodicThreadImpl.h"
 
 namespace icl_core {
@@ -39,7 +40,7 @@ public:
   virtual ~PeriodicThreadImplTimerfd();
 
   virtual void makePeriodic();
-  virtual icl_core::TimeSpan period() const { return m_period; }
+  virtual icl_core::TimeSpan period() const;
   virtual bool setPeriod(const icl_core::TimeSpan& period);
   virtual void waitPeriod();
 
@@ -51,6 +52,10 @@ private:
   };
   struct periodic_info *m_info;
 
+  // Sets the timer, the mutex has to be locked by the caller.
+  bool updateTimer(const icl_core::TimeSpan& period);
+
+  mutable Mutex m_mutex;
   icl_core::TimeSpan m_period;
   bool timer_created;
 
-- 
2.43.0


From 3004d868fd37197f60c04309eafb23f9eb14955c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:49 +0000
Subject: [PATCH 057/101] fix: The first wait of an emulated periodic thread
 does not wait

---
 .../src/icl_core_thread/PeriodicThreadImplEmulate.cpp        | 5 +++++
 src/icl_core/src/icl_core_thread/PeriodicThreadImplEmulate.h | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_thread/PeriodicThreadImplEmulate.cpp b/src/icl_core/src/icl_core_thread/PeriodicThreadImplEmulate.cpp
index dd73048..caefae2 100644
--- a/src/icl_core/src/icl_core_thread/PeriodicThreadImplEmulate.cpp
+++ b/src/icl_core/src/icl_core_thread/PeriodicThreadImplEmulate.cpp
@@ -34,6 +34,11 @@ PeriodicThreadImplEmulate::~PeriodicThreadImplEmulate()
 {
 }
 
+void PeriodicThreadImplEmulate::makePeriodic()
+{
+  m_last_execution_time = icl_core::TimeStamp::now();
+}
+
 bool PeriodicThreadImplEmulate::setPeriod(const icl_core::TimeSpan& period)
 {
   m_period = period;
diff --git a/src/icl_core/src/icl_core_thread/PeriodicThreadImplEmulate.h b/src/icl_core/src/icl_core_thread/PeriodicThreadImplEmulate.h
index fd425fa..bb4f4b2 100644
--- a/src/icl_core/src/icl_core_thread/PeriodicThreadImplEmulate.h
+++ b/src/icl_core/src/icl_core_thread/PeriodicThreadImplEmulate.h
@@ -44,7 +44,7 @@ public:
   PeriodicThreadImplEmulate(const icl_core::TimeSpan& period);
   virtual ~PeriodicThreadImplEmulate();
 
-  virtual void makePeriodic() { }
+  virtual void makePeriodic();
   virtual icl_core::TimeSpan period() const { return m_period; }
   virtual bool setPeriod(const icl_core::TimeSpan& period);
   virtual void waitPeriod();
-- 
2.43.0


From b8b8aa31452b5a7f1c192add2c65ea8954c161dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:26 +0000
Subject: [PATCH 058/101] fix: The operation queue of an active object is read
 without its mutex

---
 .../src/icl_core_thread/ActiveObject.cpp      | 54 +++++++++++--------
 .../src/icl_core_thread/ActiveObject.h        |  7 +++
 2 files changed, 40 insertions(+), 21 deletions(-)

diff --git a/src/icl_core/src/icl_core_thread/ActiveObject.cpp b/src/icl_core/src/icl_core_thread/ActiveObject.cpp
index 8b53767..720d680 100644
--- a/src/icl_core/src/icl_core_thread/ActiveObject.cpp
+++ b/src/icl_core/src/icl_core_thread/ActiveObject.cpp
@@ -21,6 +21,7 @@
  */
 //----------------------------------------------------------------------
 #include "icl_core_thread/ActiveObject.h"
+#include "icl_core_thread/ScopedMutexLock.h"
 
 namespace icl_core {
 namespace thread {
@@ -42,36 +43,37 @@ void ActiveObject::run()
     if (execute())
     {
       // Process all queued operations.
-      while (!m_operation_queue.empty())
+      while (ActiveOperation *op = takeOperation())
       {
-        // Try to lock the queue mutex
-        if (m_operation_queue_mutex.lock())
-        {
-          // Extract the next pending operation from the queue.
-          ActiveOperation *op = m_operation_queue.front();
-          m_operation_queue.pop_front();
-
-          // Release the mutex before executing the operation!
-          m_operation_queue_mutex.unlock();
-
-          // Finally, execute the operation.
-          op->invoke();
-          delete op;
-        }
+        op->invoke();
+        delete op;
       }
     }
   }
 
   // Delete any pending operations.
-  while (!m_operation_queue.empty())
+  while (ActiveOperation *op = takeOperation())
   {
-    delete m_operation_queue.front();
-    m_operation_queue.pop_front();
+    delete op;
   }
 
   onThreadStop();
 }
 
+ActiveOperation *ActiveObject::takeOperation()
+{
+  // The mutex is released before the operation is executed!
+  ScopedMutexLock lock(m_operation_queue_mutex);
+  if (m_operation_queue.empty())
+  {
+    return NULL;
+  }
+
+  ActiveOperation *op = m_operation_queue.front();
+  m_operation_queue.pop_front();
+  return op;
+}
+
 void ActiveObject::stop()
 {
   Thread::stop();
@@ -80,10 +82,20 @@ void ActiveObject::stop()
 
 void ActiveObject::queue(ActiveOperation *active_operation)
 {
-  if (execute() && m_operation_queue_mutex.lock())
+  bool queued = false;
+  {
+    // The operation queue is emptied for the last time when execute()
+    // is already false.
+    ScopedMutexLock lock(m_operation_queue_mutex);
+    if (execute())
+    {
+      m_operation_queue.push_back(active_operation);
+      queued = true;
+    }
+  }
+
+  if (queued)
   {
-    m_operation_queue.push_back(active_operation);
-    m_operation_queue_mutex.unlock();
     m_sem.post();
   }
   else
diff --git a/src/icl_core/src/icl_core_thread/ActiveObject.h b/src/icl_core/src/icl_core_thread/ActiveObject.h
index cbd5326..fa53f00 100644
--- a/src/icl_core/src/icl_core_thread/ActiveObject.h
+++ b/src/icl_core/src/icl_core_thread/ActiveObject.h
@@ -88,6 +88,13 @@ protected:
   icl_core::List<ActiveOperation*> m_operation_queue;
   Mutex m_operation_queue_mutex;
   Semaphore m_sem;
+
+private:
+  /*! Extracts the next pending operation from the queue.
+   *
+   *  \return \c NULL if the queue is empty.
+   */
+  ActiveOperation *takeOperation();
 };
 
 }
-- 
2.43.0


From 2b77571432bdee6d07708cea611e6b38a65db127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:26 +0000
Subject: [PATCH 059/101] fix: The destruction of a running active object does
 not end its thread

---
 src/icl_core/src/icl_core_thread/ActiveObject.cpp | 8 ++++++++
 src/icl_core/src/icl_core_thread/ActiveObject.h   | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/src/icl_core/src/icl_core_thread/ActiveObject.cpp b/src/icl_core/src/icl_core_thread/ActiveObject.cpp
index 720d680..80f9fd8 100644
--- a/src/icl_core/src/icl_core_thread/ActiveObject.cpp
+++ b/src/icl_core/src/icl_core_thread/ActiveObject.cpp
@@ -32,6 +32,14 @@ ActiveObject::ActiveObject(const icl_core::String& description, icl_core::Thread
 {
 }
 
+ActiveObject::~ActiveObject()
+{
+  // The thread uses the queue, so it has to end before the queue is
+  // destroyed.
+  stop();
+  join();
+}
+
 void ActiveObject::run()
 {
   onThreadStart();
diff --git a/src/icl_core/src/icl_core_thread/ActiveObject.h b/src/icl_core/src/icl_core_thread/ActiveObject.h
index fa53f00..310a329 100644
--- a/src/icl_core/src/icl_core_thread/ActiveObject.h
+++ b/src/icl_core/src/icl_core_thread/ActiveObject.h
@@ -49,6 +49,10 @@ public:
   ActiveObject(const icl_core::String& description,
                icl_core::ThreadPriority priority = 0);
 
+  /*! Stops the active object thread and waits for its end.
+   */
+  virtual ~ActiveObject();
+
   /*! Processes the operation queue.  This function should not be
    *  overridden by subclasses.
    */
-- 
2.43.0


From 7693ea99616702d8a6f88dc13ac7ccb2c2c8a06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:47 +0000
Subject: [PATCH 060/101] fix: PeriodicDispatchThread::addOperation() races
 with the dispatching

---
 .../src/icl_core_dispatch/PeriodicDispatchThread.cpp  | 11 ++++++++++-
 .../src/icl_core_dispatch/PeriodicDispatchThread.h    |  2 ++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.cpp b/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.cpp
index 1986b4a..4bc325f 100644
--- a/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.cpp
+++ b/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.cpp
@@ -23,6 +23,7 @@
 #include "icl_core_dispatch/PeriodicDispatchThread.h"
 
 #include "icl_core_dispatch/Operation.h"
+#include "icl_core_thread/ScopedMutexLock.h"
 
 #include <boost/foreach.hpp>
 
@@ -44,6 +45,7 @@ PeriodicDispatchThread::~PeriodicDispatchThread()
 
 void PeriodicDispatchThread::addOperation(Operation *op)
 {
+  icl_core::thread::ScopedMutexLock lock(m_dispatch_queue_mutex);
   m_dispatch_queue.push_back(op);
 }
 
@@ -51,7 +53,14 @@ void PeriodicDispatchThread::run()
 {
   while (execute())
   {
-    BOOST_FOREACH (Operation *op, m_dispatch_queue)
+    // Work on a copy, so that operations can be added at any time.
+    icl_core::List<Operation*> dispatch_queue;
+    {
+      icl_core::thread::ScopedMutexLock lock(m_dispatch_queue_mutex);
+      dispatch_queue = m_dispatch_queue;
+    }
+
+    BOOST_FOREACH (Operation *op, dispatch_queue)
     {
       op->execute();
     }
diff --git a/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.h b/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.h
index 61e2f7e..c520993 100644
--- a/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.h
+++ b/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.h
@@ -25,6 +25,7 @@
 
 #include "icl_core/List.h"
 #include "icl_core_dispatch/ImportExport.h"
+#include "icl_core_thread/Mutex.h"
 #include "icl_core_thread/PeriodicThread.h"
 
 namespace icl_core {
@@ -56,6 +57,7 @@ private:
   virtual void run();
 
   icl_core::List<Operation*> m_dispatch_queue;
+  icl_core::thread::Mutex m_dispatch_queue_mutex;
 };
 
 }
-- 
2.43.0


From 74d2af7807ba15bec1f509fa6521e237f9ab6b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:56 +0000
Subject: [PATCH 061/101] fix: reset a thread stream before it is released to
 other threads

---
 src/icl_core/src/icl_core_logging/ThreadStream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/ThreadStream.cpp b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
index 80ef7f0..122596c 100644
--- a/src/icl_core/src/icl_core_logging/ThreadStream.cpp
+++ b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
@@ -125,6 +125,9 @@ void ThreadStream::printf(const char *fmt, ...)
 void ThreadStream::flush()
 {
   m_data[m_write_index] = '\0';
+  // The next message starts at the beginning. This has to be set before
+  // the stream is released because another thread may use it afterwards.
+  m_write_index = 0;
   if (m_parent->m_mutex.wait())
   {
     for (std::set<LogOutputStream*>::const_iterator iter = m_parent->m_output_stream_list.begin();
@@ -143,7 +146,6 @@ void ThreadStream::flush()
   {
     PRINTF("ThreadStream(%s)::Flush: mutex lock failed\n", m_parent->nameCStr());
   }
-  m_write_index = 0;
 }
 
 ThreadStream::ThreadStream(LogStream *parent)
-- 
2.43.0


From 039e8f674dbd7e0cfa1a9d53d671fca065ac1f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:16 +0000
Subject: [PATCH 062/101] fix: do not look at the message queue without holding
 its mutex

---
 .../src/icl_core_logging/LogOutputStream.cpp  | 45 ++++++++-----------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
index ddd5366..3896987 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
@@ -568,38 +568,31 @@ void LogOutputStream::WorkerThread::run()
   {
     if (m_fill_count->wait())
     {
-#ifdef ICL_CORE_LOG_OUTPUT_STREAM_USE_FIXED_QUEUE
-      if (!isMessageQueueEmpty())
-#else
-      if (!m_message_queue.empty())
-#endif
+      if (m_mutex->wait())
       {
-        if (m_mutex->wait())
-        {
-          LogMessage log_message;
-          bool push = false;
+        LogMessage log_message;
+        bool push = false;
 #ifdef ICL_CORE_LOG_OUTPUT_STREAM_USE_FIXED_QUEUE
-          if (!isMessageQueueEmpty())
-          {
-            log_message = m_message_queue[m_message_queue_read_index];
-            incrementIndex(m_message_queue_read_index);
-            push = true;
-          }
+        if (!isMessageQueueEmpty())
+        {
+          log_message = m_message_queue[m_message_queue_read_index];
+          incrementIndex(m_message_queue_read_index);
+          push = true;
+        }
 #else
-          if (!m_message_queue.empty())
-          {
-            log_message = m_message_queue.front();
-            m_message_queue.pop();
-            push = true;
-          }
+        if (!m_message_queue.empty())
+        {
+          log_message = m_message_queue.front();
+          m_message_queue.pop();
+          push = true;
+        }
 #endif
 
-          m_mutex->post();
+        m_mutex->post();
 
-          if (push)
-          {
-            m_output_stream->pushImpl(log_message);
-          }
+        if (push)
+        {
+          m_output_stream->pushImpl(log_message);
         }
       }
     }
-- 
2.43.0


From 0b831ed4c6ea353578a3c3104404540449dbba06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:24 +0000
Subject: [PATCH 063/101] fix: make the local logging macros with object name
 and with format usable

---
 .../icl_core_logging/LoggingMacros_LLOGGING.h | 10 +++----
 .../LoggingMacros_LLOGGING_FMT.h              | 30 +++++++++----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING.h b/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING.h
index cce1304..f0c940b 100644
--- a/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING.h
+++ b/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING.h
@@ -91,12 +91,12 @@
 
 
 #ifdef ICL_CORE_LOCAL_LOGGING
-# define LLOGGING_ERROR_CO(streamname, classname, objectname, arg) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_ERROR, classname, objectname, function, arg)
-# define LLOGGING_WARNING_CO(streamname, classname, objectname, arg) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_WARNING, classname, objectname, function, arg)
-# define LLOGGING_INFO_CO(streamname, classname, objectname, arg) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_INFO, classname, objectname, function, arg)
+# define LLOGGING_ERROR_CO(streamname, classname, objectname, arg) LOGGING_LOG_CO(streamname, ::icl_core::logging::eLL_ERROR, classname, objectname, arg)
+# define LLOGGING_WARNING_CO(streamname, classname, objectname, arg) LOGGING_LOG_CO(streamname, ::icl_core::logging::eLL_WARNING, classname, objectname, arg)
+# define LLOGGING_INFO_CO(streamname, classname, objectname, arg) LOGGING_LOG_CO(streamname, ::icl_core::logging::eLL_INFO, classname, objectname, arg)
 # ifdef _IC_DEBUG_
-#  define LLOGGING_DEBUG_CO(streamname, classname, objectname, arg) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_DEBUG, classname, objectname, function, arg)
-#  define LLOGGING_TRACE_CO(streamname, classname, objectname, arg) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_TRACE, classname, objectname, function, arg)
+#  define LLOGGING_DEBUG_CO(streamname, classname, objectname, arg) LOGGING_LOG_CO(streamname, ::icl_core::logging::eLL_DEBUG, classname, objectname, arg)
+#  define LLOGGING_TRACE_CO(streamname, classname, objectname, arg) LOGGING_LOG_CO(streamname, ::icl_core::logging::eLL_TRACE, classname, objectname, arg)
 # else
 #  define LLOGGING_DEBUG_CO(streamname, classname, objectname, arg) (void)0
 #  define LLOGGING_TRACE_CO(streamname, classname, objectname, arg) (void)0
diff --git a/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING_FMT.h b/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING_FMT.h
index 51daec0..6ca5707 100644
--- a/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING_FMT.h
+++ b/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING_FMT.h
@@ -27,12 +27,12 @@
 
 
 #ifdef ICL_CORE_LOCAL_LOGGING
-# define LLOGGING_FMT_ERROR(streamname, ...) LOGGING_LOG(streamname, ::icl_core::logging::eLL_ERROR, __VA_ARGS__)
-# define LLOGGING_FMT_WARNING(streamname, ...) LOGGING_LOG(streamname, ::icl_core::logging::eLL_WARNING, __VA_ARGS__)
-# define LLOGGING_FMT_INFO(streamname, ...) LOGGING_LOG(streamname, ::icl_core::logging::eLL_INFO, __VA_ARGS__)
+# define LLOGGING_FMT_ERROR(streamname, ...) LOGGING_FMT_LOG(streamname, ::icl_core::logging::eLL_ERROR, __VA_ARGS__)
+# define LLOGGING_FMT_WARNING(streamname, ...) LOGGING_FMT_LOG(streamname, ::icl_core::logging::eLL_WARNING, __VA_ARGS__)
+# define LLOGGING_FMT_INFO(streamname, ...) LOGGING_FMT_LOG(streamname, ::icl_core::logging::eLL_INFO, __VA_ARGS__)
 # ifdef _IC_DEBUG_
-#  define LLOGGING_FMT_DEBUG(streamname, ...) LOGGING_LOG(streamname, ::icl_core::logging::eLL_DEBUG, __VA_ARGS__)
-#  define LLOGGING_FMT_TRACE(streamname, ...) LOGGING_LOG(streamname, ::icl_core::logging::eLL_TRACE, __VA_ARGS__)
+#  define LLOGGING_FMT_DEBUG(streamname, ...) LOGGING_FMT_LOG(streamname, ::icl_core::logging::eLL_DEBUG, __VA_ARGS__)
+#  define LLOGGING_FMT_TRACE(streamname, ...) LOGGING_FMT_LOG(streamname, ::icl_core::logging::eLL_TRACE, __VA_ARGS__)
 # else
 #  define LLOGGING_FMT_DEBUG(streamname, ...) (void)0
 #  define LLOGGING_FMT_TRACE(streamname, ...) (void)0
@@ -47,12 +47,12 @@
 
 
 #ifdef ICL_CORE_LOCAL_LOGGING
-# define LLOGGING_FMT_ERROR_C(streamname, classname, ...) LOGGING_LOG_C(streamname, ::icl_core::logging::eLL_ERROR, classname, __VA_ARGS__)
-# define LLOGGING_FMT_WARNING_C(streamname, classname, ...) LOGGING_LOG_C(streamname, ::icl_core::logging::eLL_WARNING, classname, __VA_ARGS__)
-# define LLOGGING_FMT_INFO_C(streamname, classname, ...) LOGGING_LOG_C(streamname, ::icl_core::logging::eLL_INFO,  classname, __VA_ARGS__)
+# define LLOGGING_FMT_ERROR_C(streamname, classname, ...) LOGGING_FMT_LOG_C(streamname, ::icl_core::logging::eLL_ERROR, classname, __VA_ARGS__)
+# define LLOGGING_FMT_WARNING_C(streamname, classname, ...) LOGGING_FMT_LOG_C(streamname, ::icl_core::logging::eLL_WARNING, classname, __VA_ARGS__)
+# define LLOGGING_FMT_INFO_C(streamname, classname, ...) LOGGING_FMT_LOG_C(streamname, ::icl_core::logging::eLL_INFO,  classname, __VA_ARGS__)
 # ifdef _IC_DEBUG_
-#  define LLOGGING_FMT_DEBUG_C(streamname, classname, ...) LOGGING_LOG_C(streamname, ::icl_core::logging::eLL_DEBUG, classname, __VA_ARGS__)
-#  define LLOGGING_FMT_TRACE_C(streamname, classname, ...) LOGGING_LOG_C(streamname, ::icl_core::logging::eLL_TRACE, classname, __VA_ARGS__)
+#  define LLOGGING_FMT_DEBUG_C(streamname, classname, ...) LOGGING_FMT_LOG_C(streamname, ::icl_core::logging::eLL_DEBUG, classname, __VA_ARGS__)
+#  define LLOGGING_FMT_TRACE_C(streamname, classname, ...) LOGGING_FMT_LOG_C(streamname, ::icl_core::logging::eLL_TRACE, classname, __VA_ARGS__)
 # else
 #  define LLOGGING_FMT_DEBUG_C(streamname, classname, ...) (void)0
 #  define LLOGGING_FMT_TRACE_C(streamname, classname, ...) (void)0
@@ -67,12 +67,12 @@
 
 
 #ifdef ICL_CORE_LOCAL_LOGGING
-# define LLOGGING_FMT_ERROR_CO(streamname, classname, objectname, ...) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_ERROR, classname, objectname, function, __VA_ARGS__)
-# define LLOGGING_FMT_WARNING_CO(streamname, classname, objectname, ...) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_WARNING, classname, objectname, function, __VA_ARGS__)
-# define LLOGGING_FMT_INFO_CO(streamname, classname, objectname, ...) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_INFO, classname, objectname, function, __VA_ARGS__)
+# define LLOGGING_FMT_ERROR_CO(streamname, classname, objectname, ...) LOGGING_FMT_LOG_CO(streamname, ::icl_core::logging::eLL_ERROR, classname, objectname, __VA_ARGS__)
+# define LLOGGING_FMT_WARNING_CO(streamname, classname, objectname, ...) LOGGING_FMT_LOG_CO(streamname, ::icl_core::logging::eLL_WARNING, classname, objectname, __VA_ARGS__)
+# define LLOGGING_FMT_INFO_CO(streamname, classname, objectname, ...) LOGGING_FMT_LOG_CO(streamname, ::icl_core::logging::eLL_INFO, classname, objectname, __VA_ARGS__)
 # ifdef _IC_DEBUG_
-#  define LLOGGING_FMT_DEBUG_CO(streamname, classname, objectname, ...) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_DEBUG, classname, objectname, function, __VA_ARGS__)
-#  define LLOGGING_FMT_TRACE_CO(streamname, classname, objectname, ...) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_TRACE, classname, objectname, function, __VA_ARGS__)
+#  define LLOGGING_FMT_DEBUG_CO(streamname, classname, objectname, ...) LOGGING_FMT_LOG_CO(streamname, ::icl_core::logging::eLL_DEBUG, classname, objectname, __VA_ARGS__)
+#  define LLOGGING_FMT_TRACE_CO(streamname, classname, objectname, ...) LOGGING_FMT_LOG_CO(streamname, ::icl_core::logging::eLL_TRACE, classname, objectname, __VA_ARGS__)
 # else
 #  define LLOGGING_FMT_DEBUG_CO(streamname, classname, objectname, ...) (void)0
 #  define LLOGGING_FMT_TRACE_CO(streamname, classname, objectname, ...) (void)0
-- 
2.43.0


From bebb728ad0170ba65d6c2dead56786b734015c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:44 +0000
Subject: [PATCH 064/101] fix: terminate the fields of log messages that are
 cut

---
 .../src/icl_core_logging/LogOutputStream.cpp   | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
index 3896987..c80d059 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
@@ -662,12 +662,18 @@ LogOutputStream::LogMessage::LogMessage(const icl_core::TimeStamp& timestamp,
     log_level(log_level),
     line(line)
 {
-  std::strncpy(LogMessage::log_stream, log_stream, cMAX_IDENTIFIER_LENGTH+1);
-  std::strncpy(LogMessage::filename, filename, cMAX_DESCRIPTION_LENGTH+1);
-  std::strncpy(LogMessage::class_name, class_name, cMAX_IDENTIFIER_LENGTH+1);
-  std::strncpy(LogMessage::object_name, object_name, cMAX_DESCRIPTION_LENGTH+1);
-  std::strncpy(LogMessage::function_name, function_name, cMAX_IDENTIFIER_LENGTH+1);
-  std::strncpy(LogMessage::message_text, message_text, cDEFAULT_LOG_SIZE+1);
+  std::strncpy(LogMessage::log_stream, log_stream, cMAX_IDENTIFIER_LENGTH);
+  LogMessage::log_stream[cMAX_IDENTIFIER_LENGTH] = 0;
+  std::strncpy(LogMessage::filename, filename, cMAX_DESCRIPTION_LENGTH);
+  LogMessage::filename[cMAX_DESCRIPTION_LENGTH] = 0;
+  std::strncpy(LogMessage::class_name, class_name, cMAX_IDENTIFIER_LENGTH);
+  LogMessage::class_name[cMAX_IDENTIFIER_LENGTH] = 0;
+  std::strncpy(LogMessage::object_name, object_name, cMAX_DESCRIPTION_LENGTH);
+  LogMessage::object_name[cMAX_DESCRIPTION_LENGTH] = 0;
+  std::strncpy(LogMessage::function_name, function_name, cMAX_IDENTIFIER_LENGTH);
+  LogMessage::function_name[cMAX_IDENTIFIER_LENGTH] = 0;
+  std::strncpy(LogMessage::message_text, message_text, cDEFAULT_LOG_SIZE);
+  LogMessage::message_text[cDEFAULT_LOG_SIZE] = 0;
 }
 
 }
-- 
2.43.0


From 145f82e39b308ea35d5ce3ded09ab8f0d398204d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:13 +0000
Subject: [PATCH 065/101] fix: initialize the file and object names of thread
 streams

---
 src/icl_core/src/icl_core_logging/ThreadStream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/ThreadStream.cpp b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
index 122596c..ad57132 100644
--- a/src/icl_core/src/icl_core_logging/ThreadStream.cpp
+++ b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
@@ -155,7 +155,9 @@ ThreadStream::ThreadStream(LogStream *parent)
     m_line(0),
     m_write_index(0)
 {
+  memset(m_filename, 0, cDEFAULT_LOG_SIZE + 1);
   memset(m_classname, 0, cDEFAULT_LOG_SIZE + 1);
+  memset(m_objectname, 0, cDEFAULT_LOG_SIZE + 1);
   memset(m_function, 0, cDEFAULT_LOG_SIZE + 1);
   memset(m_data, 0, cDEFAULT_LOG_SIZE + 1);
 }
-- 
2.43.0


From 830c5855a46c19375f514739ca1879119ee650ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:42 +0000
Subject: [PATCH 066/101] fix: allow changing levels and activation while other
 threads log

---
 src/icl_core/src/icl_core_logging/LogOutputStream.h | 5 ++++-
 src/icl_core/src/icl_core_logging/LogStream.h       | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.h b/src/icl_core/src/icl_core_logging/LogOutputStream.h
index 491154c..013844d 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.h
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.h
@@ -28,6 +28,8 @@
 #ifndef ICL_CORE_LOGGING_LOG_OUTPUT_STREAM_H_INCLUDED
 #define ICL_CORE_LOGGING_LOG_OUTPUT_STREAM_H_INCLUDED
 
+#include <boost/atomic.hpp>
+
 #include <icl_core/BaseTypes.h>
 #include <icl_core/os_mem.h>
 #include <icl_core/List.h>
@@ -367,7 +369,8 @@ private:
   void parseLogFormat(const char *format);
 
   icl_core::String m_name;
-  icl_core::logging::LogLevel m_log_level;
+  // The level may be changed while other threads log.
+  boost::atomic<icl_core::logging::LogLevel> m_log_level;
   const char *m_time_format;
 
   bool m_use_worker_thread;
diff --git a/src/icl_core/src/icl_core_logging/LogStream.h b/src/icl_core/src/icl_core_logging/LogStream.h
index 9b24841..c3a10e2 100644
--- a/src/icl_core/src/icl_core_logging/LogStream.h
+++ b/src/icl_core/src/icl_core_logging/LogStream.h
@@ -34,6 +34,8 @@
 #include <set>
 #include <string>
 
+#include <boost/atomic.hpp>
+
 #include "icl_core/BaseTypes.h"
 #include "icl_core/Noncopyable.h"
 #include "icl_core/os_thread.h"
@@ -160,7 +162,8 @@ public:
 private:
   void releaseThreadStream(icl_core::logging::ThreadStream *thread_stream);
 
-  icl_core::logging::LogLevel m_initial_level;
+  // Levels and activation may be changed while other threads log.
+  boost::atomic<icl_core::logging::LogLevel> m_initial_level;
 
   struct ThreadStreamInfo
   {
@@ -180,7 +183,7 @@ private:
   ThreadStreamMap m_thread_stream_map;
 
   icl_core::String m_name;
-  bool m_active;
+  boost::atomic<bool> m_active;
   std::set<LogOutputStream*> m_output_stream_list;
 
   // Safe access to the output stream list.
-- 
2.43.0


From 61937a85d488ef8289247aaf7c3d8162b639d71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:11 +0000
Subject: [PATCH 067/101] fix: set the global log level on the default log
 output as well

---
 src/icl_core/src/icl_core_logging/LoggingManager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/LoggingManager.cpp b/src/icl_core/src/icl_core_logging/LoggingManager.cpp
index c267252..1b99ff1 100644
--- a/src/icl_core/src/icl_core_logging/LoggingManager.cpp
+++ b/src/icl_core/src/icl_core_logging/LoggingManager.cpp
@@ -294,6 +294,10 @@ void LoggingManager::setLogLevel(icl_core::logging::LogLevel log_level)
   {
     lsm_it->second->m_initial_level = log_level;
   }
+  if (m_default_log_output != NULL)
+  {
+    m_default_log_output->setLogLevel(log_level);
+  }
 
   for (LogOutputStreamMap::iterator los_it = m_log_output_streams.begin();
        los_it != m_log_output_streams.end(); ++los_it)
-- 
2.43.0


From ff2af7457e60a769077afc79c83f426b52c77906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:02 +0000
Subject: [PATCH 068/101] fix: copy the time format of a log output stream

---
 src/icl_core/src/icl_core_logging/LogOutputStream.cpp | 11 ++++++++++-
 src/icl_core/src/icl_core_logging/LogOutputStream.h   |  4 ++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
index c80d059..408ed5a 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
@@ -122,6 +122,15 @@ LogOutputStream::~LogOutputStream()
   }
 }
 
+void LogOutputStream::changeTimeFormat(const char *format)
+{
+  if (m_format_mutex.wait())
+  {
+    m_time_format = format;
+    m_format_mutex.post();
+  }
+}
+
 void LogOutputStream::changeLogFormat(const char *format)
 {
   // Stop processing at the end of the format string.
@@ -262,7 +271,7 @@ void LogOutputStream::pushImpl(const LogMessage& log_message)
         else
 #endif
         {
-          log_message.timestamp.strfLocaltime(time_buffer, 100, m_time_format);
+          log_message.timestamp.strfLocaltime(time_buffer, 100, m_time_format.c_str());
         }
 
         msg << time_buffer;
diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.h b/src/icl_core/src/icl_core_logging/LogOutputStream.h
index 013844d..54482b0 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.h
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.h
@@ -96,7 +96,7 @@ public:
    *
    *  The default time format is "%Y-%m-%d %H:%M:%S".
    */
-  void changeTimeFormat(const char* format) { m_time_format = format; }
+  void changeTimeFormat(const char* format);
 
   /*! Change the format of the displayed log entry.
    *
@@ -371,7 +371,7 @@ private:
   icl_core::String m_name;
   // The level may be changed while other threads log.
   boost::atomic<icl_core::logging::LogLevel> m_log_level;
-  const char *m_time_format;
+  icl_core::String m_time_format;
 
   bool m_use_worker_thread;
   WorkerThread *m_worker_thread;
-- 
2.43.0


From 7b02267810f718a19957e37a456bea2ae8d56930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:28 +0000
Subject: [PATCH 069/101] fix: do not overflow the texts of log format entries

---
 .../src/icl_core_logging/LogOutputStream.cpp  | 33 +++++++++----------
 .../src/icl_core_logging/LogOutputStream.h    |  9 ++---
 2 files changed, 19 insertions(+), 23 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
index 408ed5a..bbfeaa1 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
@@ -416,13 +416,11 @@ void LogOutputStream::parseLogFormat(const char *format)
     }
 
     // Read optional prefix text.
-    char *prefix_ptr = new_entry.text;
     while (format[0] != 0 && format[0] != 'C' && format[0] != 'O' && format[0] != 'D'
            && format[0] != 'E' && format[0] != 'F' && format[0] != 'G' && format[0] != 'L'
            && format[0] != 'S' && format[0] != 'T' && format[0] != 'M')
     {
-      *prefix_ptr = format[0];
-      ++prefix_ptr;
+      new_entry.text += format[0];
       ++format;
     }
 
@@ -434,17 +432,20 @@ void LogOutputStream::parseLogFormat(const char *format)
     else if (format[0] == 'O')
     {
       new_entry.type = LogFormatEntry::eT_OBJECTNAME;
-      if (new_entry.text[0] == '(')
+      if (!new_entry.text.empty())
       {
-        std::strncpy(new_entry.suffix, ")", 100);
-      }
-      else if (new_entry.text[0] == '[')
-      {
-        std::strncpy(new_entry.suffix, "]", 100);
-      }
-      else if (new_entry.text[0] == '{')
-      {
-        std::strncpy(new_entry.suffix, "}", 100);
+        if (new_entry.text[0] == '(')
+        {
+          new_entry.suffix = ")";
+        }
+        else if (new_entry.text[0] == '[')
+        {
+          new_entry.suffix = "]";
+        }
+        else if (new_entry.text[0] == '{')
+        {
+          new_entry.suffix = "}";
+        }
       }
     }
     else if (format[0] == 'D')
@@ -489,15 +490,13 @@ void LogOutputStream::parseLogFormat(const char *format)
   }
   else
   {
-    char *text_ptr = new_entry.text;
     while (format[0] != '~' && format[0] != 0)
     {
-      *text_ptr = format[0];
-      ++text_ptr;
+      new_entry.text += format[0];
       ++format;
     }
 
-    if (new_entry.text[0] != 0)
+    if (!new_entry.text.empty())
     {
       m_new_log_format.push_back(new_entry);
     }
diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.h b/src/icl_core/src/icl_core_logging/LogOutputStream.h
index 54482b0..60a8425 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.h
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.h
@@ -328,15 +328,12 @@ private:
 
     LogFormatEntry()
       : type(eT_TEXT), width(0)
-    {
-      icl_core::os::memset(text, 0, 100);
-      icl_core::os::memset(suffix, 0, 100);
-    }
+    { }
 
     EntryType type;
     size_t width;
-    char text[100];
-    char suffix[100];
+    icl_core::String text;
+    icl_core::String suffix;
   };
 
   /*! This virtual function is called from the worker thread just
-- 
2.43.0


From 1d13490d7cb16431296e6f406557dc1e6611324f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:28 +0000
Subject: [PATCH 070/101] fix: do not read beyond the end of an incomplete log
 format

---
 src/icl_core/src/icl_core_logging/LogOutputStream.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
index bbfeaa1..0050cf1 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
@@ -409,7 +409,7 @@ void LogOutputStream::parseLogFormat(const char *format)
     ++format;
 
     // Read the field width.
-    while (format[0] != 0 && std::isdigit(format[0]))
+    while (format[0] != 0 && std::isdigit(static_cast<unsigned char>(format[0])))
     {
       new_entry.width = 10 * new_entry.width + (format[0] - '0');
       ++format;
@@ -484,9 +484,8 @@ void LogOutputStream::parseLogFormat(const char *format)
     if (format[0] != 0)
     {
       m_new_log_format.push_back(new_entry);
+      ++format;
     }
-
-    ++format;
   }
   else
   {
-- 
2.43.0


From 8d81bf24e0def3332d2be673c15a92d2339d7352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:39 +0000
Subject: [PATCH 071/101] fix: parse new log formats under the format mutex

---
 src/icl_core/src/icl_core_logging/LogOutputStream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
index 0050cf1..612b69e 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
@@ -136,10 +136,10 @@ void LogOutputStream::changeLogFormat(const char *format)
   // Stop processing at the end of the format string.
   if (format[0] != 0)
   {
-    parseLogFormat(format);
-
     if (m_format_mutex.wait())
     {
+      parseLogFormat(format);
+
       m_log_format.clear();
       m_log_format = m_new_log_format;
       m_new_log_format.clear();
-- 
2.43.0


From 2f0e5253b9a491137cf5485a12f8d8f8c027e820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:39 +0000
Subject: [PATCH 072/101] fix: honour the minimum width of all log format
 fields

---
 .../src/icl_core_logging/LogOutputStream.cpp  | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
index 612b69e..776d5bb 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
@@ -26,6 +26,7 @@
 #include <assert.h>
 #include <cctype>
 #include <cstring>
+#include <iomanip>
 #include <iostream>
 
 #include <icl_core/internal_raw_debug.h>
@@ -193,6 +194,7 @@ void LogOutputStream::pushImpl(const LogMessage& log_message)
   if (m_format_mutex.wait())
   {
     std::stringstream msg;
+    msg << std::left;
     for (icl_core::List<LogFormatEntry>::const_iterator it = m_log_format.begin();
          it != m_log_format.end(); ++it)
     {
@@ -207,7 +209,7 @@ void LogOutputStream::pushImpl(const LogMessage& log_message)
       {
         if (std::strcmp(log_message.class_name, "") != 0)
         {
-          msg << it->text << log_message.class_name;
+          msg << it->text << std::setw(static_cast<int>(it->width)) << log_message.class_name;
         }
         break;
       }
@@ -215,7 +217,8 @@ void LogOutputStream::pushImpl(const LogMessage& log_message)
       {
         if (std::strcmp(log_message.object_name, "") != 0)
         {
-          msg << it->text << log_message.object_name << it->suffix;
+          msg << it->text << std::setw(static_cast<int>(it->width))
+              << log_message.object_name << it->suffix;
         }
         break;
       }
@@ -223,7 +226,7 @@ void LogOutputStream::pushImpl(const LogMessage& log_message)
       {
         if (std::strcmp(log_message.function_name, "") != 0)
         {
-          msg << it->text << log_message.function_name;
+          msg << it->text << std::setw(static_cast<int>(it->width)) << log_message.function_name;
         }
         break;
       }
@@ -234,22 +237,22 @@ void LogOutputStream::pushImpl(const LogMessage& log_message)
       }
       case LogFormatEntry::eT_FILENAME:
       {
-        msg << log_message.filename;
+        msg << std::setw(static_cast<int>(it->width)) << log_message.filename;
         break;
       }
       case LogFormatEntry::eT_LINE:
       {
-        msg << log_message.line;
+        msg << std::setw(static_cast<int>(it->width)) << log_message.line;
         break;
       }
       case LogFormatEntry::eT_LEVEL:
       {
-        msg << logLevelDescription(log_message.log_level);
+        msg << std::setw(static_cast<int>(it->width)) << logLevelDescription(log_message.log_level);
         break;
       }
       case LogFormatEntry::eT_STREAM:
       {
-        msg << log_message.log_stream;
+        msg << std::setw(static_cast<int>(it->width)) << log_message.log_stream;
         break;
       }
       case LogFormatEntry::eT_TIMESTAMP:
@@ -274,7 +277,7 @@ void LogOutputStream::pushImpl(const LogMessage& log_message)
           log_message.timestamp.strfLocaltime(time_buffer, 100, m_time_format.c_str());
         }
 
-        msg << time_buffer;
+        msg << std::setw(static_cast<int>(it->width)) << time_buffer;
         break;
       }
       case LogFormatEntry::eT_TIMESTAMP_MS:
-- 
2.43.0


From a7e38a4efe21bb9af57ee4f9c9d6714fbcf52c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:29 +0000
Subject: [PATCH 073/101] fix: open zipped log files for appending

---
 src/icl_core/src/icl_core_logging/FileLogOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index c6cbfdb..93d1c6a 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -208,7 +208,7 @@ void FileLogOutput::openLogFile()
 #if defined(_IC_BUILDER_ZLIB_)
   if (m_online_zip)
   {
-    m_zipped_log_file = gzopen(m_filename.c_str(), "a+b");
+    m_zipped_log_file = gzopen(m_filename.c_str(), "ab");
     if (m_zipped_log_file == NULL)
     {
       std::cerr << "Could not open log file " << m_filename << std::endl;
-- 
2.43.0


From d91cdfada4d02c3017ac3e4b57fbeec40633c4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:29 +0000
Subject: [PATCH 074/101] fix: delete old log files in the current directory as
 well

---
 src/icl_core/src/icl_core_logging/FileLogOutput.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index 93d1c6a..2522eb6 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -271,6 +271,11 @@ void FileLogOutput::rotateLogFile()
         boost::filesystem::path log_file_path = boost::filesystem::path(m_filename).parent_path();
         std::string log_file_name = boost::filesystem::path(m_filename).filename().string();
 #endif
+        if (log_file_path.empty())
+        {
+          // A file name without a directory refers to the current one.
+          log_file_path = ".";
+        }
         if (boost::filesystem::exists(log_file_path) && boost::filesystem::is_directory(log_file_path))
         {
           icl_core::TimeStamp delete_older_than(24*3600*(current_day - m_delete_older_than_days));
-- 
2.43.0


From fb8f2bb85f8ed2ff181adb9a08f4a6176f290fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:29 +0000
Subject: [PATCH 075/101] fix: delete only rotated log files

---
 .../src/icl_core_logging/FileLogOutput.cpp    | 38 +++++++++++++++++--
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index 2522eb6..13f4335 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -24,6 +24,7 @@
 
 #include <boost/filesystem/path.hpp>
 #include <boost/filesystem/operations.hpp>
+#include <cctype>
 #include <iostream>
 
 #include "icl_core/os_fs.h"
@@ -39,6 +40,37 @@ namespace logging {
 
 REGISTER_LOG_OUTPUT_STREAM(File, &FileLogOutput::create)
 
+namespace {
+
+//! Checks if \a file_name is "<log_file_name>.YYYY-MM-DD[.<number>][.gz]".
+bool isRotatedLogFile(const std::string& file_name, const std::string& log_file_name)
+{
+  const std::string date_pattern = ".dddd-dd-dd";
+  if (file_name.compare(0, log_file_name.length(), log_file_name) != 0
+      || file_name.length() < log_file_name.length() + date_pattern.length())
+  {
+    return false;
+  }
+  for (size_t i = 0; i < date_pattern.length(); ++i)
+  {
+    const char c = file_name[log_file_name.length() + i];
+    if (date_pattern[i] == 'd' ? !std::isdigit(static_cast<unsigned char>(c)) : c != date_pattern[i])
+    {
+      return false;
+    }
+  }
+
+  std::string rest = file_name.substr(log_file_name.length() + date_pattern.length());
+  if (rest.length() >= 3 && rest.compare(rest.length() - 3, 3, ".gz") == 0)
+  {
+    rest.erase(rest.length() - 3);
+  }
+  return rest.empty()
+    || (rest.length() > 1 && rest[0] == '.' && rest.find_first_not_of("0123456789", 1) == std::string::npos);
+}
+
+}
+
 LogOutputStream *FileLogOutput::create(const icl_core::String& name, const icl_core::String& config_prefix,
                                        icl_core::logging::LogLevel log_level)
 {
@@ -281,13 +313,13 @@ void FileLogOutput::rotateLogFile()
           icl_core::TimeStamp delete_older_than(24*3600*(current_day - m_delete_older_than_days));
           for (boost::filesystem::directory_iterator it(log_file_path), end; it != end; ++it)
           {
-            // If the found file starts with the name of the log file the check its last write time.
+            // If the found file is a rotated log file then check its last write time.
             if (!is_directory(*it)
                 && icl_core::TimeStamp(boost::filesystem::last_write_time(*it)) < delete_older_than
 #if !defined(BOOST_FILESYSTEM_VERSION) || BOOST_FILESYSTEM_VERSION == 2
-                && it->leaf().find(log_file_name) == 0
+                && isRotatedLogFile(it->leaf(), log_file_name)
 #else
-                && it->path().filename().string().find(log_file_name) == 0
+                && isRotatedLogFile(it->path().filename().string(), log_file_name)
 #endif
                 )
             {
-- 
2.43.0


From 5addf892ee3540adeb65a7379aae826394d6591e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:51 +0000
Subject: [PATCH 076/101] fix: do not terminate on dangling links in the log
 directory

---
 src/icl_core/src/icl_core_logging/FileLogOutput.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index 13f4335..343fe66 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -313,9 +313,12 @@ void FileLogOutput::rotateLogFile()
           icl_core::TimeStamp delete_older_than(24*3600*(current_day - m_delete_older_than_days));
           for (boost::filesystem::directory_iterator it(log_file_path), end; it != end; ++it)
           {
+            // The file may be a dangling link or be deleted by somebody else right now.
+            boost::system::error_code error;
+            const std::time_t last_write_time = boost::filesystem::last_write_time(it->path(), error);
             // If the found file is a rotated log file then check its last write time.
-            if (!is_directory(*it)
-                && icl_core::TimeStamp(boost::filesystem::last_write_time(*it)) < delete_older_than
+            if (!error && !boost::filesystem::is_directory(it->path(), error)
+                && icl_core::TimeStamp(last_write_time) < delete_older_than
 #if !defined(BOOST_FILESYSTEM_VERSION) || BOOST_FILESYSTEM_VERSION == 2
                 && isRotatedLogFile(it->leaf(), log_file_name)
 #else
@@ -323,7 +326,7 @@ void FileLogOutput::rotateLogFile()
 #endif
                 )
             {
-              boost::filesystem::remove(*it);
+              boost::filesystem::remove(it->path(), error);
             }
           }
         }
-- 
2.43.0


From e3170f6788c6f023253bdf30769fcd80d2f28575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:51 +0000
Subject: [PATCH 077/101] fix: keep the log file if it cannot be zipped

---
 src/icl_core/src/icl_core_logging/FileLogOutput.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index 343fe66..5377607 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -284,8 +284,15 @@ void FileLogOutput::rotateLogFile()
 #ifdef _IC_BUILDER_ZLIB_
       if (!m_online_zip)
       {
-        icl_core::os::zipFile(m_filename.c_str(), time_str);
-        icl_core::os::unlink(m_filename.c_str());
+        if (icl_core::os::zipFile(m_filename.c_str(), time_str))
+        {
+          icl_core::os::unlink(m_filename.c_str());
+        }
+        else
+        {
+          // Keep the log file and continue with it. Remove the incomplete archive.
+          icl_core::os::unlink((m_filename + time_str + ".gz").c_str());
+        }
       }
       else
 #endif
-- 
2.43.0


From 00ff6e9b80a468360c5cc2f64b963d7ef676d147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:51 +0000
Subject: [PATCH 078/101] fix: do not overwrite log files which have been
 rotated before

---
 .../src/icl_core_logging/FileLogOutput.cpp    | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index 5377607..f579621 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -26,6 +26,7 @@
 #include <boost/filesystem/operations.hpp>
 #include <cctype>
 #include <iostream>
+#include <sstream>
 
 #include "icl_core/os_fs.h"
 #include "icl_core_config/Config.h"
@@ -42,6 +43,14 @@ REGISTER_LOG_OUTPUT_STREAM(File, &FileLogOutput::create)
 
 namespace {
 
+//! Checks if a log file has already been rotated to \a file_name.
+bool existsRotated(const std::string& file_name)
+{
+  boost::system::error_code error;
+  return boost::filesystem::exists(boost::filesystem::symlink_status(file_name, error))
+    || boost::filesystem::exists(boost::filesystem::symlink_status(file_name + ".gz", error));
+}
+
 //! Checks if \a file_name is "<log_file_name>.YYYY-MM-DD[.<number>][.gz]".
 bool isRotatedLogFile(const std::string& file_name, const std::string& log_file_name)
 {
@@ -281,23 +290,31 @@ void FileLogOutput::rotateLogFile()
       // Move the file. ZIP it, if libz is available.
       char time_str[12];
       icl_core::TimeStamp(24*3600*m_last_rotation).strfTime(time_str, 12, ".%Y-%m-%d");
+      // Do not overwrite a log file which has been rotated before.
+      icl_core::String extension = time_str;
+      for (size_t i = 1; existsRotated(m_filename + extension); ++i)
+      {
+        std::stringstream numbered_extension;
+        numbered_extension << time_str << "." << i;
+        extension = numbered_extension.str();
+      }
 #ifdef _IC_BUILDER_ZLIB_
       if (!m_online_zip)
       {
-        if (icl_core::os::zipFile(m_filename.c_str(), time_str))
+        if (icl_core::os::zipFile(m_filename.c_str(), extension.c_str()))
         {
           icl_core::os::unlink(m_filename.c_str());
         }
         else
         {
           // Keep the log file and continue with it. Remove the incomplete archive.
-          icl_core::os::unlink((m_filename + time_str + ".gz").c_str());
+          icl_core::os::unlink((m_filename + extension + ".gz").c_str());
         }
       }
       else
 #endif
       {
-        icl_core::os::rename(m_filename.c_str(), (m_filename + time_str).c_str());
+        icl_core::os::rename(m_filename.c_str(), (m_filename + extension).c_str());
       }
 
       // Delete old log files.
-- 
2.43.0


From 97779763e66297ba364847794db5173c3afb39d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:08 +0000
Subject: [PATCH 079/101] fix: escape quotes in UDP log datagrams

---
 .../src/icl_core_logging/UdpLogOutput.cpp         | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp b/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp
index 67f3675..8284bb6 100644
--- a/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp
@@ -102,14 +102,14 @@ void UdpLogOutput::pushImpl(const LogMessage& log_message)
   if (m_socket >= 0)
   {
     std::stringstream ss;
-    ss << "'" << m_system_name << "',"
+    ss << "'" << escape(m_system_name) << "',"
        << "'" << log_message.timestamp.formatIso8601() << "'," << log_message.timestamp.tsNSec() << ","
        << "'" << logLevelDescription(log_message.log_level) << "',"
-       << "'" << log_message.log_stream << "',"
-       << "'" << log_message.filename << "'," << log_message.line << ","
-       << "'" << log_message.class_name << "',"
+       << "'" << escape(log_message.log_stream) << "',"
+       << "'" << escape(log_message.filename) << "'," << log_message.line << ","
+       << "'" << escape(log_message.class_name) << "',"
        << "'" << escape(log_message.object_name) << "',"
-       << "'" << log_message.function_name << "',"
+       << "'" << escape(log_message.function_name) << "',"
        << "'" << escape(log_message.message_text) << "'";
     std::string str = ss.str();
     int res = write(m_socket, str.c_str(), str.length());
@@ -122,9 +122,8 @@ void UdpLogOutput::pushImpl(const LogMessage& log_message)
 
 icl_core::String UdpLogOutput::escape(icl_core::String str) const
 {
-  // TODO: Which characters have to be escaped to ensure that a
-  // correct SQL statement is created?
-  str = boost::regex_replace(str, boost::regex("'"), "\\'");
+  // Quotes within an SQL string literal are doubled.
+  str = boost::regex_replace(str, boost::regex("'"), "''");
   //str = boost::regex_replace(str, boost::regex("\\n"), "\\\\n");
   return str;
 }
-- 
2.43.0


From d4d1b7c1ea012bbbfe8e89b15358db45dca233fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:07 +0000
Subject: [PATCH 080/101] fix: wait for other users of the SQLite log database

---
 src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp b/src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp
index 6ba99b6..feafbb2 100644
--- a/src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp
+++ b/src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp
@@ -69,6 +69,9 @@ void SQLiteLogDb::openDatabase()
       goto fail_return;
     }
 
+    // Wait if somebody else is currently using the database.
+    sqlite3_busy_timeout(m_db, 5000);
+
     res = sqlite3_prepare_v2(m_db,
                              "SELECT sql FROM sqlite_master WHERE type='table' AND name='log_entries'",
                              -1, &query_sql, NULL);
-- 
2.43.0


From 7d1e6c97760255998d954ece50b634f91c654aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:07 +0000
Subject: [PATCH 081/101] fix: send UDP log messages after the server has been
 away

---
 src/icl_core/src/icl_core_logging/UdpLogOutput.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp b/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp
index 8284bb6..6e3cdb2 100644
--- a/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp
@@ -22,6 +22,7 @@
 //----------------------------------------------------------------------
 #include "icl_core_logging/UdpLogOutput.h"
 
+#include <errno.h>
 #include <netdb.h>
 #include <boost/regex.hpp>
 #include <sys/types.h>
@@ -113,6 +114,12 @@ void UdpLogOutput::pushImpl(const LogMessage& log_message)
        << "'" << escape(log_message.message_text) << "'";
     std::string str = ss.str();
     int res = write(m_socket, str.c_str(), str.length());
+    if (res < 0 && errno == ECONNREFUSED)
+    {
+      // This reports that an earlier datagram could not be delivered.
+      // The current one has not been sent yet.
+      res = write(m_socket, str.c_str(), str.length());
+    }
     if (res < 0)
     {
       perror("UdpLogOutput::pushImpl()");
-- 
2.43.0


From c1f5555a4a85c29944682f733fa7ac00a6e81a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:15 +0000
Subject: [PATCH 082/101] fix: do not overwrite SQLite log databases which have
 been rotated before

---
 src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp b/src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp
index feafbb2..1406e62 100644
--- a/src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp
+++ b/src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp
@@ -22,7 +22,9 @@
 //----------------------------------------------------------------------
 #include "SQLiteLogDb.h"
 
+#include <boost/filesystem/operations.hpp>
 #include <iostream>
+#include <sstream>
 
 namespace icl_core {
 namespace logging {
@@ -158,7 +160,16 @@ void SQLiteLogDb::writeLogLine(const char *app_id, const char *timestamp, const
 
       char time_str[11];
       icl_core::TimeStamp::now().strfTime(time_str, 11, "%Y-%m-%d");
-      rename(m_db_filename.c_str(), (m_db_filename + "." + time_str).c_str());
+      // Do not overwrite a database which has been rotated before.
+      icl_core::String rotated_filename = m_db_filename + "." + time_str;
+      boost::system::error_code error;
+      for (size_t i = 1; boost::filesystem::exists(rotated_filename, error); ++i)
+      {
+        std::stringstream numbered_filename;
+        numbered_filename << m_db_filename << "." << time_str << "." << i;
+        rotated_filename = numbered_filename.str();
+      }
+      rename(m_db_filename.c_str(), rotated_filename.c_str());
 
       openDatabase();
     }
-- 
2.43.0


From 6bf0453340f6e24ee55452b332a51c6ed28cbb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:28 +0000
Subject: [PATCH 083/101] fix: do not read behind the text of large numbers in
 log messages

---
 src/icl_core/src/icl_core_logging/ThreadStream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/ThreadStream.cpp b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
index ad57132..237c9ac 100644
--- a/src/icl_core/src/icl_core_logging/ThreadStream.cpp
+++ b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
@@ -271,8 +271,9 @@ ThreadStream& operator << (ThreadStream& stream, const std::string& text)
 
 ThreadStream& operator << (ThreadStream& stream, double value)
 {
-  char local_buffer[100];
-  size_t length = os::snprintf(local_buffer, 100, "%f", value);
+  // Large enough for DBL_MAX, which has 309 digits before the decimal point.
+  char local_buffer[350];
+  size_t length = os::snprintf(local_buffer, 350, "%f", value);
   stream.write(local_buffer, length);
   return stream;
 }
-- 
2.43.0


From 0e018995a83f5a332842d0782b3d1dfb577f8794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:48 +0000
Subject: [PATCH 084/101] fix: create log streams anew when logging is
 initialised after a shutdown

---
 src/icl_core/src/icl_core_logging/Logging.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/Logging.h b/src/icl_core/src/icl_core_logging/Logging.h
index db74997..7af3bb6 100644
--- a/src/icl_core/src/icl_core_logging/Logging.h
+++ b/src/icl_core/src/icl_core_logging/Logging.h
@@ -68,7 +68,7 @@
     name()                                                         \
       : LogStream(#name)                                           \
     { }                                                            \
-    ~name() { }                                                    \
+    ~name() { m_instance = NULL; }                                 \
     static name *m_instance;                                       \
     friend class ::icl_core::logging::LoggingManager;              \
     friend class ::icl_core::logging::hidden::LogStreamRegistrar;  \
@@ -87,7 +87,7 @@
     name()                                                              \
       : LogStream(#name)                                                \
     { }                                                                 \
-    ~name() { }                                                         \
+    ~name() { m_instance = NULL; }                                      \
     static name *m_instance;                                            \
     friend class ::icl_core::logging::LoggingManager;                   \
     friend class ::icl_core::logging::hidden::LogStreamRegistrar;       \
-- 
2.43.0


From 6f793a59557549a778ce3a54c7e7bf2f693f681f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:39 +0000
Subject: [PATCH 085/101] fix: create the QuickDebug output only once when
 logging is initialised repeatedly

---
 src/icl_core/src/icl_core_logging/LoggingManager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/LoggingManager.cpp b/src/icl_core/src/icl_core_logging/LoggingManager.cpp
index 1b99ff1..4c76eb6 100644
--- a/src/icl_core/src/icl_core_logging/LoggingManager.cpp
+++ b/src/icl_core/src/icl_core_logging/LoggingManager.cpp
@@ -43,6 +43,9 @@ namespace logging {
 
 void LoggingManager::initialize()
 {
+  // Repeated initialization must not create the "QuickDebug" log output stream again.
+  bool create_quick_debug = !m_initialized;
+
   if (!m_initialized)
   {
     m_initialized = true;
@@ -100,7 +103,8 @@ void LoggingManager::initialize()
 
   // Configure the "QuickDebug" log stream and log output stream.
   icl_core::String quick_debug_filename;
-  if (icl_core::config::paramOpt<icl_core::String>("quick-debug", quick_debug_filename))
+  if (create_quick_debug
+      && icl_core::config::paramOpt<icl_core::String>("quick-debug", quick_debug_filename))
   {
     // Find an unused name for the QuickDebug[0-9]* log output stream.
     icl_core::String output_stream_name = "QuickDebug";
-- 
2.43.0


From a6d8baf2eb2a2b9e5d2760c0806d7c02c9113071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:51 +0000
Subject: [PATCH 086/101] fix: start log outputs which are created when logging
 is configured again

---
 src/icl_core/src/icl_core_logging/LoggingManager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/LoggingManager.cpp b/src/icl_core/src/icl_core_logging/LoggingManager.cpp
index 4c76eb6..397d6bb 100644
--- a/src/icl_core/src/icl_core_logging/LoggingManager.cpp
+++ b/src/icl_core/src/icl_core_logging/LoggingManager.cpp
@@ -204,6 +204,7 @@ void LoggingManager::configure()
                                                   loc_it->second.log_level);
       boost::tuples::tie(find_log_output_stream, boost::tuples::ignore) =
         m_log_output_streams.insert(std::make_pair(loc_it->second.name, log_output_stream));
+      log_output_stream->start();
     }
 
     // Check again, just to be sure!
@@ -274,6 +275,7 @@ void LoggingManager::configure()
       if (m_default_log_output == NULL)
       {
         m_default_log_output = StdLogOutput::create("Default", "/IclCore/Logging/Default");
+        m_default_log_output->start();
       }
       m_default_log_output->setLogLevel(initial_level);
 
-- 
2.43.0


From 9d41791af71bbf85ed0b178d02aa2d270d69bcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:49 +0000
Subject: [PATCH 087/101] fix: print the summary of an event without time data
 in the performance monitor

---
 .../PerformanceMonitor.cpp                       | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
index b5069db..5c6499d 100644
--- a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
+++ b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
@@ -274,7 +274,21 @@ void PerformanceMonitor::printSummary(string prefix, string name,
   PerformanceMonitor* monitor = getInstance();
 
   std::stringstream ss;
-  monitor->createStatisticSummary(ss, prefix, name);
+  bool has_time_data = monitor->m_data.find(makeName(prefix, name)) != monitor->m_data.end();
+  bool has_nontime_data =
+    monitor->m_data_nontime.find(makeName(prefix, name)) != monitor->m_data_nontime.end();
+  if (has_time_data)
+  {
+    monitor->createStatisticSummary(ss, prefix, name);
+  }
+  if (has_nontime_data)
+  {
+    monitor->createStatisticSummaryNonTime(ss, prefix, name);
+  }
+  if (!has_time_data && !has_nontime_data)
+  {
+    ss << "No data for " << makeName(prefix, name) << "\n";
+  }
   monitor->print(ss.str(), level);
 }
 
-- 
2.43.0


From 8423f331da3b87835d039b55383cde6d56eb4898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:50 +0000
Subject: [PATCH 088/101] fix: do not look for plugin symbols in the program
 itself when a plugin library cannot be opened

---
 src/icl_core/src/icl_core_plugin/PluginManager.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index 1e4c368..6891623 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -434,6 +434,15 @@ protected:
 #endif
 
     PluginHandle plugin_handle = dlopen(plugin.c_str(), RTLD_LAZY);
+    if (!plugin_handle)
+    {
+      std::ostringstream error;
+      const char* dlopen_error = dlerror();
+      error << "Cannot load plugin " << plugin << ": " << (dlopen_error ? dlopen_error : "unknown error");
+      addErrorMessage(error.str());
+      LOGGING_ERROR(Plugin, error.str() << icl_core::logging::endl);
+      return;
+    }
 
     dlerror(); // Clear any previous errors.
     typename T::identifier* get_identifier
-- 
2.43.0


From 6598cbc740df74f3e6280bf80c5df43f994e648c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:50 +0000
Subject: [PATCH 089/101] fix: close plugin libraries which are not used

---
 src/icl_core/src/icl_core_plugin/PluginManager.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index 6891623..6f56352 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -451,6 +451,7 @@ protected:
     typename T::basetype* get_basetype
       = (typename T::basetype*) dlsym(plugin_handle, "basetype");
 
+    bool is_plugin = false;
     const char* dlsym_error = dlerror();
     if (dlsym_error)
     {
@@ -497,11 +498,19 @@ protected:
       }
       else
       {
+        // If there already is a plugin with this identifier then it is replaced.
+        closePluginHandle(get_identifier());
         m_plugin_handles[get_identifier()] = plugin_handle;
+        is_plugin = true;
         LOGGING_DEBUG(Plugin, "Initialized plugin " << get_identifier() << " of basetype "
                       << get_basetype() << icl_core::logging::endl);
       }
     }
+
+    if (!is_plugin)
+    {
+      dlclose(plugin_handle);
+    }
   }
 
   /*! Loads an instance for all available plugins.  Manager will take
-- 
2.43.0


From f03c91f563d0144d0c7dcf6157ef83cd6dd542b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:50 +0000
Subject: [PATCH 090/101] fix: do not add unknown plugins or plugins without an
 instance to the plugins of the plugin manager

---
 src/icl_core/src/icl_core_plugin/PluginManager.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index 6f56352..ef50670 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -206,7 +206,8 @@ public:
       return m_static_plugins[identifier];
     }
 
-    return m_loaded_plugins[identifier];
+    typename std::map<std::string, T*>::const_iterator iter = m_loaded_plugins.find(identifier);
+    return iter != m_loaded_plugins.end() ? iter->second : NULL;
   }
 
   /*! Create a new plugin instance.
@@ -224,8 +225,8 @@ public:
       loadPlugins();
     }
 
-    PluginHandle plugin_handle = m_plugin_handles[identifier];
-    return loadPluginInstance(plugin_handle, identifier);
+    typename std::map<std::string, PluginHandle>::const_iterator iter = m_plugin_handles.find(identifier);
+    return loadPluginInstance(iter != m_plugin_handles.end() ? iter->second : NULL, identifier);
   }
 
   /*! Manually add an already created plugin instance.  Can be useful
@@ -525,7 +526,11 @@ protected:
     {
       if (m_loaded_plugins.find(iter->first) == m_loaded_plugins.end())
       {
-        m_loaded_plugins[iter->first] = createPluginInstance(iter->first);
+        T* plugin_instance = createPluginInstance(iter->first);
+        if (plugin_instance)
+        {
+          m_loaded_plugins[iter->first] = plugin_instance;
+        }
       }
     }
 
-- 
2.43.0


From 9c6f6719bfc313b26c6fe94d594f389604d5a2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:50 +0000
Subject: [PATCH 091/101] fix: close all plugins and forget the singleton
 instance when a plugin manager is destroyed

---
 .../src/icl_core_plugin/PluginManager.h       | 30 +++++++++++--------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index ef50670..ab4fdbb 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -62,29 +62,28 @@ class PluginManager: public PluginManagerBase
 public:
   ~PluginManager()
   {
-    while (!m_plugin_handles.empty() && !m_loaded_plugins.empty())
+    while (!m_plugin_handles.empty())
     {
-      closePluginHandle(m_loaded_plugins.begin()->first);
+      const std::string identifier = m_plugin_handles.begin()->first;
+      closePluginHandle(identifier);
     }
 
-    static PluginManager<T, plugin_dir>* m_instance;
-    m_instance = 0;
-    (void) m_instance;
+    if (instancePointer() == this)
+    {
+      instancePointer() = 0;
+    }
   }
 
   //! Singleton instance accessor.
   static PluginManager<T, plugin_dir> *instance()
   {
-    //! Singleton instance.
-    static PluginManager<T, plugin_dir> *m_instance = 0;
-
-    if (!m_instance)
+    if (!instancePointer())
     {
-      m_instance = new PluginManager<T, plugin_dir>();
+      instancePointer() = new PluginManager<T, plugin_dir>();
     }
 
-    assert(m_instance);
-    return m_instance;
+    assert(instancePointer());
+    return instancePointer();
   }
 
   //! Initializes the PluginManager.
@@ -352,6 +351,13 @@ protected:
     // nothing to do
   }
 
+  //! Singleton instance.
+  static PluginManager<T, plugin_dir> *&instancePointer()
+  {
+    static PluginManager<T, plugin_dir> *m_instance = 0;
+    return m_instance;
+  }
+
   /*! Search all files in the specified directories and add plugins
    *  found.
    */
-- 
2.43.0


From 1658b033fdf8d255dfeabf37f61f1fba70a3070b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:14 +0000
Subject: [PATCH 092/101] fix: search the remaining plugin paths and files if
 one of them cannot be examined

---
 .../src/icl_core_plugin/PluginManager.h       | 41 ++++++++++++-------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index ab4fdbb..02f3de8 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -392,37 +392,48 @@ protected:
         continue;
       }
 
-      if (!recursive_search)
+      try
       {
-        boost::filesystem::directory_iterator end_iter;
-        for (boost::filesystem::directory_iterator dir_iter(bpath); dir_iter != end_iter; ++dir_iter)
+        boost::system::error_code ec;
+        if (!recursive_search)
         {
-          if (boost::filesystem::is_regular_file(dir_iter->status()))
+          boost::filesystem::directory_iterator end_iter;
+          for (boost::filesystem::directory_iterator dir_iter(bpath); dir_iter != end_iter; ++dir_iter)
           {
+            if (boost::filesystem::is_regular_file(dir_iter->status(ec)))
+            {
 #if BOOST_FILESYSTEM_VERSION == 2
-            loadHandle(dir_iter->string());
+              loadHandle(dir_iter->string());
 #else
-            loadHandle(dir_iter->path().string());
+              loadHandle(dir_iter->path().string());
 #endif
+            }
           }
         }
-      }
-      else
-      {
-        boost::filesystem::recursive_directory_iterator end_iter;
-        for (boost::filesystem::recursive_directory_iterator dir_iter(bpath);
-             dir_iter != end_iter; ++dir_iter)
+        else
         {
-          if (boost::filesystem::is_regular_file(dir_iter->status()))
+          boost::filesystem::recursive_directory_iterator end_iter;
+          for (boost::filesystem::recursive_directory_iterator dir_iter(bpath);
+               dir_iter != end_iter; ++dir_iter)
           {
+            if (boost::filesystem::is_regular_file(dir_iter->status(ec)))
+            {
 #if BOOST_FILESYSTEM_VERSION == 2
-            loadHandle(dir_iter->string());
+              loadHandle(dir_iter->string());
 #else
-            loadHandle(dir_iter->path().string());
+              loadHandle(dir_iter->path().string());
 #endif
+            }
           }
         }
       }
+      catch (const boost::filesystem::filesystem_error &e)
+      {
+        std::ostringstream error;
+        error << "Cannot search for plugins in " << path << ": " << e.what();
+        addErrorMessage(error.str());
+        LOGGING_ERROR(Plugin, error.str() << icl_core::logging::endl);
+      }
     }
 
     LOGGING_DEBUG(Plugin, "Initialized " << m_plugin_handles.size() << " plugins."
-- 
2.43.0


From b0397bba90e59bc674dee0d5a95654fd5d18c56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:08 +0000
Subject: [PATCH 093/101] fix: PERF_MON_SUMMARY_ALL_DEBUG and _TRACE take no
 arguments in release builds either

---
 .../icl_core_performance_monitor/PerformanceMonitorMacros.h   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitorMacros.h b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitorMacros.h
index af06918..adbfeea 100644
--- a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitorMacros.h
+++ b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitorMacros.h
@@ -148,8 +148,8 @@
     #define PERF_MON_SUMMARY_TRACE(prefix, description) (void)0
     #define PERF_MON_SUMMARY_PREFIX_DEBUG(prefix) (void)0
     #define PERF_MON_SUMMARY_PREFIX_TRACE(prefix) (void)0
-    #define PERF_MON_SUMMARY_ALL_DEBUG(prefix, description) (void)0
-    #define PERF_MON_SUMMARY_ALL_TRACE(prefix, description) (void)0
+    #define PERF_MON_SUMMARY_ALL_DEBUG (void)0
+    #define PERF_MON_SUMMARY_ALL_TRACE (void)0
   #endif
 
 
-- 
2.43.0


From 79256e2f52baf3f34585bc3e76e8e3dfde572233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:01 +0000
Subject: [PATCH 094/101] fix: observers of all keys are told once about a
 change of the empty key

---
 src/icl_core/src/icl_core_config/ConfigManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/ConfigManager.cpp b/src/icl_core/src/icl_core_config/ConfigManager.cpp
index 339634a..b0fe86b 100644
--- a/src/icl_core/src/icl_core_config/ConfigManager.cpp
+++ b/src/icl_core/src/icl_core_config/ConfigManager.cpp
@@ -423,7 +423,7 @@ void ConfigManager::notify(const icl_core::String &key) const
     observers.insert(observers.end(), find_it->second.begin(), find_it->second.end());
   }
   find_it = m_observers.find("");
-  if (find_it != m_observers.end())
+  if (key != "" && find_it != m_observers.end())
   {
     observers.insert(observers.end(), find_it->second.begin(), find_it->second.end());
   }
-- 
2.43.0


From a5dec1add16901d4eee63eb2f4ba43341687731a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:04 +0000
Subject: [PATCH 095/101] fix: a query iterator which has reached the end stays
 there

---
 src/icl_core/src/icl_core/KeyValueDirectory.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core/KeyValueDirectory.hpp b/src/icl_core/src/icl_core/KeyValueDirectory.hpp
index d021f6d..b33c5d1 100644
--- a/src/icl_core/src/icl_core/KeyValueDirectory.hpp
+++ b/src/icl_core/src/icl_core/KeyValueDirectory.hpp
@@ -106,7 +106,7 @@ bool KeyValueDirectoryIterator<T>::next()
     m_current_entry = m_directory->m_items.begin();
   }
   // Otherwise move to the next iterator position.
-  else
+  else if (m_current_entry != m_directory->m_items.end())
   {
     ++m_current_entry;
   }
-- 
2.43.0


From ae3f8af1b7063de8d30cc459f32c5469cd6b8dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:40 +0000
Subject: [PATCH 096/101] fix: The old names of the bit field helpers cannot be
 compiled

---
 src/icl_core/src/icl_core/BitfieldHelper.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core/BitfieldHelper.h b/src/icl_core/src/icl_core/BitfieldHelper.h
index 9bb28bc..c2950d0 100644
--- a/src/icl_core/src/icl_core/BitfieldHelper.h
+++ b/src/icl_core/src/icl_core/BitfieldHelper.h
@@ -72,7 +72,7 @@ void SetBits(int bits, typename ConvertToRef<T>::ToRef bitfield) ICL_CORE_GCC_DE
 template <typename T>
 ICL_CORE_VC_DEPRECATE_STYLE void SetBits(int bits, typename ConvertToRef<T>::ToRef bitfield)
 {
-  setBits(bits, bitfield);bitfield = T(int(bitfield) | bits);
+  setBits<T>(bits, bitfield);
 }
 
 /*!
@@ -84,7 +84,7 @@ void ClearBits(int bits, typename ConvertToRef<T>::ToRef bitfield) ICL_CORE_GCC_
 template <typename T>
 ICL_CORE_VC_DEPRECATE_STYLE void ClearBits(int bits, typename ConvertToRef<T>::ToRef bitfield)
 {
-  clearBits(bits, bitfield);
+  clearBits<T>(bits, bitfield);
 }
 
 /*!
@@ -96,7 +96,7 @@ bool IsBitSet(int bit, typename ConvertToRef<T>::ToConstRef bitfield) ICL_CORE_G
 template <typename T>
 ICL_CORE_VC_DEPRECATE_STYLE bool IsBitSet(int bit, typename ConvertToRef<T>::ToConstRef bitfield)
 {
-  return isBitSet(bit, bitfield);
+  return isBitSet<T>(bit, bitfield);
 }
 
 #endif
-- 
2.43.0


From dd02ec13b97074957477c23c1b03345a1d9b66e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:40 +0000
Subject: [PATCH 097/101] fix: The old names of the bounds of sequence numbers
 cannot be linked

---
 src/icl_core/src/icl_core/SequenceNumber.cpp | 26 --------------------
 src/icl_core/src/icl_core/SequenceNumber.h   | 26 ++++++++++++++++++++
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/icl_core/src/icl_core/SequenceNumber.cpp b/src/icl_core/src/icl_core/SequenceNumber.cpp
index 2c93305..da4b43a 100644
--- a/src/icl_core/src/icl_core/SequenceNumber.cpp
+++ b/src/icl_core/src/icl_core/SequenceNumber.cpp
@@ -31,30 +31,4 @@
 
 namespace icl_core {
 
-////////////// DEPRECATED VERSIONS //////////////
-#ifdef _IC_BUILDER_DEPRECATED_STYLE_
-
-/*!
- * Get the maximum sequence number value.
- * \deprecated Obsolete coding style.
- */
-template <typename TBase, TBase max_value, TBase min_value, TBase initial_value>
-TBase SequenceNumber<TBase, max_value, min_value, initial_value>::MaxValue()
-{
-  return max_value;
-}
-
-/*!
- * Get the minimum sequence number value.
- * \deprecated Obsolete coding style.
- */
-template <typename TBase, TBase max_value, TBase min_value, TBase initial_value>
-TBase SequenceNumber<TBase, max_value, min_value, initial_value>::MinValue()
-{
-  return min_value;
-}
-
-#endif
-/////////////////////////////////////////////////
-
 }
diff --git a/src/icl_core/src/icl_core/SequenceNumber.h b/src/icl_core/src/icl_core/SequenceNumber.h
index 147c353..1068faf 100644
--- a/src/icl_core/src/icl_core/SequenceNumber.h
+++ b/src/icl_core/src/icl_core/SequenceNumber.h
@@ -204,6 +204,32 @@ private:
   TBase m_value;
 };
 
+////////////// DEPRECATED VERSIONS //////////////
+#ifdef _IC_BUILDER_DEPRECATED_STYLE_
+
+/*!
+ * Get the maximum sequence number value.
+ * \deprecated Obsolete coding style.
+ */
+template <typename TBase, TBase max_value, TBase min_value, TBase initial_value>
+TBase SequenceNumber<TBase, max_value, min_value, initial_value>::MaxValue()
+{
+  return max_value;
+}
+
+/*!
+ * Get the minimum sequence number value.
+ * \deprecated Obsolete coding style.
+ */
+template <typename TBase, TBase max_value, TBase min_value, TBase initial_value>
+TBase SequenceNumber<TBase, max_value, min_value, initial_value>::MinValue()
+{
+  return min_value;
+}
+
+#endif
+/////////////////////////////////////////////////
+
 }
 
 #endif
-- 
2.43.0


From 60a4255b4a42a2afe8826354ec7db87f9603050d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:40 +0000
Subject: [PATCH 098/101] fix: A joined thread object is taken for a later
 thread with the same ID

---
 .../src/icl_core_thread/ThreadImplPosix.cpp   | 23 ++++++++++++++-----
 .../src/icl_core_thread/ThreadImplPosix.h     |  4 +++-
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/icl_core/src/icl_core_thread/ThreadImplPosix.cpp b/src/icl_core/src/icl_core_thread/ThreadImplPosix.cpp
index e858336..6ea9c14 100644
--- a/src/icl_core/src/icl_core_thread/ThreadImplPosix.cpp
+++ b/src/icl_core/src/icl_core_thread/ThreadImplPosix.cpp
@@ -23,6 +23,7 @@
 #include "ThreadImplPosix.h"
 
 #include <assert.h>
+#include <errno.h>
 #include <pthread.h>
 
 #include <icl_core/os_posix_thread.h>
@@ -50,14 +51,19 @@ void ThreadImplPosix::cancel()
 
 void ThreadImplPosix::join()
 {
-  pthread_join(m_thread_id, NULL);
+  // The ID may belong to another thread from now on.
+  if (pthread_join(m_thread_id, NULL) == 0)
+  {
+    m_thread_id = 0;
+  }
 }
 
 icl_core::ThreadPriority ThreadImplPosix::priority() const
 {
   struct sched_param param;
   int policy;
-  int ret = pthread_getschedparam(m_thread_id, &policy, &param);
+  pthread_t thread_id = m_thread_id;
+  int ret = thread_id != 0 ? pthread_getschedparam(thread_id, &policy, &param) : ESRCH;
 
   if (ret == 0)
   {
@@ -74,7 +80,8 @@ bool ThreadImplPosix::setPriority(icl_core::ThreadPriority priority)
   // First get the current scheduling parameters.
   struct sched_param param;
   int policy;
-  int ret = pthread_getschedparam(m_thread_id, &policy, &param);
+  pthread_t thread_id = m_thread_id;
+  int ret = thread_id != 0 ? pthread_getschedparam(thread_id, &policy, &param) : ESRCH;
 
   if (ret != 0)
   {
@@ -83,19 +90,22 @@ bool ThreadImplPosix::setPriority(icl_core::ThreadPriority priority)
 
   // Change the thread priority and set it.
   param.sched_priority = priority;
-  ret = pthread_setschedparam(m_thread_id, policy, &param);
+  ret = pthread_setschedparam(thread_id, policy, &param);
 
   return (ret == 0);
 }
 
 bool ThreadImplPosix::start()
 {
-  if (pthread_create(&m_thread_id, NULL, ThreadImplPosix::runThread, this))
+  pthread_t thread_id;
+  if (pthread_create(&thread_id, NULL, ThreadImplPosix::runThread, this))
   {
     m_thread_id = 0;
+    return false;
   }
 
-  return m_thread_id != 0;
+  m_thread_id = thread_id;
+  return true;
 }
 
 icl_core::ThreadId ThreadImplPosix::threadId() const
@@ -106,6 +116,7 @@ icl_core::ThreadId ThreadImplPosix::threadId() const
 void * ThreadImplPosix::runThread(void *arg)
 {
   ThreadImplPosix *self = static_cast<ThreadImplPosix*>(arg);
+  self->m_thread_id = pthread_self();
   self->m_thread->runThread();
 
   return NULL;
diff --git a/src/icl_core/src/icl_core_thread/ThreadImplPosix.h b/src/icl_core/src/icl_core_thread/ThreadImplPosix.h
index 6a6fc7f..482f557 100644
--- a/src/icl_core/src/icl_core_thread/ThreadImplPosix.h
+++ b/src/icl_core/src/icl_core_thread/ThreadImplPosix.h
@@ -31,6 +31,7 @@
 #ifndef ICL_CORE_THREAD_THREAD_IMPL_POSIX_H_INCLUDED
 #define ICL_CORE_THREAD_THREAD_IMPL_POSIX_H_INCLUDED
 
+#include <boost/atomic.hpp>
 #include <icl_core/os_thread.h>
 
 #include "icl_core_thread/ThreadImpl.h"
@@ -76,7 +77,8 @@ public:
 private:
   static void *runThread(void *arg);
 
-  pthread_t m_thread_id;
+  //! The running (or not yet joined) thread, 0 if there is none.
+  boost::atomic<pthread_t> m_thread_id;
   Thread *m_thread;
   icl_core::ThreadPriority m_priority;
   icl_core::String m_description;
-- 
2.43.0


From 84c13d189b088e98e661e7d57799ace228da36f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:28 +0000
Subject: [PATCH 099/101] fix: The help text omits prefix options

---
 src/icl_core/src/icl_core_config/GetoptParser.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/GetoptParser.cpp b/src/icl_core/src/icl_core_config/GetoptParser.cpp
index 07cbf4c..5177586 100644
--- a/src/icl_core/src/icl_core_config/GetoptParser.cpp
+++ b/src/icl_core/src/icl_core_config/GetoptParser.cpp
@@ -522,13 +522,18 @@ void Getopt::printHelp() const
     std::cerr << std::endl;
   }
 
+  // Prefix options are explained along with the others.
+  ParameterMap parameters = m_parameters;
+  parameters.insert(m_prefix_parameters.begin(), m_prefix_parameters.end());
+
   for (int i=0; i<2; ++i)
   {
     std::cerr << (i == 0 ? "Generic options:" : "Options:") << std::endl;
-    for (ParameterMap::const_iterator it = m_parameters.begin(); it != m_parameters.end(); ++it)
+    for (ParameterMap::const_iterator it = parameters.begin(); it != parameters.end(); ++it)
     {
       bool const is_generic =
           it->second.option() == "configfile"  ||
+          it->second.option() == "config-option" ||
           it->second.option() == "dump-config" ||
           it->second.option() == "help"        ||
           it->second.option() == "log-level"   ||
@@ -540,6 +545,10 @@ void Getopt::printHelp() const
         if (it->second.shortOption() != "")
         {
           std::cerr << "-" << it->second.shortOption();
+          if (it->second.isPrefixOption())
+          {
+            std::cerr << "<name>";
+          }
           if (it->second.hasValue())
           {
             std::cerr << " <value>";
@@ -549,6 +558,10 @@ void Getopt::printHelp() const
 
         // Long option.
         std::cerr << "--" << it->second.option();
+        if (it->second.isPrefixOption())
+        {
+          std::cerr << "<name>";
+        }
         if (it->second.hasValue())
         {
           std::cerr << "=<value>";
-- 
2.43.0


From f347bc0e48f96d144358650d91d40efd5b87a08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:39 +0000
Subject: [PATCH 100/101] fix: Thread IDs in log messages are cut to 32 bits

---
 .../src/icl_core_logging/stream_operators_impl_posix.cpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/stream_operators_impl_posix.cpp b/src/icl_core/src/icl_core_logging/stream_operators_impl_posix.cpp
index 38c3d19..0603efb 100644
--- a/src/icl_core/src/icl_core_logging/stream_operators_impl_posix.cpp
+++ b/src/icl_core/src/icl_core_logging/stream_operators_impl_posix.cpp
@@ -30,7 +30,7 @@ namespace hidden_posix {
 
 ThreadStream& operator << (ThreadStream& stream, const ThreadId& thread_id)
 {
-  return stream << uint32_t(thread_id);
+  return stream << size_t(thread_id);
 }
 
 }
-- 
2.43.0


From 1b5be9582013fabb05a923f305a182c3b9d57126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:39 +0000
Subject: [PATCH 101/101] fix: A log file stays silent after the disk was full

---
 src/icl_core/src/icl_core_logging/FileLogOutput.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index f579621..54abbc8 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -177,14 +177,17 @@ void FileLogOutput::pushImpl(const icl_core::String& log_line)
 
   if (isOpen())
   {
+    // Writing may have failed before (e.g. because the disk was full). Try again.
 #ifdef _IC_BUILDER_ZLIB_
     if (m_online_zip)
     {
+      gzclearerr(m_zipped_log_file);
       gzwrite(m_zipped_log_file, log_line.c_str(), static_cast<unsigned int>(log_line.length()));
     }
     else
 #endif
     {
+      m_log_file.clear();
       m_log_file << log_line;
     }
 
-- 
2.43.0

