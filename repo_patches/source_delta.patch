From 79f1460e2f40714ea938cfe7f3aab3c3a0b9598c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 1/9] fix: ByteBuffer indexed and array access check the whole
 access against the limit

---
 src/misc/pv/byteBuffer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/misc/pv/byteBuffer.h b/src/misc/pv/byteBuffer.h
index 321f35d..eb1ba02 100644
--- a/src/misc/pv/byteBuffer.h
+++ b/src/misc/pv/byteBuffer.h
@@ -745,7 +745,7 @@ private:
     template<typename T>
     inline void ByteBuffer::put(std::size_t index, T value) const
     {
-        assert(_buffer+index<=_limit);
+        assert(sizeof(T)<=getLimit() && index<=getLimit()-sizeof(T));
 
         if(reverse<T>())
             value = swap<T>(value);
@@ -774,7 +774,7 @@ private:
     template<typename T>
     inline T ByteBuffer::get(std::size_t index) const
     {
-        assert(_buffer+index<=_limit);
+        assert(sizeof(T)<=getLimit() && index<=getLimit()-sizeof(T));
 
         T value = detail::load_unaligned<T>(_buffer + index);
 
@@ -786,8 +786,8 @@ private:
     template<typename T>
     inline void ByteBuffer::putArray(const T* values, std::size_t count)
     {
+        assert(count<=getRemaining()/sizeof(T));
         size_t n = sizeof(T)*count; // bytes
-        assert(n<=getRemaining());
 
         if (reverse<T>()) {
             for(std::size_t i=0; i<count; i++) {
@@ -802,8 +802,8 @@ private:
     template<typename T>
     inline void ByteBuffer::getArray(T* values, std::size_t count)
     {
+        assert(count<=getRemaining()/sizeof(T));
         size_t n = sizeof(T)*count; // bytes
-        assert(n<=getRemaining());
 
         if (reverse<T>()) {
             for(std::size_t i=0; i<count; i++) {
-- 
2.43.0


From 7dd9846dafd70969c18fca49555cab650a2b05ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:01 +0000
Subject: [PATCH 2/9] fix: serializeSubstring writes the characters, not only
 their count

---
 src/misc/serializeHelper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/misc/serializeHelper.cpp b/src/misc/serializeHelper.cpp
index 822ddec..06f471d 100644
--- a/src/misc/serializeHelper.cpp
+++ b/src/misc/serializeHelper.cpp
@@ -83,10 +83,10 @@ namespace epics {
                 offset = 0;
             else*/ if(offset>value.length()) offset = value.length();
 
-            if(offset+count>value.length()) count = value.length()-offset;
+            if(count>value.length()-offset) count = value.length()-offset;
 
             SerializeHelper::writeSize(count, buffer, flusher);
-            /*if (count<=0)*/ return;
+            if (count<=0) return;
             std::size_t i = 0;
             while(true) {
                 std::size_t maxToWrite = min(count-i, buffer->getRemaining());
-- 
2.43.0


From 616dc0bad3b0c070ccb42dfd6c84e035770ef5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:34 +0000
Subject: [PATCH 3/9] fix: TimeStamp::put(milliseconds) and += double keep
 nanoseconds in [0, 10^9)

---
 src/property/timeStamp.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/property/timeStamp.cpp b/src/property/timeStamp.cpp
index 57e4c4c..ba98318 100644
--- a/src/property/timeStamp.cpp
+++ b/src/property/timeStamp.cpp
@@ -65,6 +65,7 @@ void TimeStamp::put(int64 milliseconds)
 {
     secondsPastEpoch = milliseconds/1000;
     nanoseconds = (milliseconds%1000)*1000000;
+    normalize();
 }
 
 void TimeStamp::getCurrent()
@@ -163,14 +164,8 @@ TimeStamp & TimeStamp::operator+=(double seconds)
     int64 secs = static_cast<int64>(seconds);
     int64 nano = static_cast<int64>((seconds - secs)*1e9);
     nanoseconds += static_cast<int32>(nano);
-    if(nanoseconds>nanoSecPerSec) {
-        nanoseconds -= nanoSecPerSec;
-        secondsPastEpoch += 1;
-    } else if(nanoseconds<-nanoSecPerSec) {
-        nanoseconds += -nanoSecPerSec;
-        secondsPastEpoch -= 1;
-    }
     secondsPastEpoch += secs;
+    normalize();
     return *this;
 }
 
-- 
2.43.0


From c90764d4717e95419519261525f3e237e29ed44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:34 +0000
Subject: [PATCH 4/9] fix: TimeStamp comparison does not overflow for stamps
 far apart

---
 src/property/timeStamp.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/property/timeStamp.cpp b/src/property/timeStamp.cpp
index ba98318..1b17f35 100644
--- a/src/property/timeStamp.cpp
+++ b/src/property/timeStamp.cpp
@@ -91,10 +91,9 @@ int64 TimeStamp::diffInt(TimeStamp const & left,TimeStamp  const&right )
     int32 nl = left.nanoseconds;
     int64 sr = right.secondsPastEpoch;
     int32 nr = right.nanoseconds;
-    int64 sdiff = sl - sr;
-    sdiff *= nanoSecPerSec;
-    sdiff += nl - nr;
-    return sdiff;
+    // only the sign matters, and the difference in nanoseconds need not fit in an int64
+    if(sl!=sr) return sl<sr ? -1 : 1;
+    return static_cast<int64>(nl) - nr;
 }
 
 bool TimeStamp::operator==(TimeStamp const &right) const
-- 
2.43.0


From 3ccb85d238f506ec421ebf007a9fd7072949004a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:31 +0000
Subject: [PATCH 5/9] fix: Status::deserialize of the OK code clears the texts
 of a previous status of type OK

---
 src/misc/status.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/misc/status.cpp b/src/misc/status.cpp
index 0edd0f3..689135e 100644
--- a/src/misc/status.cpp
+++ b/src/misc/status.cpp
@@ -64,13 +64,10 @@ void Status::deserialize(ByteBuffer *buffer, DeserializableControl *flusher)
     int8 typeCode = buffer->getByte();
     if (typeCode == (int8)-1)
     {
-       // in most of the cases status will be OK, we statistically optimize
-       if (m_statusType != STATUSTYPE_OK)
-       {
-           m_statusType = STATUSTYPE_OK;
-           m_message.clear();
-           m_stackDump.clear();
-       }
+       // also an OK status may hold texts (received with type code 0)
+       m_statusType = STATUSTYPE_OK;
+       m_message.clear();
+       m_stackDump.clear();
     }
     else
     {
-- 
2.43.0


From 6bd6cc264dd571a2347976631bf3be16caab0b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:31 +0000
Subject: [PATCH 6/9] fix: Status::deserialize refuses type codes outside the
 enumeration

---
 src/misc/status.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/misc/status.cpp b/src/misc/status.cpp
index 689135e..a94a0fa 100644
--- a/src/misc/status.cpp
+++ b/src/misc/status.cpp
@@ -69,6 +69,10 @@ void Status::deserialize(ByteBuffer *buffer, DeserializableControl *flusher)
        m_message.clear();
        m_stackDump.clear();
     }
+    else if (typeCode < STATUSTYPE_OK || typeCode > STATUSTYPE_FATAL)
+    {
+        throw std::invalid_argument("invalid status type code");
+    }
     else
     {
         m_statusType = (StatusType)typeCode;
-- 
2.43.0


From 02bdcb9daa6e8769a64063abb5e2067b5f1d3b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:21 +0000
Subject: [PATCH 7/9] fix: shared_vector::at() accepts no index one past the
 end

---
 src/misc/pv/sharedVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc/pv/sharedVector.h b/src/misc/pv/sharedVector.h
index 905ee5e..6648087 100644
--- a/src/misc/pv/sharedVector.h
+++ b/src/misc/pv/sharedVector.h
@@ -623,7 +623,7 @@ public:
     //! @throws std::out_of_range if i>=size().
     reference at(size_t i) const
     {
-        if(i>this->m_count)
+        if(i>=this->m_count)
             throw std::out_of_range("Index out of bounds");
         return (*this)[i];
     }
-- 
2.43.0


From a547d608d8510d3a946ae55e355f09346a0839ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:21 +0000
Subject: [PATCH 8/9] fix: thaw() of a shared slice keeps the offset of the new
 storage

---
 src/misc/pv/sharedVector.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/misc/pv/sharedVector.h b/src/misc/pv/sharedVector.h
index 6648087..5cf9c62 100644
--- a/src/misc/pv/sharedVector.h
+++ b/src/misc/pv/sharedVector.h
@@ -155,11 +155,15 @@ namespace detail {
         shared_vector_base(shared_vector<const E>& O,
                            _shared_vector_thaw_tag)
             :m_sdata()
-            ,m_offset(O.m_offset)
-            ,m_count(O.m_count)
-            ,m_total(O.m_total)
+            ,m_offset(0)
+            ,m_count(0)
+            ,m_total(0)
         {
+            // may move the elements to new storage with a different offset
             O.make_unique();
+            m_offset = O.m_offset;
+            m_count = O.m_count;
+            m_total = O.m_total;
 #if __cplusplus >= 201103L
             m_sdata = std::move(std::tr1::const_pointer_cast<E>(O.m_sdata));
 #else
-- 
2.43.0


From 8383006dc02bd3601046fedabcfdd203c2de4ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:21 +0000
Subject: [PATCH 9/9] fix: shared_vector::reserve() never drops elements

---
 src/misc/pv/sharedVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc/pv/sharedVector.h b/src/misc/pv/sharedVector.h
index 5cf9c62..f294a4d 100644
--- a/src/misc/pv/sharedVector.h
+++ b/src/misc/pv/sharedVector.h
@@ -434,7 +434,7 @@ public:
             return;
         size_t new_count = this->m_count;
         if(new_count > i)
-            new_count = i;
+            i = new_count; // never drops elements
         _E_non_const* temp=new _E_non_const[i];
         try{
             std::copy(begin(), begin()+new_count, temp);
-- 
2.43.0

