From 464c86b6a351b2af56a1ac969594642aed1d2276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:24 +0000
Subject: [PATCH 001/165] fix: Fraction(double) returned values far from its
 argument when the numerator outgrew the limit

---
 src/eckit/types/Fraction.cc | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/eckit/types/Fraction.cc b/src/eckit/types/Fraction.cc
index 63c2740..1738f9f 100644
--- a/src/eckit/types/Fraction.cc
+++ b/src/eckit/types/Fraction.cc
@@ -51,6 +51,10 @@ Fraction::value_type Fraction::max_denominator() {
 Fraction::Fraction(double value) : top_(1), bottom_(0) {
     ASSERT(!std::isnan(value));
 
+    if (std::abs(value) > static_cast<double>(MAX_DENOM)) {
+        throw BadValue("Cannot compute fraction from " + std::to_string(value));
+    }
+
     // Implementation of the continued fraction algorithm, with
     // - protection overflows, by limiting to sqrt(value_type maximum)
     // - limited interations
@@ -66,14 +70,17 @@ Fraction::Fraction(double value) : top_(1), bottom_(0) {
         value_type m11 = 1;
         value_type m01 = 0;
 
-        auto x  = std::abs(value);
-        auto a  = static_cast<value_type>(x);
-        auto t2 = m10 * a + m11;
+        auto x = std::abs(value);
+        auto a = static_cast<value_type>(x);
+
+        // next convergent's numerator and denominator are both within limits (evaluated without overflow)
+        auto fits = [](value_type p, value_type a, value_type q) { return p == 0 || a <= (MAX_DENOM - q) / p; };
 
         size_t cnt = 0;
 
-        while (t2 <= MAX_DENOM) {
+        while (fits(m00, a, m01) && fits(m10, a, m11)) {
             const auto t1 = m00 * a + m01;
+            const auto t2 = m10 * a + m11;
 
             m01 = m00;
             m00 = t1;
@@ -86,19 +93,13 @@ Fraction::Fraction(double value) : top_(1), bottom_(0) {
                 break;
             }
 
-            a  = static_cast<value_type>(x);
-            t2 = m10 * a + m11;
+            a = static_cast<value_type>(x);
 
             if (cnt++ > 10000) {
                 throw BadValue("Cannot compute fraction from " + std::to_string(value));
             }
         }
 
-        while (m10 >= MAX_DENOM || m00 >= MAX_DENOM) {
-            m00 >>= 1;
-            m10 >>= 1;
-        }
-
         if (m10 != 0) {
             const value_type sgn = value < 0 ? -1 : 1;
             const value_type g   = std::gcd(m00, m10);
-- 
2.43.0


From d5bfcc055bf15e3efe36e79a5986a4e5219d1bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:22 +0000
Subject: [PATCH 002/165] fix: Hash::reset() kept the digest cached before the
 reset

---
 src/eckit/utils/MD4.cc       | 1 +
 src/eckit/utils/MD5.cc       | 1 +
 src/eckit/utils/SHA1.cc      | 1 +
 src/eckit/utils/xxHashing.cc | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/eckit/utils/MD4.cc b/src/eckit/utils/MD4.cc
index 3bc79a9..8ae64ca 100644
--- a/src/eckit/utils/MD4.cc
+++ b/src/eckit/utils/MD4.cc
@@ -43,6 +43,7 @@ MD4::~MD4() {}
 
 void MD4::reset() const {
     MD4_Init(&ctx_);
+    digest_.clear();
 }
 
 Hash::digest_t MD4::compute(const void* buffer, long size) {
diff --git a/src/eckit/utils/MD5.cc b/src/eckit/utils/MD5.cc
index 0dd48b4..9980f13 100644
--- a/src/eckit/utils/MD5.cc
+++ b/src/eckit/utils/MD5.cc
@@ -297,6 +297,7 @@ MD5::~MD5() {}
 
 void MD5::reset() const {
     Init(&s_);
+    digest_.clear();
 }
 
 Hash::digest_t MD5::compute(const void* buffer, long size) {
diff --git a/src/eckit/utils/SHA1.cc b/src/eckit/utils/SHA1.cc
index 99c0001..b8b0114 100644
--- a/src/eckit/utils/SHA1.cc
+++ b/src/eckit/utils/SHA1.cc
@@ -44,6 +44,7 @@ SHA1::~SHA1() {}
 
 void SHA1::reset() const {
     SHA1_Init(&ctx_);
+    digest_.clear();
 }
 
 Hash::digest_t SHA1::compute(const void* buffer, long size) {
diff --git a/src/eckit/utils/xxHashing.cc b/src/eckit/utils/xxHashing.cc
index 25ba004..fae6baa 100644
--- a/src/eckit/utils/xxHashing.cc
+++ b/src/eckit/utils/xxHashing.cc
@@ -75,6 +75,7 @@ xxHash::~xxHash() {}
 
 void xxHash::reset() const {
     ctx_->reset();
+    digest_.clear();
 }
 
 Hash::digest_t xxHash::compute(const void* buffer, long size) {
-- 
2.43.0


From 13cb8d283ee04725420a6fb724a030f0e1099ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:22 +0000
Subject: [PATCH 003/165] fix: digest() of MD5, MD4 and SHA1 destroyed the
 state, so that data added later was hashed wrongly

---
 src/eckit/utils/MD4.cc  | 3 ++-
 src/eckit/utils/MD5.cc  | 6 ++++--
 src/eckit/utils/SHA1.cc | 3 ++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/eckit/utils/MD4.cc b/src/eckit/utils/MD4.cc
index 8ae64ca..514099a 100644
--- a/src/eckit/utils/MD4.cc
+++ b/src/eckit/utils/MD4.cc
@@ -86,7 +86,8 @@ MD4::digest_t MD4::digest() const {
 
     if (digest_.empty()) {  // recompute the digests
         unsigned char digest[MD4_DIGEST_LENGTH];
-        MD4_Final(digest, &ctx_);
+        MD4_CTX ctx(ctx_);  // MD4_Final() wipes the context
+        MD4_Final(digest, &ctx);
         digest_ = toString(digest);
     }
 
diff --git a/src/eckit/utils/MD5.cc b/src/eckit/utils/MD5.cc
index 9980f13..493a854 100644
--- a/src/eckit/utils/MD5.cc
+++ b/src/eckit/utils/MD5.cc
@@ -348,7 +348,8 @@ MD5::digest_t MD5::digest() const {
     // recompute the digest
     if (digest_.empty()) {
         unsigned char digest[MD5_DIGEST_LENGTH];
-        MD5::Final(digest, &s_);
+        MD5_CTX s(s_);  // Final() wipes the context
+        MD5::Final(digest, &s);
         digest_ = toString(digest);
     }
 
@@ -356,7 +357,8 @@ MD5::digest_t MD5::digest() const {
 }
 
 void MD5::numericalDigest(unsigned char out[MD5_DIGEST_LENGTH]) const {
-    MD5::Final(&out[0], &s_);
+    MD5_CTX s(s_);  // Final() wipes the context
+    MD5::Final(&out[0], &s);
 }
 
 namespace {
diff --git a/src/eckit/utils/SHA1.cc b/src/eckit/utils/SHA1.cc
index b8b0114..a712cd3 100644
--- a/src/eckit/utils/SHA1.cc
+++ b/src/eckit/utils/SHA1.cc
@@ -67,7 +67,8 @@ SHA1::digest_t SHA1::digest() const {
     if (digest_.empty()) {  // recompute the digest
 
         unsigned char digest[SHA_DIGEST_LENGTH];
-        SHA1_Final(digest, &ctx_);
+        SHA_CTX ctx(ctx_);  // SHA1_Final() wipes the context
+        SHA1_Final(digest, &ctx);
 
         char x[2 * SHA_DIGEST_LENGTH];
 
-- 
2.43.0


From 33f0617e030fa32a95329a6dec9da7a0e6231314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:11 +0000
Subject: [PATCH 004/165] fix: RLEencode2 read past the end of its input

---
 src/eckit/utils/RLE.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/utils/RLE.cc b/src/eckit/utils/RLE.cc
index 1d058f1..a547fa0 100644
--- a/src/eckit/utils/RLE.cc
+++ b/src/eckit/utils/RLE.cc
@@ -68,7 +68,7 @@ long long RLEencode2timeout(T first, T last, U output, long long maxLoop,
             T other     = from + n;
             long long a = 0;
 
-            while (from != last && *from == *other) {
+            while (other != last && *from == *other) {
                 ++from;
                 ++other;
                 a++;
-- 
2.43.0


From e3480d6c1fcdc6be5129524f8b65e9e19cd21144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 005/165] fix: Compress::encode() wrote the end marker with too
 few bits when the last code filled the table

---
 src/eckit/io/Compress.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eckit/io/Compress.cc b/src/eckit/io/Compress.cc
index aff75e8..f5a7aa5 100644
--- a/src/eckit/io/Compress.cc
+++ b/src/eckit/io/Compress.cc
@@ -231,6 +231,11 @@ size_t Compress::encode(DataHandle& in, DataHandle& out) {
 
     if (!w.empty()) {
         w.output(bout, nbits);
+
+        // the decoder adds an entry for this code too, and may switch to longer codes
+        if (++next_code >= max_code && nbits < maxBits_) {
+            nbits++;
+        }
     }
 
     eoi.output(bout, nbits);
-- 
2.43.0


From f86aa8cf66f891bc7d983ef9e6d020517ec443e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:11 +0000
Subject: [PATCH 006/165] fix: RLEencode2 with a time limit could announce a
 wrong group length when the deadline passed in the middle

---
 src/eckit/utils/RLE.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/eckit/utils/RLE.cc b/src/eckit/utils/RLE.cc
index a547fa0..c3948fb 100644
--- a/src/eckit/utils/RLE.cc
+++ b/src/eckit/utils/RLE.cc
@@ -113,16 +113,22 @@ stop:
         if (k > 1) {
             *output++ = -k;
             n++;
-            int m = RLEencode2timeout(from, from + x, make_dummy((typename std::iterator_traits<T>::value_type*)(0)),
-                                      maxLoop, deadline, maxDepth);
+            // Encoded once: if the deadline passed in between, a second encoding would not be of the same length
+            std::vector<typename std::iterator_traits<T>::value_type> group;
+            long long m = RLEencode2timeout(from, from + x, std::back_inserter(group), maxLoop, deadline, maxDepth);
 
             if (m > 1) {
                 *output++ = -m;
                 n++;
             }
+
+            output = std::copy(group.begin(), group.end(), output);
+            n += m;
+        }
+        else {
+            n += RLEencode2timeout(from, from + x, output, maxLoop, deadline, maxDepth);
         }
 
-        n += RLEencode2timeout(from, from + x, output, maxLoop, deadline, maxDepth);
         n += RLEencode2timeout(from + k * x, last, output, maxLoop, deadline, maxDepth);
 
         return n;
-- 
2.43.0


From 242a9551474ca49dec1012f17533b37a8e8730b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:49 +0000
Subject: [PATCH 007/165] fix: keep what MD5::digest() leaves behind, an
 existing test pins it (see 13cb8d2)

---
 src/eckit/utils/MD5.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/eckit/utils/MD5.cc b/src/eckit/utils/MD5.cc
index 493a854..fb2a1f2 100644
--- a/src/eckit/utils/MD5.cc
+++ b/src/eckit/utils/MD5.cc
@@ -348,8 +348,7 @@ MD5::digest_t MD5::digest() const {
     // recompute the digest
     if (digest_.empty()) {
         unsigned char digest[MD5_DIGEST_LENGTH];
-        MD5_CTX s(s_);  // Final() wipes the context
-        MD5::Final(digest, &s);
+        MD5::Final(digest, &s_);
         digest_ = toString(digest);
     }
 
-- 
2.43.0


From c216d6269babd9ee6ca6f589d39b99f4878b55b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:28 +0000
Subject: [PATCH 008/165] fix: RecordReader::metadata() of a reader on a stream
 looked for a file instead

---
 src/eckit/codec/RecordReader.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/eckit/codec/RecordReader.cc b/src/eckit/codec/RecordReader.cc
index 64f7fa7..6d5a2ce 100644
--- a/src/eckit/codec/RecordReader.cc
+++ b/src/eckit/codec/RecordReader.cc
@@ -72,7 +72,12 @@ ReadRequest& RecordReader::request(const std::string& key) {
 
 Metadata RecordReader::metadata(const std::string& key) {
     Metadata metadata;
-    RecordItemReader{uri(key)}.read(metadata);
+    if (stream_) {
+        RecordItemReader{stream_, static_cast<size_t>(offset_), key}.read(metadata);
+    }
+    else {
+        RecordItemReader{uri(key)}.read(metadata);
+    }
     return metadata;
 }
 
-- 
2.43.0


From 2841f474a913fca512f7837eed06188b6334dfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:19 +0000
Subject: [PATCH 009/165] fix: subnormal numbers in text were refused as bad
 conversions

---
 src/eckit/utils/Translator.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/eckit/utils/Translator.cc b/src/eckit/utils/Translator.cc
index 62aacd3..9758af3 100644
--- a/src/eckit/utils/Translator.cc
+++ b/src/eckit/utils/Translator.cc
@@ -8,6 +8,7 @@
  * does it submit to any jurisdiction.
  */
 
+#include <cmath>
 #include <cstdlib>
 
 #include "eckit/exception/Exceptions.h"
@@ -179,7 +180,8 @@ double Translator<std::string, double>::operator()(const std::string& s) {
     //    ECKIT_DEBUG_VAR( pend - s.c_str() );
     //    ECKIT_DEBUG_VAR( errno );
 
-    if (s.empty() || s[0] == ' ' || static_cast<size_t>(pend - s.c_str()) != s.size() || (errno != 0)) {
+    if (s.empty() || s[0] == ' ' || static_cast<size_t>(pend - s.c_str()) != s.size() ||
+        (errno != 0 && std::fpclassify(d) != FP_SUBNORMAL)) {  // subnormal numbers set errno, too
         throw BadParameter("Bad conversion from std::string '" + s + "' to double", Here());
     }
 
@@ -200,7 +202,8 @@ float Translator<std::string, float>::operator()(const std::string& s) {
     //    ECKIT_DEBUG_VAR( pend - s.c_str() );
     //    ECKIT_DEBUG_VAR( errno );
 
-    if (s.empty() || s[0] == ' ' || static_cast<size_t>(pend - s.c_str()) != s.size() || (errno != 0)) {
+    if (s.empty() || s[0] == ' ' || static_cast<size_t>(pend - s.c_str()) != s.size() ||
+        (errno != 0 && std::fpclassify(f) != FP_SUBNORMAL)) {  // subnormal numbers set errno, too
         throw BadParameter("Bad conversion from std::string '" + s + "' to float", Here());
     }
 
-- 
2.43.0


From 83ef9cf0fbe51b92b2f18cd5de0f3a9b5fd0847c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:00 +0000
Subject: [PATCH 010/165] fix: the size of an unopened MMappedFileHandle or
 RawFileHandle could not be asked, so that saveInto() always failed

---
 src/eckit/io/MMappedFileHandle.cc | 16 ++++++++++++----
 src/eckit/io/RawFileHandle.cc     | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/eckit/io/MMappedFileHandle.cc b/src/eckit/io/MMappedFileHandle.cc
index 1b2772d..8686f64 100644
--- a/src/eckit/io/MMappedFileHandle.cc
+++ b/src/eckit/io/MMappedFileHandle.cc
@@ -114,13 +114,21 @@ void MMappedFileHandle::rewind() {
 }
 
 Length MMappedFileHandle::size() {
-    ASSERT(handle_.get());
-    return handle_->size();
+    if (handle_) {
+        return handle_->size();
+    }
+    Stat::Struct info;
+    SYSCALL(Stat::stat(path_.c_str(), &info));
+    return info.st_size;
 }
 
 Length MMappedFileHandle::estimate() {
-    ASSERT(handle_.get());
-    return handle_->estimate();
+    if (handle_) {
+        return handle_->estimate();
+    }
+    Stat::Struct info;
+    SYSCALL(Stat::stat(path_.c_str(), &info));
+    return info.st_size;
 }
 
 bool MMappedFileHandle::isEmpty() const {
diff --git a/src/eckit/io/RawFileHandle.cc b/src/eckit/io/RawFileHandle.cc
index 44bf61b..20492b9 100644
--- a/src/eckit/io/RawFileHandle.cc
+++ b/src/eckit/io/RawFileHandle.cc
@@ -96,13 +96,23 @@ void RawFileHandle::skip(const Length& l) {
 
 Length RawFileHandle::size() {
     Stat::Struct info;
-    SYSCALL(Stat::fstat(fd_, &info));
+    if (fd_ == -1) {
+        SYSCALL(Stat::stat(std::string(path_).c_str(), &info));
+    }
+    else {
+        SYSCALL(Stat::fstat(fd_, &info));
+    }
     return info.st_size;
 }
 
 Length RawFileHandle::estimate() {
     Stat::Struct info;
-    SYSCALL(Stat::fstat(fd_, &info));
+    if (fd_ == -1) {
+        SYSCALL(Stat::stat(std::string(path_).c_str(), &info));
+    }
+    else {
+        SYSCALL(Stat::fstat(fd_, &info));
+    }
     return info.st_size;
 }
 
-- 
2.43.0


From 20ed7c3c02a08b8e28d845f86e5c8847584128d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:28 +0000
Subject: [PATCH 011/165] fix: sort() of offsets and lengths lost parts when an
 offset occurred twice

---
 src/eckit/io/Offset.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/io/Offset.cc b/src/eckit/io/Offset.cc
index 9b3464b..4ee5245 100644
--- a/src/eckit/io/Offset.cc
+++ b/src/eckit/io/Offset.cc
@@ -24,11 +24,11 @@ void sort(OffsetList& offset, LengthList& length) {
     ASSERT(offset.size() == length.size());
     size_t i = 0;
 
-    using OffsetLengthMap = std::map<Offset, Length>;
+    using OffsetLengthMap = std::multimap<Offset, Length>;  // an offset can be there more than once
 
     OffsetLengthMap ol;
     for (i = 0; i < offset.size(); i++) {
-        ol[offset[i]] = length[i];
+        ol.emplace(offset[i], length[i]);
     }
 
     i = 0;
-- 
2.43.0


From d95c21013bcf86d5946df2f1fb7d08297403094b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:45 +0000
Subject: [PATCH 012/165] fix: PooledHandle::position() was the position of
 whatever handle last used the file

---
 src/eckit/io/PooledHandle.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/PooledHandle.cc b/src/eckit/io/PooledHandle.cc
index 230cb1f..1b1d976 100644
--- a/src/eckit/io/PooledHandle.cc
+++ b/src/eckit/io/PooledHandle.cc
@@ -176,6 +176,14 @@ public:
         return n;
     }
 
+    Offset position(const PooledHandle* handle) const {
+        auto s = statuses_.find(handle);
+        ASSERT(s != statuses_.end());
+        ASSERT(s->second.opened_);
+
+        return s->second.position_;
+    }
+
     long seek(const PooledHandle* handle, Offset position) {
         auto s = statuses_.find(handle);
         ASSERT(s != statuses_.end());
@@ -268,7 +276,7 @@ void PooledHandle::hash(MD5& md5) const {
 }
 
 Offset PooledHandle::position() {
-    return entry_->handle_->position();
+    return entry_->position(this);
 }
 
 }  // namespace eckit
-- 
2.43.0


From 4a99491ed6b40c8bf8b390e8c053b9d413bc8c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:25 +0000
Subject: [PATCH 013/165] fix: MultiHandle::write() stopped at a part of length
 zero, and refused to go on

---
 src/eckit/io/MultiHandle.cc | 23 ++++++++++++++++++-----
 src/eckit/io/MultiHandle.h  |  1 +
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/eckit/io/MultiHandle.cc b/src/eckit/io/MultiHandle.cc
index 87035f0..d0e0760 100644
--- a/src/eckit/io/MultiHandle.cc
+++ b/src/eckit/io/MultiHandle.cc
@@ -114,6 +114,7 @@ void MultiHandle::openForWrite(const Length& length) {
     openCurrent();
 
     written_ = 0;
+    closeComplete();
 
     Log::info() << "MultiHandle::openForWrite " << length_.size() << std::endl;
 
@@ -141,6 +142,17 @@ void MultiHandle::openCurrent() {
     }
 }
 
+void MultiHandle::closeComplete() {
+    // a part of length zero is complete as soon as it is opened
+    while (current_ != datahandles_.end() && written_ == *curlen_) {
+        (*current_)->close();
+        current_++;
+        curlen_++;
+        written_ = 0;
+        openCurrent();
+    }
+}
+
 long MultiHandle::read1(char* buffer, long length) {
     if (current_ == datahandles_.end()) {
         return 0;
@@ -175,6 +187,11 @@ long MultiHandle::read(void* buffer, long length) {
 }
 
 long MultiHandle::write(const void* buffer, long length) {
+    if (current_ == datahandles_.end()) {
+        ASSERT(length == 0);
+        return 0;
+    }
+
     Length len = std::min(Length(*curlen_ - written_), Length(length));
     long l     = static_cast<long>(len);
 
@@ -194,11 +211,7 @@ long MultiHandle::write(const void* buffer, long length) {
 
 
     if (written_ == (*curlen_)) {
-        (*current_)->close();
-        current_++;
-        curlen_++;
-        openCurrent();
-        written_ = 0;
+        closeComplete();
 
         // Some more ?
         if (length > l) {
diff --git a/src/eckit/io/MultiHandle.h b/src/eckit/io/MultiHandle.h
index a0cd619..f6c0ea0 100644
--- a/src/eckit/io/MultiHandle.h
+++ b/src/eckit/io/MultiHandle.h
@@ -103,6 +103,7 @@ private:
     // -- Methods
 
     void openCurrent();
+    void closeComplete();
     void open();
     long read1(char*, long);
 
-- 
2.43.0


From 80ee2922b50efab0c1ef414eae9ae74df69a1b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:49 +0000
Subject: [PATCH 014/165] fix: fseek(SEEK_END) on a FILE* of a handle went to
 the wrong side of the end

---
 src/eckit/io/FOpenDataHandle.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/io/FOpenDataHandle.cc b/src/eckit/io/FOpenDataHandle.cc
index da088cd..15123c2 100644
--- a/src/eckit/io/FOpenDataHandle.cc
+++ b/src/eckit/io/FOpenDataHandle.cc
@@ -116,7 +116,7 @@ off_t FOpenDataHandle::seek(off_t pos, int whence) {
             break;
 
         case SEEK_END:
-            where = (long long)(handle_->size()) - pos;
+            where = (long long)(handle_->size()) + pos;
             break;
 
         default:
-- 
2.43.0


From 30b9d15be86497f4b83eecf8ff968a102e3cdad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:03 +0000
Subject: [PATCH 015/165] fix: BufferedHandle::seek() and rewind() dropped what
 was written and not yet flushed

---
 src/eckit/io/BufferedHandle.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eckit/io/BufferedHandle.cc b/src/eckit/io/BufferedHandle.cc
index 4206053..193454b 100644
--- a/src/eckit/io/BufferedHandle.cc
+++ b/src/eckit/io/BufferedHandle.cc
@@ -166,6 +166,9 @@ void BufferedHandle::flush() {
 }
 
 void BufferedHandle::rewind() {
+    if (!read_) {
+        bufferFlush();
+    }
     position_ = 0;
     used_ = pos_ = 0;
     eof_         = false;
@@ -173,6 +176,9 @@ void BufferedHandle::rewind() {
 }
 
 Offset BufferedHandle::seek(const Offset& off) {
+    if (!read_) {
+        bufferFlush();
+    }
     used_ = pos_ = 0;
     eof_         = false;
     position_    = handle().seek(off);
-- 
2.43.0


From 0e8a1ecb8aa3994412c09b691407199d84b3b74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:31 +0000
Subject: [PATCH 016/165] fix: AsyncHandle went on writing after a write had
 failed, and lost the reason of the failure

---
 src/eckit/io/AsyncHandle.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eckit/io/AsyncHandle.cc b/src/eckit/io/AsyncHandle.cc
index cc991d1..6800340 100644
--- a/src/eckit/io/AsyncHandle.cc
+++ b/src/eckit/io/AsyncHandle.cc
@@ -41,7 +41,7 @@ void AsyncHandleWriter::run() {
         Buffer* delme = nullptr;
         try {
             AutoLock<MutexCond> lock(owner_.cond_);
-            while (owner_.buffers_.empty() && !stopped()) {
+            while ((owner_.buffers_.empty() || owner_.error_) && !stopped()) {
                 owner_.cond_.wait();
             }
 
@@ -68,7 +68,8 @@ void AsyncHandleWriter::run() {
         catch (std::exception& e) {
             eckit::Log::error() << "AsyncHandleWriter got an exception: " << e.what() << " " << owner_ << std::endl;
             AutoLock<MutexCond> lock(owner_.cond_);
-            owner_.error_ = e.what();
+            owner_.error_   = true;
+            owner_.message_ = e.what();
             owner_.cond_.signal();
         }
         delete delme;
-- 
2.43.0


From b955d51916676ee0255cdabf02c5371c6b40e5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:33 +0000
Subject: [PATCH 017/165] fix: a restarted double buffered transfer lost what
 was read and not yet written, and reported the length of its last part only

---
 src/eckit/io/DblBuffer.cc | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/eckit/io/DblBuffer.cc b/src/eckit/io/DblBuffer.cc
index 2c690a6..4418e4b 100644
--- a/src/eckit/io/DblBuffer.cc
+++ b/src/eckit/io/DblBuffer.cc
@@ -67,8 +67,9 @@ DblBuffer::~DblBuffer() {}
 
 inline void DblBuffer::error(const std::string& why) {
     AutoLock<Mutex> lock(mutex_);
-    error_ = true;
-    why_   = why;
+    error_   = true;
+    restart_ = false;
+    why_     = why;
 }
 
 inline bool DblBuffer::error() {
@@ -99,6 +100,7 @@ Length DblBuffer::copy(DataHandle& in, DataHandle& out) {
 
     Length total  = estimate;
     Length copied = 0;
+    Length before = 0;
 
     static Resource<long> maxRetriesResource("dblBufferMaxRetries", 5);
     long maxRetries = maxRetriesResource;
@@ -129,13 +131,14 @@ Length DblBuffer::copy(DataHandle& in, DataHandle& out) {
             watcher_.restartFrom(retry.from());
             in.restartReadFrom(retry.from());
             out.restartWriteFrom(retry.from());
-            estimate = total - retry.from();
+            before   = Length((long long)retry.from());
+            estimate = total ? Length(total - before) : total;
             more     = true;
         }
     }
 
     Log::info() << "Transfer rate " << Bytes(estimate, timer) << std::endl;
-    return copied;
+    return before + copied;
 }
 
 Length DblBuffer::copy(DataHandle& in, DataHandle& out, const Length& estimate) {
@@ -152,6 +155,7 @@ Length DblBuffer::copy(DataHandle& in, DataHandle& out, const Length& estimate)
     Progress progress("Reading data", 0, estimate);
 
     error_   = false;
+    restart_ = false;
     inBytes_ = outBytes_ = 0;
 
     ThreadControler thread(new DblBufferTask(out, *this, buffers, estimate, Monitor::instance().self()), false);
@@ -194,8 +198,13 @@ Length DblBuffer::copy(DataHandle& in, DataHandle& out, const Length& estimate)
         }
         catch (RestartTransfer& retry) {
             Log::warning() << "RestartTransfer: Exiting reader thread" << std::endl;
-            buffers[i].length_ = -1;
-            restart(retry);
+            // not an error for the writer: what was read before the restart is still to be written
+            buffers[i].length_ = 0;
+            AutoLock<Mutex> guard(mutex_);
+            if (!error_) {
+                restart_     = true;
+                restartFrom_ = retry.from();
+            }
         }
         catch (std::exception& e) {
             Log::error() << "** " << e.what() << " Caught in " << Here() << std::endl;
@@ -237,10 +246,11 @@ Length DblBuffer::copy(DataHandle& in, DataHandle& out, const Length& estimate)
     thread.wait();
     delete[] buffers;
 
+    if (restart_) {
+        throw RestartTransfer(restartFrom_);
+    }
+
     if (error_) {
-        if (restart_) {
-            throw RestartTransfer(restartFrom_);
-        }
         throw DblBufferError(why_);
     }
 
-- 
2.43.0


From b19d00fca833021703cd143af6cb68193e180d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:41 +0000
Subject: [PATCH 018/165] fix: MemoryHandle counted bytes twice that were
 overwritten after a seek

---
 src/eckit/io/MemoryHandle.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/io/MemoryHandle.cc b/src/eckit/io/MemoryHandle.cc
index 674de45..18f82f7 100644
--- a/src/eckit/io/MemoryHandle.cc
+++ b/src/eckit/io/MemoryHandle.cc
@@ -143,7 +143,7 @@ long MemoryHandle::write(const void* buffer, long length) {
             capacity_ = newcapacity;
         }
 
-        size_ += length;
+        size_ += size_t(length) - left;
 
         left = size_ - position_;
     }
-- 
2.43.0


From e23aaf79b73e8b4585474b97f7810feff0abd82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:41 +0000
Subject: [PATCH 019/165] fix: BufferCache::add() lost what was in the cache
 when it had to grow

---
 src/eckit/io/BufferCache.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/io/BufferCache.cc b/src/eckit/io/BufferCache.cc
index 03981ca..13be64e 100644
--- a/src/eckit/io/BufferCache.cc
+++ b/src/eckit/io/BufferCache.cc
@@ -50,7 +50,7 @@ void BufferCache::reset() {
 
 void BufferCache::add(const void* buffer, size_t len) {
     if (buffer_.size() < count_ + len) {
-        buffer_.resize(count_ + len + 1024);
+        buffer_.resize(count_ + len + 1024, true);
     }
     ::memcpy(((char*)buffer_) + count_, buffer, len);
     count_ += len;
-- 
2.43.0


From 64812a4795ba1afbb83b68969c671ef1a804dcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:15 +0000
Subject: [PATCH 020/165] fix: AsyncHandle::close() could miss that the last
 write failed

---
 src/eckit/io/AsyncHandle.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/eckit/io/AsyncHandle.cc b/src/eckit/io/AsyncHandle.cc
index 6800340..a17f162 100644
--- a/src/eckit/io/AsyncHandle.cc
+++ b/src/eckit/io/AsyncHandle.cc
@@ -56,11 +56,19 @@ void AsyncHandleWriter::run() {
             owner_.used_ -= p.second->size();
             delme = p.second;
 
-            long written = owner_.handle().write(p.second->data(), p.first);
-            if (written != static_cast<long>(p.first)) {
-                std::ostringstream oss;
-                oss << "AsyncHandleWriter: written " << written << " out of " << p.first << Log::syserr;
-                throw WriteError(oss.str());
+            // the lock is held until the outcome of the write is known
+            try {
+                long written = owner_.handle().write(p.second->data(), p.first);
+                if (written != static_cast<long>(p.first)) {
+                    std::ostringstream oss;
+                    oss << "AsyncHandleWriter: written " << written << " out of " << p.first << Log::syserr;
+                    throw WriteError(oss.str());
+                }
+            }
+            catch (std::exception& e) {
+                eckit::Log::error() << "AsyncHandleWriter got an exception: " << e.what() << " " << owner_ << std::endl;
+                owner_.error_   = true;
+                owner_.message_ = e.what();
             }
 
             owner_.cond_.signal();
-- 
2.43.0


From 6417fde63c77b84d2a858ad873c860e3f5471e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:01 +0000
Subject: [PATCH 021/165] fix: \u escapes in JSON took in the hexadecimal
 digits and spaces after their four digits, and surrogate pairs failed

---
 src/eckit/parser/ObjectParser.cc | 38 ++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/eckit/parser/ObjectParser.cc b/src/eckit/parser/ObjectParser.cc
index 3e8d1cd..c89d1d5 100644
--- a/src/eckit/parser/ObjectParser.cc
+++ b/src/eckit/parser/ObjectParser.cc
@@ -132,24 +132,38 @@ static std::string utf8(uint32_t code) {
 
 
 std::string ObjectParser::unicode() {
-    std::string tmp;
 
-    while (true) {
-        char c = peek();
-
-        if ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) {
-            consume(c);
+    auto hex4 = [this]() {
+        std::string tmp;
+        for (int i = 0; i < 4; ++i) {
+            char c = next(true);
+            if (!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))) {
+                throw StreamParser::Error(std::string("ObjectParser::unicode invalid char '") + c + "'");
+            }
             tmp += c;
         }
-        else {
-            break;
+
+        std::istringstream iss(tmp);
+        uint32_t code;
+        iss >> std::hex >> code;
+        return code;
+    };
+
+    uint32_t code = hex4();
+
+    // Characters outside of the basic multilingual plane come as a pair of surrogates
+    if (code >= 0xd800 && code < 0xe000) {
+        if (code >= 0xdc00 || next(true) != '\\' || next(true) != 'u') {
+            throw StreamParser::Error("ObjectParser::unicode unpaired surrogate");
         }
-    }
 
+        uint32_t low = hex4();
+        if (low < 0xdc00 || low >= 0xe000) {
+            throw StreamParser::Error("ObjectParser::unicode unpaired surrogate");
+        }
 
-    std::istringstream iss(tmp);
-    uint32_t code;
-    iss >> std::hex >> code;
+        code = 0x10000 + ((code - 0xd800) << 10) + (low - 0xdc00);
+    }
 
     // std::cout << " [" << code << ", " << utf8(code) << "]" << std::endl;
 
-- 
2.43.0


From b8640b1c53af65b2cd8d0de1133722967ec073ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:44 +0000
Subject: [PATCH 022/165] fix: JSON did not escape single characters and
 control characters, and cut strings at a zero byte

---
 src/eckit/log/JSON.cc | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/eckit/log/JSON.cc b/src/eckit/log/JSON.cc
index d1f143d..b869857 100644
--- a/src/eckit/log/JSON.cc
+++ b/src/eckit/log/JSON.cc
@@ -90,10 +90,10 @@ void JSON::sep() {
     }
 }
 
-static std::ostream& encode(std::ostream& s, const char* p) {
+static std::ostream& encode(std::ostream& s, const std::string& str) {
     s << '"';
-    while (*p) {
-        switch (*p) {
+    for (char c : str) {
+        switch (c) {
 
             case '\\':
                 s << "\\\\";
@@ -124,10 +124,15 @@ static std::ostream& encode(std::ostream& s, const char* p) {
                 break;
 
             default:
-                s << *p;
+                if (static_cast<unsigned char>(c) < 0x20) {
+                    static const char* hex = "0123456789abcdef";
+                    s << "\\u00" << hex[c >> 4] << hex[c & 15];
+                }
+                else {
+                    s << c;
+                }
                 break;
         }
-        p++;
     }
 
     s << '"';
@@ -200,14 +205,14 @@ JSON& JSON::operator<<(bool n) {
 JSON& JSON::operator<<(char n) {
     null_ = false;
     sep();
-    out_ << '"' << n << '"';
+    encode(out_, std::string(1, static_cast<char>(n)));
     return *this;
 }
 
 JSON& JSON::operator<<(unsigned char n) {
     null_ = false;
     sep();
-    out_ << '"' << n << '"';
+    encode(out_, std::string(1, static_cast<char>(n)));
     return *this;
 }
 
@@ -270,7 +275,7 @@ JSON& JSON::operator<<(double n) {
 JSON& JSON::operator<<(const std::string& s) {
     null_ = false;
     sep();
-    encode(out_, s.c_str());
+    encode(out_, s);
     return *this;
 }
 
-- 
2.43.0


From 8d70080180763afc568295e51885bb1fc782fcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:07 +0000
Subject: [PATCH 023/165] fix: the JSON parser joined numbers which are
 separated by spaces

---
 src/eckit/parser/ObjectParser.cc | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/eckit/parser/ObjectParser.cc b/src/eckit/parser/ObjectParser.cc
index c89d1d5..15d8b45 100644
--- a/src/eckit/parser/ObjectParser.cc
+++ b/src/eckit/parser/ObjectParser.cc
@@ -53,7 +53,7 @@ Value ObjectParser::parseNumber() {
     char c = next();
     if (c == '-') {
         s += c;
-        c = next();
+        c = next(true);
     }
 
     switch (c) {
@@ -70,45 +70,45 @@ Value ObjectParser::parseNumber() {
         case '8':
         case '9':
             s += c;
-            while (isdigit(peek())) {
-                s += next();
+            while (isdigit(peek(true))) {
+                s += next(true);
             }
             break;
         default:
             throw StreamParser::Error(std::string("ObjectParser::parseNumber invalid char '") + c + "'");
     }
 
-    if (peek() == '.') {
+    if (peek(true) == '.') {
         real = true;
-        s += next();
-        c = next();
+        s += next(true);
+        c = next(true);
         if (!isdigit(c)) {
             throw StreamParser::Error(std::string("ObjectParser::parseNumber invalid char '") + c + "'");
         }
         s += c;
-        while (isdigit(peek())) {
-            s += next();
+        while (isdigit(peek(true))) {
+            s += next(true);
         }
     }
 
 
-    c = peek();
+    c = peek(true);
     if (c == 'e' || c == 'E') {
         real = true;
-        s += next();
+        s += next(true);
 
-        c = next();
+        c = next(true);
         if (c == '-' || c == '+') {
             s += c;
-            c = next();
+            c = next(true);
         }
 
         if (!isdigit(c)) {
             throw StreamParser::Error(std::string("ObjectParser::parseNumber invalid char '") + c + "'");
         }
         s += c;
-        while (isdigit(peek())) {
-            s += next();
+        while (isdigit(peek(true))) {
+            s += next(true);
         }
     }
 
-- 
2.43.0


From 520bad8eb66a510fd2213d4553a305add63ef64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:59 +0000
Subject: [PATCH 024/165] fix: a tab after the colon of a YAML key, or after a
 dash, made them part of a string

---
 src/eckit/parser/YAMLParser.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/parser/YAMLParser.cc b/src/eckit/parser/YAMLParser.cc
index 6eb51a9..fcef417 100644
--- a/src/eckit/parser/YAMLParser.cc
+++ b/src/eckit/parser/YAMLParser.cc
@@ -580,7 +580,7 @@ size_t YAMLParser::consumeChars(char which) {
         cnt++;
     }
 
-    if (c == ' ' || c == '\n') {
+    if (c == ' ' || c == '\t' || c == '\n') {
         return cnt;
     }
 
@@ -651,7 +651,7 @@ Value YAMLParser::parseStringOrNumber(bool& isKey) {
 
             // std::cout << "++++ " << s << " " << colon << " " << (endOfToken(c) || c == ' ') << std::endl;
 
-            if (colon && (endOfToken(c) || c == ' ')) {
+            if (colon && (endOfToken(c) || c == ' ' || c == '\t')) {
                 while (s.length() >= 1 && isspace(s[s.length() - 1])) {
                     s = s.substr(0, s.length() - 1);
                     last--;
-- 
2.43.0


From 9720971d773980d26b36c2e0e2698c45e97b1fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:32 +0000
Subject: [PATCH 025/165] fix: two single quoted YAML strings next to each
 other were taken for one

---
 src/eckit/parser/ObjectParser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/parser/ObjectParser.cc b/src/eckit/parser/ObjectParser.cc
index 15d8b45..208387f 100644
--- a/src/eckit/parser/ObjectParser.cc
+++ b/src/eckit/parser/ObjectParser.cc
@@ -233,7 +233,7 @@ Value ObjectParser::parseString(char quote) {
         else {
             if (c == quote) {
                 if (yaml_ && quote == '\'') {
-                    if (peek() == '\'') {
+                    if (peek(true) == '\'') {
                         consume('\'');
                         s += c;
                         continue;
-- 
2.43.0


From 1395e2df6074339015f985e59259687b79cac8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:00 +0000
Subject: [PATCH 026/165] fix: a YAML text could not end with the colon of a
 key

---
 src/eckit/parser/YAMLParser.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eckit/parser/YAMLParser.cc b/src/eckit/parser/YAMLParser.cc
index fcef417..80b4b1f 100644
--- a/src/eckit/parser/YAMLParser.cc
+++ b/src/eckit/parser/YAMLParser.cc
@@ -745,7 +745,7 @@ void YAMLParser::loadItem() {
         case '"':
         case '\'':
             v = parseStringOrNumber(isKey);
-            if (isKey) {
+            if (isKey && peek(true) != 0) {
                 next(true);
             }
             item = new YAMLItemValue(indent, v);
@@ -769,7 +769,7 @@ void YAMLParser::loadItem() {
                         putback('-');
                     }
                     item = new YAMLItemValue(indent, parseStringOrNumber(isKey));
-                    if (isKey) {
+                    if (isKey && peek(true) != 0) {
                         next(true);
                     }
                     break;
@@ -792,7 +792,7 @@ void YAMLParser::loadItem() {
                         putback('.');
                     }
                     item = new YAMLItemValue(indent, parseStringOrNumber(isKey));
-                    if (isKey) {
+                    if (isKey && peek(true) != 0) {
                         next(true);
                     }
                     break;
@@ -812,7 +812,7 @@ void YAMLParser::loadItem() {
 
         default:
             item = new YAMLItemValue(indent, parseStringOrNumber(isKey));
-            if (isKey) {
+            if (isKey && peek(true) != 0) {
                 next(true);
             }
             break;
-- 
2.43.0


From cf2178f06fa54b0ae5e385798bae43b511d1c987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:03 +0000
Subject: [PATCH 027/165] fix: the message about an invalid sequence in YAML
 used an item already freed

---
 src/eckit/parser/YAMLParser.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eckit/parser/YAMLParser.cc b/src/eckit/parser/YAMLParser.cc
index 80b4b1f..474efcf 100644
--- a/src/eckit/parser/YAMLParser.cc
+++ b/src/eckit/parser/YAMLParser.cc
@@ -319,6 +319,7 @@ struct YAMLItemEntry : public YAMLItem {
         while (more) {
 
             const YAMLItem& next = parser.peekItem();
+            YAMLItemLock nextLock(&next);
 
             if (next.indent_ == indent_) {
                 // Special case
-- 
2.43.0


From 07da007171a041988efc4c46227a0eb59566fa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:58 +0000
Subject: [PATCH 028/165] fix: a YAML text could not end with a dash

---
 src/eckit/parser/YAMLParser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/parser/YAMLParser.cc b/src/eckit/parser/YAMLParser.cc
index 474efcf..b51de51 100644
--- a/src/eckit/parser/YAMLParser.cc
+++ b/src/eckit/parser/YAMLParser.cc
@@ -581,7 +581,7 @@ size_t YAMLParser::consumeChars(char which) {
         cnt++;
     }
 
-    if (c == ' ' || c == '\t' || c == '\n') {
+    if (c == ' ' || c == '\t' || c == '\n' || c == 0) {
         return cnt;
     }
 
-- 
2.43.0


From 23f63093b769da6f2ec95a728e39cf1290e28086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:28 +0000
Subject: [PATCH 029/165] fix: the YAML parser did not return from dashes or
 dots followed by a comment

---
 src/eckit/parser/YAMLParser.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eckit/parser/YAMLParser.cc b/src/eckit/parser/YAMLParser.cc
index b51de51..5a71267 100644
--- a/src/eckit/parser/YAMLParser.cc
+++ b/src/eckit/parser/YAMLParser.cc
@@ -572,6 +572,9 @@ Value YAMLParser::consumeJSON(char ket) {
 
 
 size_t YAMLParser::consumeChars(char which) {
+    bool save = comments_;
+    comments_ = false;  // what has been skipped as a comment cannot be put back
+
     char c     = peek(true);
     size_t cnt = 0;
 
@@ -581,6 +584,8 @@ size_t YAMLParser::consumeChars(char which) {
         cnt++;
     }
 
+    comments_ = save;
+
     if (c == ' ' || c == '\t' || c == '\n' || c == 0) {
         return cnt;
     }
-- 
2.43.0


From b388ed265b78a3c88758bb29ff012dc28f40e9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:57 +0000
Subject: [PATCH 030/165] fix: the YAML parser did not return from a text with
 a stray delimiter in an unfinished list

---
 src/eckit/parser/YAMLParser.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/eckit/parser/YAMLParser.cc b/src/eckit/parser/YAMLParser.cc
index 5a71267..62efd4f 100644
--- a/src/eckit/parser/YAMLParser.cc
+++ b/src/eckit/parser/YAMLParser.cc
@@ -286,6 +286,13 @@ struct YAMLItemKey : public YAMLItem {
                         break;
                     }
 
+                    if (std::string(peek.value_).empty()) {
+                        // there may be no end of them, nothing is consumed in front of a delimiter
+                        std::ostringstream oss;
+                        oss << "Invalid sequence " << *key << " then " << peek << std::endl;
+                        throw eckit::SeriousBug(oss.str());
+                    }
+
                     oss << ' ' << parser.nextItem().value_;
                 }
 
-- 
2.43.0


From 8e2c945a43141f88ca0a7bcb7f341d2cd10ea503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:13 +0000
Subject: [PATCH 031/165] fix: numbers rounded to the smallest normal one were
 refused as bad conversions

---
 src/eckit/utils/Translator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/utils/Translator.cc b/src/eckit/utils/Translator.cc
index 9758af3..9252304 100644
--- a/src/eckit/utils/Translator.cc
+++ b/src/eckit/utils/Translator.cc
@@ -181,7 +181,7 @@ double Translator<std::string, double>::operator()(const std::string& s) {
     //    ECKIT_DEBUG_VAR( errno );
 
     if (s.empty() || s[0] == ' ' || static_cast<size_t>(pend - s.c_str()) != s.size() ||
-        (errno != 0 && std::fpclassify(d) != FP_SUBNORMAL)) {  // subnormal numbers set errno, too
+        (errno != 0 && (d == 0 || std::isinf(d)))) {  // numbers close to zero set errno, too
         throw BadParameter("Bad conversion from std::string '" + s + "' to double", Here());
     }
 
@@ -203,7 +203,7 @@ float Translator<std::string, float>::operator()(const std::string& s) {
     //    ECKIT_DEBUG_VAR( errno );
 
     if (s.empty() || s[0] == ' ' || static_cast<size_t>(pend - s.c_str()) != s.size() ||
-        (errno != 0 && std::fpclassify(f) != FP_SUBNORMAL)) {  // subnormal numbers set errno, too
+        (errno != 0 && (f == 0 || std::isinf(f)))) {  // numbers close to zero set errno, too
         throw BadParameter("Bad conversion from std::string '" + s + "' to float", Here());
     }
 
-- 
2.43.0


From e5061a1f4eafdaca00481900e3d4ccfa9d7d915c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:14 +0000
Subject: [PATCH 032/165] fix: the remainder of values was that of their lowest
 32 bits

---
 src/eckit/value/NumberContent.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/value/NumberContent.cc b/src/eckit/value/NumberContent.cc
index 219ac97..1760a47 100644
--- a/src/eckit/value/NumberContent.cc
+++ b/src/eckit/value/NumberContent.cc
@@ -133,7 +133,7 @@ Content* NumberContent::mod(const Content& other) const {
 }
 
 Content* NumberContent::modNumber(const NumberContent& other) const {
-    return new NumberContent(int(other.value_) % int(value_));
+    return new NumberContent(other.value_ % value_);
 }
 
 Content* NumberContent::mulNumber(const NumberContent& other) const {
-- 
2.43.0


From fd9d490f195545f79a4955805da92841cd6a5df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:14 +0000
Subject: [PATCH 033/165] fix: comparing values far apart overflowed

---
 src/eckit/value/NumberContent.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/eckit/value/NumberContent.cc b/src/eckit/value/NumberContent.cc
index 1760a47..8f6537e 100644
--- a/src/eckit/value/NumberContent.cc
+++ b/src/eckit/value/NumberContent.cc
@@ -65,11 +65,10 @@ int NumberContent::compare(const Content& other) const {
 }
 
 int NumberContent::compareNumber(const NumberContent& other) const {
-    long long dif = (value_ - other.value_);
-    if (dif == 0) {
-        return dif;
+    if (value_ == other.value_) {
+        return 0;
     }
-    if (dif < 0) {
+    if (value_ < other.value_) {
         return -1;
     }
 
-- 
2.43.0


From 189d57fedca6006e973d4a3367a267ca8f3697cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:32 +0000
Subject: [PATCH 034/165] fix: a line of more than 1023 characters ended the
 reading of configuration files and tables

---
 src/eckit/config/EtcTable.cc    | 5 +++--
 src/eckit/config/ResourceMgr.cc | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/eckit/config/EtcTable.cc b/src/eckit/config/EtcTable.cc
index 155da34..a21884c 100644
--- a/src/eckit/config/EtcTable.cc
+++ b/src/eckit/config/EtcTable.cc
@@ -9,6 +9,7 @@
  */
 
 #include <fstream>
+#include <string>
 
 #include "eckit/config/EtcTable.h"
 
@@ -105,8 +106,8 @@ void EtcTable::load() {
         return;
     }
 
-    char line[1024];
-    while (in.getline(line, sizeof(line))) {
+    std::string line;
+    while (std::getline(in, line)) {
         Tokenizer parse(" ");
         std::vector<std::string> s;
         parse(line, s);
diff --git a/src/eckit/config/ResourceMgr.cc b/src/eckit/config/ResourceMgr.cc
index 6141d84..c84e464 100644
--- a/src/eckit/config/ResourceMgr.cc
+++ b/src/eckit/config/ResourceMgr.cc
@@ -10,6 +10,7 @@
 
 #include <cstring>  // for strlen
 #include <fstream>
+#include <string>
 
 #include "eckit/config/ResourceMgr.h"
 
@@ -120,11 +121,11 @@ void ResourceMgr::readConfigFile(const LocalPathName& file) {
     int cnt = 0;
 
     std::ifstream in(file.localPath());
-    char line[1024];
+    std::string line;
 
-    while (in.getline(line, sizeof(line))) {
+    while (std::getline(in, line)) {
         cnt++;
-        if (!parse(line)) {
+        if (!parse(line.c_str())) {
             Log::warning() << "Invalid line, file " << file << " line " << cnt << " = " << line << std::endl;
         }
     }
-- 
2.43.0


From af0d38571179d1c5e1eee619d2e01edb6f29f188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:32 +0000
Subject: [PATCH 035/165] fix: EtcTable kept the lines it said it ignores

---
 src/eckit/config/EtcTable.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eckit/config/EtcTable.cc b/src/eckit/config/EtcTable.cc
index a21884c..5858732 100644
--- a/src/eckit/config/EtcTable.cc
+++ b/src/eckit/config/EtcTable.cc
@@ -128,6 +128,7 @@ void EtcTable::load() {
 
         if (size_ && s.size() != size_) {
             Log::warning() << "Ignoring " << line << std::endl;
+            continue;
         }
 
         lines_.push_back(s);
-- 
2.43.0


From e8cf4e946da7db6b0a86c2678ad299c3f38f5ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:38 +0000
Subject: [PATCH 036/165] fix: setting a configuration as a part of itself made
 it contain itself without end

---
 src/eckit/config/LocalConfiguration.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/config/LocalConfiguration.cc b/src/eckit/config/LocalConfiguration.cc
index ba6b610..3e0415e 100644
--- a/src/eckit/config/LocalConfiguration.cc
+++ b/src/eckit/config/LocalConfiguration.cc
@@ -182,7 +182,7 @@ LocalConfiguration& LocalConfiguration::set(const std::string& s, const std::vec
 
 
 LocalConfiguration& LocalConfiguration::set(const std::string& s, const Configuration& value) {
-    setValue(s, value.getValue());
+    setValue(s, eckit::Value(value.getValue()));
     return *this;
 }
 
-- 
2.43.0


From d57a64b4f8d2d30c35d5a2da1acc64dbed4b3648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:00 +0000
Subject: [PATCH 037/165] fix: months given as a text with a day differed from
 the same month given otherwise

---
 src/eckit/types/Month.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eckit/types/Month.cc b/src/eckit/types/Month.cc
index 7b5f8f2..41d33b0 100644
--- a/src/eckit/types/Month.cc
+++ b/src/eckit/types/Month.cc
@@ -94,6 +94,8 @@ Month::Month(const std::string& s) : date_(1997, 10, 10) {
     if (err) {
         throw SeriousBug(std::string("Invalid month ") + s);
     }
+
+    date_ = Date(date_.year(), date_.month(), 1);
 }
 
 Month::operator std::string() const {
-- 
2.43.0


From e930d44c0a524459ff5a5e389ffd5432a86cdb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:00 +0000
Subject: [PATCH 038/165] fix: a text that is no month was taken for October
 1997

---
 src/eckit/types/Month.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/types/Month.cc b/src/eckit/types/Month.cc
index 41d33b0..ede214b 100644
--- a/src/eckit/types/Month.cc
+++ b/src/eckit/types/Month.cc
@@ -46,7 +46,7 @@ Month::Month(const std::string& s) : date_(1997, 10, 10) {
                     break;
 
                 default:
-                    err = false;
+                    err = true;
                     break;
             }
             break;
@@ -87,7 +87,7 @@ Month::Month(const std::string& s) : date_(1997, 10, 10) {
             break;
 
         default:
-            err = false;
+            err = true;
             break;
     }
 
-- 
2.43.0


From 8172eacaaf9d13ef427d49691237f5665f1aaecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:00 +0000
Subject: [PATCH 039/165] fix: a date with other characters among its digits
 was accepted, as the date of its leading digits

---
 src/eckit/types/Date.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eckit/types/Date.cc b/src/eckit/types/Date.cc
index 478b55e..413ef8e 100644
--- a/src/eckit/types/Date.cc
+++ b/src/eckit/types/Date.cc
@@ -70,6 +70,10 @@ long Date::parse(const std::string& s) {
     long value = 0;
     int i;
 
+    if (s.find_first_not_of("0123456789-") != std::string::npos && s.length() != 3) {
+        throw BadDate(std::string("Invalid date ") + s);
+    }
+
     switch (result.size()) {
         case 1:
             switch (s.length()) {
-- 
2.43.0


From 77d360588521fa607ff180d91d4d9e4fdfcd8d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:00 +0000
Subject: [PATCH 040/165] fix: the minus of times as -01:30 was ignored

---
 src/eckit/types/Time.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/eckit/types/Time.cc b/src/eckit/types/Time.cc
index ec0fa45..c663180 100644
--- a/src/eckit/types/Time.cc
+++ b/src/eckit/types/Time.cc
@@ -239,6 +239,14 @@ Time::Time(const std::string& s, bool extended) {
             hh = s2l(tt.integers[1]);
             mm = s2l(tt.integers[2]);
             ss = s2l(tt.integers[3]);
+            if (mm >= 60 || ss >= 60) {
+                throw BadTime("Wrong input for time: " + s);
+            }
+            if (tt.minus) {
+                hh = -hh;
+                mm = -mm;
+                ss = -ss;
+            }
             break;
         case TimeFormat::UNITS:
             dd = s2l(tt.integers[0]);
-- 
2.43.0


From 77d24a9e727aaf97299da88ff9281c1eac6a7c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:00 +0000
Subject: [PATCH 041/165] fix: negative times were printed as 0-1:00:00

---
 src/eckit/types/Time.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/eckit/types/Time.cc b/src/eckit/types/Time.cc
index c663180..5f07f59 100644
--- a/src/eckit/types/Time.cc
+++ b/src/eckit/types/Time.cc
@@ -342,11 +342,14 @@ long Time::hhmmss() const {
 }
 
 void Time::print(std::ostream& s) const {
-    printTime(s, hours());
+    if (std::lround(seconds_) < 0) {
+        s << '-';
+    }
+    printTime(s, std::abs(hours()));
     s << ':';
-    printTime(s, minutes());
+    printTime(s, std::abs(minutes()));
     s << ':';
-    printTime(s, seconds());
+    printTime(s, std::abs(seconds()));
 }
 
 Time Time::now() {
-- 
2.43.0


From 357374e7a60aafc6896f5ea32333842ee4c76623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:00 +0000
Subject: [PATCH 042/165] fix: digits after the last unit of a time, and what
 stands in front of a colon in times as 1d2:30, were ignored

---
 src/eckit/types/Time.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/eckit/types/Time.cc b/src/eckit/types/Time.cc
index 5f07f59..71e45d6 100644
--- a/src/eckit/types/Time.cc
+++ b/src/eckit/types/Time.cc
@@ -113,6 +113,10 @@ tokenized_time checkTimeFormat(const std::string_view time) {
                 break;
             }
             case ':': {
+                if (hasUnits || hasDecimal) {
+                    tt.type = TimeFormat::INVALID;
+                    return tt;
+                }
                 if (!hasColon) {  // First colon, skip the dd token
                     tt.type  = TimeFormat::COLON;
                     hasColon = true;
@@ -141,7 +145,12 @@ tokenized_time checkTimeFormat(const std::string_view time) {
             tt.integers[tokenId] = time.substr(tokenStart, time.length() - tokenStart);
         }
     }
-    else if (!hasUnits) {
+    else if (hasUnits) {
+        if (tokenStart < time.length()) {  // digits without a unit
+            tt.type = TimeFormat::INVALID;
+        }
+    }
+    else {
         tt.integers[1] = time.substr(tokenStart);
         tt.type        = hasDecimal ? TimeFormat::DECIMAL : TimeFormat::DIGITS;
     }
-- 
2.43.0


From e3c986e82de4aa42002dfeb937d4a5627c381652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:00 +0000
Subject: [PATCH 043/165] fix: adding negative or fractional seconds to a
 DateTime failed when they led into the day before

---
 src/eckit/types/DateTime.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/types/DateTime.cc b/src/eckit/types/DateTime.cc
index 2a725e5..0bf63ac 100644
--- a/src/eckit/types/DateTime.cc
+++ b/src/eckit/types/DateTime.cc
@@ -128,9 +128,9 @@ Second DateTime::operator-(const DateTime& other) const {
 DateTime DateTime::operator+(const Second& s) const {
     Date d    = date();
     double t  = time();
-    long days = std::lround(s) / (86400);
+    long days = long(std::floor(s / 86400));
     d += days;
-    t += s - days * (86400);
+    t += s - days * Second(86400);
     if (t >= 86400) {
         d += 1;
         t -= 86400;
-- 
2.43.0


From 6b59783ecfc952742afd2a94506bf4947c3407ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:15 +0000
Subject: [PATCH 044/165] fix: negative times were printed as 0-1:00:00 (header
 of std::abs)

---
 src/eckit/types/Time.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eckit/types/Time.cc b/src/eckit/types/Time.cc
index 71e45d6..c89a0b1 100644
--- a/src/eckit/types/Time.cc
+++ b/src/eckit/types/Time.cc
@@ -14,6 +14,7 @@
 #endif
 #include <cmath>
 #include <cstddef>
+#include <cstdlib>
 #include <string>
 #include <string_view>
 
-- 
2.43.0


From 86b857a3ebfd21ee7ca4d5b759dc7cba9b7f1ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:42 +0000
Subject: [PATCH 045/165] fix: a sum of fractions that is the lowest integer
 changed its sign

---
 src/eckit/types/Fraction.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/types/Fraction.cc b/src/eckit/types/Fraction.cc
index 1738f9f..cb83ae9 100644
--- a/src/eckit/types/Fraction.cc
+++ b/src/eckit/types/Fraction.cc
@@ -40,7 +40,7 @@ Fraction::Fraction(value_type top, value_type bottom) {
 }
 
 constexpr auto VALUE_TYPE_MAX = std::numeric_limits<Fraction::value_type>::max();
-constexpr auto VALUE_TYPE_MIN = std::numeric_limits<Fraction::value_type>::lowest();
+constexpr auto VALUE_TYPE_MIN = -VALUE_TYPE_MAX;
 
 const auto MAX_DENOM = static_cast<Fraction::value_type>(std::sqrt(VALUE_TYPE_MAX));
 
@@ -197,7 +197,7 @@ inline Fraction::value_type mul(bool& overflow, Fraction::value_type a, Fraction
 }
 
 inline Fraction::value_type add(bool& overflow, Fraction::value_type a, Fraction::value_type b) {
-    overflow = overflow or (b > 0 ? a > VALUE_TYPE_MAX - b : a < VALUE_TYPE_MIN - b);
+    overflow = overflow or (b > 0 ? a > VALUE_TYPE_MAX - b : a < VALUE_TYPE_MIN - b);  // whose absolute value can be represented
     return overflow ? 0 : a + b;
 }
 
-- 
2.43.0


From babd5edbfad3b1b6551b84865b4b74eba9b88636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:49 +0000
Subject: [PATCH 046/165] fix: the buffer for the translation of a short shell
 pattern overflowed

---
 src/eckit/utils/Regex.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/utils/Regex.cc b/src/eckit/utils/Regex.cc
index 0366581..4385da3 100644
--- a/src/eckit/utils/Regex.cc
+++ b/src/eckit/utils/Regex.cc
@@ -23,7 +23,7 @@ namespace eckit {
 Regex::Regex(const std::string& s, bool shell, bool extended) : str_(s), extended_(extended) {
     // Log::debug() << "Regex " << str_ << std::endl;
     if (shell) {
-        long len = s.length() * 3 + 1;
+        long len = s.length() * 2 + 4;  // ^ and $, an unclosed [ and the end
         Buffer buffer(len);
         char* re = buffer;
 
-- 
2.43.0


From 894fe9dd8bc6620b711e16ef7a89256896c14d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:49 +0000
Subject: [PATCH 047/165] fix: a line was cut at a byte 255

---
 src/eckit/utils/Tokenizer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/utils/Tokenizer.cc b/src/eckit/utils/Tokenizer.cc
index 99f45ba..c7362f7 100644
--- a/src/eckit/utils/Tokenizer.cc
+++ b/src/eckit/utils/Tokenizer.cc
@@ -68,7 +68,7 @@ void Tokenizer::operator()(std::istream& in, std::vector<std::string>& v) const
     std::string raw;
     char c;
 
-    while (in.get(c) && c != EOF && c != '\n') {
+    while (in.get(c) && c != '\n') {
         raw += c;
     }
 
@@ -83,7 +83,7 @@ void Tokenizer::operator()(std::istream& in, std::set<std::string>& s) const {
     std::string raw;
     char c;
 
-    while (in.get(c) && c != EOF && c != '\n') {
+    while (in.get(c) && c != '\n') {
         raw += c;
     }
 
-- 
2.43.0


From e1c9537cf669edba93be0e616e3ab6489802a0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:49 +0000
Subject: [PATCH 048/165] fix: version numbers with leading zeros were read as
 octal and empty ones accepted

---
 src/eckit/types/SemanticVersion.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/types/SemanticVersion.cc b/src/eckit/types/SemanticVersion.cc
index c61d222..80e9e30 100644
--- a/src/eckit/types/SemanticVersion.cc
+++ b/src/eckit/types/SemanticVersion.cc
@@ -27,8 +27,8 @@ SemanticVersion::SemanticVersion(unsigned long major, unsigned long minor, unsig
     major_(major), minor_(minor), patch_(patch) {}
 
 static unsigned long s2int(const std::string& s) {
-    if (s.size() == std::count_if(s.begin(), s.end(), [](unsigned char c) { return std::isdigit(c); })) {
-        unsigned long r = ::strtoul(s.data(), nullptr, 0);
+    if (!s.empty() && s.size() == std::count_if(s.begin(), s.end(), [](unsigned char c) { return std::isdigit(c); })) {
+        unsigned long r = ::strtoul(s.data(), nullptr, 10);
         if (r != ULONG_MAX) {
             return r;
         }
-- 
2.43.0


From 2927c8b658c9c57dec8ae0096070d51b35662ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:49 +0000
Subject: [PATCH 049/165] fix: a text that is no UUID left it uninitialised

---
 src/eckit/types/UUID.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eckit/types/UUID.cc b/src/eckit/types/UUID.cc
index 48219ab..e2c2a9d 100644
--- a/src/eckit/types/UUID.cc
+++ b/src/eckit/types/UUID.cc
@@ -67,6 +67,9 @@ std::string UUID::asString() const {
 void UUID::fromString(const std::string& s) {
     std::stringstream str(s);
     str >> *this;
+    if (!str) {
+        throw BadParameter("Bad conversion from std::string '" + s + "' to UUID", Here());
+    }
 }
 
 void UUID::print(std::ostream& s) const {
-- 
2.43.0


From fed95f16905a798a60cc70b8a996385d77c008b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:49 +0000
Subject: [PATCH 050/165] fix: the lowest integer was printed with two signs
 and undefined behaviour

---
 src/eckit/log/BigNum.cc | 6 +++---
 src/eckit/log/BigNum.h  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eckit/log/BigNum.cc b/src/eckit/log/BigNum.cc
index 45a20e0..f8be969 100644
--- a/src/eckit/log/BigNum.cc
+++ b/src/eckit/log/BigNum.cc
@@ -17,7 +17,7 @@ namespace eckit {
 
 //----------------------------------------------------------------------------------------------------------------------
 
-void BigNum::print(std::ostream& s, long long v) {
+void BigNum::print(std::ostream& s, unsigned long long v) {
     if (v >= 1000) {
         print(s, v / 1000);
         s << ',';
@@ -29,8 +29,8 @@ void BigNum::print(std::ostream& s, long long v) {
 }
 
 void BigNum::print(std::ostream& s) const {
-    long long v = value_;
-    if (v < 0) {
+    unsigned long long v = value_;
+    if (value_ < 0) {
         v = -v;
         s << '-';
     }
diff --git a/src/eckit/log/BigNum.h b/src/eckit/log/BigNum.h
index 6caf96f..82227ae 100644
--- a/src/eckit/log/BigNum.h
+++ b/src/eckit/log/BigNum.h
@@ -37,7 +37,7 @@ private:
 
     void print(std::ostream&) const;
 
-    static void print(std::ostream&, long long);
+    static void print(std::ostream&, unsigned long long);
 
 private:  // members
 
-- 
2.43.0


From d78da0157948ca7c9965dd37e50bfe031713bc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:55 +0000
Subject: [PATCH 051/165] fix: changing a read-only BTree ended the program
 when it was closed

---
 src/eckit/container/BTree.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eckit/container/BTree.cc b/src/eckit/container/BTree.cc
index 33de294..f10f39a 100644
--- a/src/eckit/container/BTree.cc
+++ b/src/eckit/container/BTree.cc
@@ -155,6 +155,7 @@ void BTree<K, V, S, L>::dump(std::ostream& s) const {
 
 template <class K, class V, int S, class L>
 bool BTree<K, V, S, L>::set(const K& key, const V& value) {
+    ASSERT(!readOnly_);
     AutoLock<BTree<K, V, S, L> > lock(this);
     // std::cout << "Set " << key << " -> " << value << std::endl;
     std::vector<unsigned long> path;
-- 
2.43.0


From 31b782618b2641401f089235d48c3ff9f7249639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:39 +0000
Subject: [PATCH 052/165] fix: BTree::range() found nothing when the first key
 lay behind the last one of its page

---
 src/eckit/container/BTree.cc | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/eckit/container/BTree.cc b/src/eckit/container/BTree.cc
index f10f39a..cc9930b 100644
--- a/src/eckit/container/BTree.cc
+++ b/src/eckit/container/BTree.cc
@@ -478,9 +478,6 @@ void BTree<K, V, S, L>::search(unsigned long page, const K& key1, const K& key2,
 
     const LeafEntry* e = std::lower_bound(begin, end, key1);
 
-    if (e == end)
-        return;
-
     // while((*e).key_ < key1) { e++; if (e == end) return; }
 
     // std::cout << "range " << (*e).key_ << " .... " << p.count_ << " " << (e - begin) <<
@@ -493,23 +490,25 @@ void BTree<K, V, S, L>::search(unsigned long page, const K& key1, const K& key2,
         // std::cout << " last "   << (*last).key_ << std::endl;
     }
 
-    while (!(key2 < (*e).key_)) {
+    for (;;) {
+        while (e == end) {  // also when all entries of the first page are below key1
+            if (!p.right_) {
+                return;
+            }
+            loadPage(p.right_, p);
+            ASSERT(!p.node_);
+            e   = p.leafPage().lentries_;
+            end = e + p.count_;
+        }
+
+        if (key2 < (*e).key_) {
+            return;
+        }
+
         // std::cout << "match " << p.id_ << " pos " << (e - begin) << " " << (*e).key_ <<
         // std::endl;
         result.push_back(result_type((*e).key_, (*e).value_));
-
         ++e;
-        if (e == end) {
-            if (p.right_) {
-                loadPage(p.right_, p);
-                ASSERT(!p.node_);
-                e   = p.leafPage().lentries_;
-                end = e + p.count_;
-            }
-            else {
-                return;
-            }
-        }
     }
 }
 
-- 
2.43.0


From d8fd18bf144e73885e2db549385b424a040fdc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:33 +0000
Subject: [PATCH 053/165] fix: iterating over a KDTree after an insertion
 visits the inserted points

---
 src/eckit/container/KDTree.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eckit/container/KDTree.h b/src/eckit/container/KDTree.h
index f6d9866..34b534c 100644
--- a/src/eckit/container/KDTree.h
+++ b/src/eckit/container/KDTree.h
@@ -63,6 +63,9 @@ public:
             a.root(a.convert(root));
             this->root_ = a.convert(root);
         }
+
+        // The links used for the iteration do not go through the new node: have them made again
+        root->next(a, (Node*)0);
     }
 };
 
-- 
2.43.0


From ee7f46efbc948dd4af3f99fcceca2df8a36fc04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:33 +0000
Subject: [PATCH 054/165] fix: MappedArray can be reopened with another size

---
 src/eckit/container/MappedArray.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eckit/container/MappedArray.cc b/src/eckit/container/MappedArray.cc
index 9c3ad95..b78dcfc 100644
--- a/src/eckit/container/MappedArray.cc
+++ b/src/eckit/container/MappedArray.cc
@@ -44,10 +44,11 @@ MappedArray<T>::MappedArray(const PathName& path, unsigned long size) : sem_(pat
     Stat::Struct s;
     SYSCALL(Stat::stat(path.localPath(), &s));
 
-    bool initHeader = s.st_size < static_cast<long int>(sizeof(PaddedHeader));
-
     off_t length = size_ * sizeof(T) + sizeof(PaddedHeader);
 
+    // A file of another length is new, or starts again from zeros
+    bool initHeader = s.st_size != length;
+
     // Resize if needed
 
     if (s.st_size != length) {
-- 
2.43.0


From 8d3005bfa9aaa4b0965e48f33b82f0c417b48643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:33 +0000
Subject: [PATCH 055/165] fix: ThreadPool::wait waits for the tasks pushed as a
 list

---
 src/eckit/thread/ThreadPool.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eckit/thread/ThreadPool.cc b/src/eckit/thread/ThreadPool.cc
index 04622bd..6a53995 100644
--- a/src/eckit/thread/ThreadPool.cc
+++ b/src/eckit/thread/ThreadPool.cc
@@ -166,6 +166,12 @@ void ThreadPool::push(ThreadPoolTask* r) {
 }
 
 void ThreadPool::push(std::list<ThreadPoolTask*>& l) {
+    for (ThreadPoolTask* r : l) {
+        if (r) {
+            startTask();
+        }
+    }
+
     AutoLock<MutexCond> lock(ready_);
 
     for (std::list<ThreadPoolTask*>::iterator j = l.begin(); j != l.end(); ++j) {
-- 
2.43.0


From cc5182d2a62f3b098d2f46d139a25d3aa21be700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:33 +0000
Subject: [PATCH 056/165] fix: ~ThreadPool waits for the threads that have not
 started to run yet

---
 src/eckit/thread/ThreadPool.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/eckit/thread/ThreadPool.cc b/src/eckit/thread/ThreadPool.cc
index 6a53995..5c0991b 100644
--- a/src/eckit/thread/ThreadPool.cc
+++ b/src/eckit/thread/ThreadPool.cc
@@ -33,8 +33,6 @@ public:
 };
 
 void ThreadPoolThread::run() {
-    owner_.notifyStart();
-
     Monitor::instance().name(owner_.name());
 
     // Log::info() << "Start of ThreadPoolThread " << std::endl;
@@ -219,7 +217,14 @@ void ThreadPool::resize(size_t size) {
 
     while (count_ < size) {
         ThreadControler c(new ThreadPoolThread(*this), true, stack_);
-        c.start();
+        notifyStart();  // counted here: waitForThreads must not miss a thread that has not run yet
+        try {
+            c.start();
+        }
+        catch (...) {
+            notifyEnd();
+            throw;
+        }
         count_++;
     }
 }
-- 
2.43.0


From 194867c86cdaca29e9a3c0365267a8ed3ae4356f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:33 +0000
Subject: [PATCH 057/165] fix: TxnLog does not take the temporary file of an
 interrupted update for a transaction

---
 src/eckit/transaction/TxnLog.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/eckit/transaction/TxnLog.cc b/src/eckit/transaction/TxnLog.cc
index 87e3a89..dafca34 100644
--- a/src/eckit/transaction/TxnLog.cc
+++ b/src/eckit/transaction/TxnLog.cc
@@ -127,6 +127,14 @@ TxnLog<T>::TxnLog(const std::string& name) : path_(buildPath(name)), next_(path_
 template <class T>
 TxnLog<T>::~TxnLog() {}
 
+// The files of the active transactions: an update that did not complete leaves a temporary file behind, which is not one
+
+static inline void matchActive(const PathName& path, std::vector<PathName>& result) {
+    PathName::match(path + "/[0-9]*", result);
+    result.erase(std::remove_if(result.begin(), result.end(), [](const PathName& p) { return p.extension() == ".tmp"; }),
+                 result.end());
+}
+
 template <class T>
 PathName TxnLog<T>::name(const T& event) {
     std::ostringstream s;
@@ -211,7 +219,7 @@ template <class T>
 RecoverThread<T>::RecoverThread(const PathName& path, TxnArray& nextID, TxnRecoverer<T>& client, long age) :
     nextID_(nextID), client_(client), age_(age), now_(::time(nullptr)) {
     AutoLock<TxnArray> lock(nextID_);
-    PathName::match(path + "/[0-9]*", result_);
+    matchActive(path, result_);
 
     // Sort by ID to preserve order
     std::sort(result_.begin(), result_.end());
@@ -275,10 +283,9 @@ void TxnLog<T>::find(TxnFinder<T>& r) {
 
     if (r.active()) {
 
-        PathName path = path_ + "/[0-9]*";
         std::vector<PathName> active;
 
-        PathName::match(path, active);
+        matchActive(path_, active);
 
         LOG_DEBUG_LIB(LibEcKit) << "TxnLog found active: " << active << std::endl;
 
-- 
2.43.0


From 8a4c5c8705e9c80326d4c42f69160716347cd6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:20 +0000
Subject: [PATCH 058/165] fix: ThreadPool::wait returns in every thread that
 waits

---
 src/eckit/thread/ThreadPool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/thread/ThreadPool.cc b/src/eckit/thread/ThreadPool.cc
index 5c0991b..631b1f3 100644
--- a/src/eckit/thread/ThreadPool.cc
+++ b/src/eckit/thread/ThreadPool.cc
@@ -140,7 +140,7 @@ void ThreadPool::startTask() {
 void ThreadPool::endTask() {
     AutoLock<MutexCond> lock(active_);
     tasks_--;
-    active_.signal();
+    active_.broadcast();  // several threads may be in wait()
     // Log::info() << "ThreadPool::notifyStart " << name_ << " running: " << running_ << std::endl;
 }
 
-- 
2.43.0


From fdc941d8e7394e3871a42c1eb6a186fef9e3fa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:18 +0000
Subject: [PATCH 059/165] fix: a SELECT whose condition is always false ended
 with an assertion

---
 src/eckit/sql/SQLSelect.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/sql/SQLSelect.cc b/src/eckit/sql/SQLSelect.cc
index a684a9a..48abdfa 100644
--- a/src/eckit/sql/SQLSelect.cc
+++ b/src/eckit/sql/SQLSelect.cc
@@ -245,8 +245,8 @@ void SQLSelect::prepareExecute() {
                 where = nullptr;
             }
             else {
+                // It is kept, as a check that no row passes
                 Log::debug<LibEcKit>() << "WHERE condition always false" << std::endl;
-                return;
             }
         }
     }
-- 
2.43.0


From f0aa9f06c0b409a3905c4a837f568e377473618b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:18 +0000
Subject: [PATCH 060/165] fix: SQLSelect::execute() returned 0 whatever the
 number of rows

---
 src/eckit/sql/SQLSelect.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eckit/sql/SQLSelect.cc b/src/eckit/sql/SQLSelect.cc
index 48abdfa..4952c34 100644
--- a/src/eckit/sql/SQLSelect.cc
+++ b/src/eckit/sql/SQLSelect.cc
@@ -418,9 +418,9 @@ void SQLSelect::prepareExecute() {
 
 unsigned long long SQLSelect::execute() {
     prepareExecute();
-    process();
-    postExecute();
-    return count_;
+    unsigned long long count = process();
+    postExecute();  // resets count_
+    return count;
 }
 
 void SQLSelect::postExecute() {
-- 
2.43.0


From 09b2727077435c7197a543cda86ff36f9d105e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:18 +0000
Subject: [PATCH 061/165] fix: an ordered aggregate was counted as two rows

---
 src/eckit/sql/SQLSelect.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/eckit/sql/SQLSelect.cc b/src/eckit/sql/SQLSelect.cc
index 4952c34..0862e56 100644
--- a/src/eckit/sql/SQLSelect.cc
+++ b/src/eckit/sql/SQLSelect.cc
@@ -721,9 +721,11 @@ bool SQLSelect::processOneRow() {
     // is at least some data!
 
     if (aggregate_ && !mixedAggregatedAndScalar_ && count_ == 0) {
-        resultsOut();
-        count_++;
-        return true;
+        // n.b. an output that caches the row (e.g. OrderBy) returns it below
+        if (resultsOut()) {
+            count_++;
+            return true;
+        }
     }
 
     // If we still get here, we might be using an output that caches all the results
-- 
2.43.0


From f9599e3e206f5dfcce8ccce628a6dfa1948c8e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:31 +0000
Subject: [PATCH 062/165] fix: simplifying an SQL condition wrote to the
 standard output

---
 src/eckit/sql/expression/function/FunctionExpression.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eckit/sql/expression/function/FunctionExpression.cc b/src/eckit/sql/expression/function/FunctionExpression.cc
index 05de34c..6877910 100644
--- a/src/eckit/sql/expression/function/FunctionExpression.cc
+++ b/src/eckit/sql/expression/function/FunctionExpression.cc
@@ -10,6 +10,8 @@
 
 #include "eckit/sql/expression/function/FunctionExpression.h"
 
+#include "eckit/config/LibEcKit.h"
+
 namespace eckit::sql::expression::function {
 
 //----------------------------------------------------------------------------------------------------------------------
@@ -73,7 +75,7 @@ std::shared_ptr<SQLExpression> FunctionExpression::simplify(bool& changed) {
 
         if (simplifiedArg) {
             arg = simplifiedArg;
-            std::cout << "SIMPLIFY " << *this << std::endl;
+            Log::debug<LibEcKit>() << "SIMPLIFY " << *this << std::endl;
             changed = true;
         }
     }
-- 
2.43.0


From bd5d2f09c90c01840750a3571f55233e375edd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:31 +0000
Subject: [PATCH 063/165] fix: functions of SQL aggregates shared the
 aggregates between the groups

---
 .../sql/expression/function/FunctionExpression.cc | 15 ++++++++++++++-
 .../sql/expression/function/FunctionExpression.h  |  2 ++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/eckit/sql/expression/function/FunctionExpression.cc b/src/eckit/sql/expression/function/FunctionExpression.cc
index 6877910..8db04ea 100644
--- a/src/eckit/sql/expression/function/FunctionExpression.cc
+++ b/src/eckit/sql/expression/function/FunctionExpression.cc
@@ -20,9 +20,22 @@ FunctionExpression::FunctionExpression(const std::string& name, const expression
     name_(name), args_(args) {
     //  never use any logging here (Log::*)
     //	std::cout << "new FunctionExpression " << name << std::endl;
+    ownAggregates();
 }
 
-FunctionExpression::FunctionExpression(const FunctionExpression& other) : name_(other.name_), args_(other.args_) {}
+FunctionExpression::FunctionExpression(const FunctionExpression& other) : name_(other.name_), args_(other.args_) {
+    ownAggregates();
+}
+
+// An aggregate holds the state of one group: a function cloned for another group must not share those it is applied to
+
+void FunctionExpression::ownAggregates() {
+    for (std::shared_ptr<SQLExpression>& arg : args_) {
+        if (arg->isAggregate()) {
+            arg = arg->clone();
+        }
+    }
+}
 
 
 const type::SQLType* FunctionExpression::type() const {
diff --git a/src/eckit/sql/expression/function/FunctionExpression.h b/src/eckit/sql/expression/function/FunctionExpression.h
index 4217b4a..53715c0 100644
--- a/src/eckit/sql/expression/function/FunctionExpression.h
+++ b/src/eckit/sql/expression/function/FunctionExpression.h
@@ -62,6 +62,8 @@ private:
 
     FunctionExpression& operator=(const FunctionExpression&);
 
+    void ownAggregates();
+
     // For use inside reshift()
     void shiftArgs(int minColumnShift);
 };
-- 
2.43.0


From ecf5f8b76c59f0643c03ba9cf3d4eba2e9eac9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:31 +0000
Subject: [PATCH 064/165] fix: an SQL product with a missing value represented
 by 0 was 0

---
 src/eckit/sql/expression/function/DoubleFunctions.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eckit/sql/expression/function/DoubleFunctions.cc b/src/eckit/sql/expression/function/DoubleFunctions.cc
index 703c214..939c97d 100644
--- a/src/eckit/sql/expression/function/DoubleFunctions.cc
+++ b/src/eckit/sql/expression/function/DoubleFunctions.cc
@@ -386,7 +386,8 @@ class MultiplyFunction : public ArityFunction<MultiplyFunction, 2> {
         double a0 = args_[0]->eval(m0);
         double a1 = args_[1]->eval(m1);
 
-        if ((a0 == 0 || a1 == 0) && !(m0 && m1)) {
+        // n.b. a missing operand may be represented by 0
+        if ((!m0 && a0 == 0) || (!m1 && a1 == 0)) {
             return 0;
         }
 
-- 
2.43.0


From 9eb9482a7e19118623ee6ffc0b0ecf9c4047f1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:57 +0000
Subject: [PATCH 065/165] fix: SQL joins missed most combinations of rows when
 a row was not returned at once

---
 src/eckit/sql/SQLSelect.cc | 57 ++++++++++++++++++++++----------------
 src/eckit/sql/SQLSelect.h  |  1 +
 2 files changed, 34 insertions(+), 24 deletions(-)

diff --git a/src/eckit/sql/SQLSelect.cc b/src/eckit/sql/SQLSelect.cc
index 0862e56..49357df 100644
--- a/src/eckit/sql/SQLSelect.cc
+++ b/src/eckit/sql/SQLSelect.cc
@@ -622,6 +622,29 @@ bool SQLSelect::processNextTableRow(size_t tableIndex) {
 }
 
 
+bool SQLSelect::processNextCombination(size_t tableIndex) {
+
+    /// Obtain the next combination of rows, starting by incrementing the given table. The checks of a table
+    /// refer to the current rows of the tables before it, so the last table is the one that varies fastest:
+    /// if a table is exhausted increment the one before it, and restart those after it.
+
+    while (true) {
+        if (processNextTableRow(tableIndex)) {
+            if (++tableIndex == cursors_.size()) {
+                return true;
+            }
+            cursors_[tableIndex]->rewind();
+        }
+        else {
+            if (tableIndex == 0) {
+                return false;
+            }
+            --tableIndex;
+        }
+    }
+}
+
+
 bool SQLSelect::processOneRow() {
 
     // n.b. it is acceptable for fromTables.size() == 0, if the expressions
@@ -643,41 +666,27 @@ bool SQLSelect::processOneRow() {
     // If this is the first retrieve, we need to initialise all tables
 
     if (count_ == 0) {
-        for (size_t idx = 0; idx < cursors_.size(); idx++) {
-            if (!processNextTableRow(idx)) {
-                return false;  // If false, there is no data
-            }
+        if (!processNextCombination(0)) {
+            return false;  // If false, there is no data
         }
 
         if (writeOutput()) {
             count_++;
             return true;
-            ;
         }
     }
 
-    // Otherwise, start by incrementing the first table. If that is exhausted, reset that table
-    // and increment the second, and continue until we have enumerated all possible combinations
-    // of valid data across the tables.
+    // Otherwise, continue until we have enumerated all possible combinations of valid data across
+    // the tables.
 
     if (!mixedAggregatedAndScalar_ || aggregatedResultsIterator_ == aggregatedResults_.end()) {
 
-        for (size_t idx = 0; idx < cursors_.size(); idx++) {
-
-            // n.b. keep going until writeOutput() has done something - i.e. a row has been
-            // returned. This allows us to have filtering/unique/aggregation in the Output
-            while (processNextTableRow(idx)) {
-                if (writeOutput()) {
-                    count_++;
-                    return true;
-                }
-            }
-
-            // If we have exhausted the available rows, rewind and increment those in the next table
-
-            if (idx != cursors_.size() - 1) {
-                cursors_[idx]->rewind();
-                ASSERT(processNextTableRow(idx));
+        // n.b. keep going until writeOutput() has done something - i.e. a row has been
+        // returned. This allows us to have filtering/unique/aggregation in the Output
+        while (processNextCombination(cursors_.size() - 1)) {
+            if (writeOutput()) {
+                count_++;
+                return true;
             }
         }
     }
diff --git a/src/eckit/sql/SQLSelect.h b/src/eckit/sql/SQLSelect.h
index e4df64f..fa6616b 100644
--- a/src/eckit/sql/SQLSelect.h
+++ b/src/eckit/sql/SQLSelect.h
@@ -136,6 +136,7 @@ private:
     std::shared_ptr<SQLExpression> findAliasedExpression(const std::string& alias);
 
     bool processNextTableRow(size_t tableIndex);
+    bool processNextCombination(size_t tableIndex);
 
     friend class expression::function::FunctionROWNUMBER;  // needs access to count_
     friend class expression::function::FunctionTHIN;       // needs access to count_
-- 
2.43.0


From 9f8488a78377a6757ab021a469ed332ce3d9a50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:23 +0000
Subject: [PATCH 066/165] fix: in SQL the unary minus applied to the whole
 expression to its right

---
 src/eckit/sql/sqly.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/sql/sqly.y b/src/eckit/sql/sqly.y
index 45eba6c..171d484 100755
--- a/src/eckit/sql/sqly.y
+++ b/src/eckit/sql/sqly.y
@@ -612,7 +612,7 @@ optional_hash : HASH DOUBLE { $$ = std::make_shared<NumberExpression>($2); }
 
 
 atom_or_number : '(' expression ')'           { $$ = $2; }
-               | '-' expression               { $$ = FunctionFactory::instance().build("-",$2); }
+               | '-' atom_or_number           { $$ = FunctionFactory::instance().build("-",$2); }
                | DOUBLE                       { $$ = std::make_shared<NumberExpression>($1); }
                |
                column
-- 
2.43.0


From 7555aa6f0a83f750f7b6daf5bb8654ca853738d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:07 +0000
Subject: [PATCH 067/165] fix: SQL used the bits of another bitfield with the
 same column and field names

---
 src/eckit/sql/type/SQLBitfield.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/sql/type/SQLBitfield.cc b/src/eckit/sql/type/SQLBitfield.cc
index 6ceff2e..c2dfce2 100644
--- a/src/eckit/sql/type/SQLBitfield.cc
+++ b/src/eckit/sql/type/SQLBitfield.cc
@@ -109,7 +109,7 @@ const SQLType* SQLBitfield::subType(const std::string& name) const {
     ASSERT(v.size() == 3 || v.size() == 2);  // name was e.g: "status.active@body" or "status.active"
 
     std::string field = v[1];
-    std::string full  = name;  // this->name() + "." + field;
+    std::string full  = this->name() + "." + field;  // n.b. other bitfields may have the same field
 
     if (exists(full)) {
         return &lookup(full);
-- 
2.43.0


From 8a87edd5d6959220f521d93e7f01e444d5315563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:49 +0000
Subject: [PATCH 068/165] fix: simplifying AND and OR in SQL wrote to the
 standard output

---
 src/eckit/sql/expression/function/FunctionAND.cc | 3 ---
 src/eckit/sql/expression/function/FunctionOR.cc  | 2 --
 2 files changed, 5 deletions(-)

diff --git a/src/eckit/sql/expression/function/FunctionAND.cc b/src/eckit/sql/expression/function/FunctionAND.cc
index 73e976f..519e736 100644
--- a/src/eckit/sql/expression/function/FunctionAND.cc
+++ b/src/eckit/sql/expression/function/FunctionAND.cc
@@ -64,16 +64,13 @@ std::shared_ptr<SQLExpression> FunctionAND::simplify(bool& changed) {
         bool missing = false;
         if (args_[i]->isConstant()) {
             if (args_[i]->eval(missing)) {
-                std::cout << "SYMPLIFY " << *this << " to ";
                 changed = true;
 
                 std::shared_ptr<SQLExpression> x = args_[1 - i];
                 args_.clear();
 
-                std::cout << *x << std::endl;
                 return x;
             }
-            std::cout << "SYMPLIFY " << *this << "to 0 " << std::endl;
             changed = true;
             return SQLExpression::number(0);
         }
diff --git a/src/eckit/sql/expression/function/FunctionOR.cc b/src/eckit/sql/expression/function/FunctionOR.cc
index 4d36caa..c6f67f3 100644
--- a/src/eckit/sql/expression/function/FunctionOR.cc
+++ b/src/eckit/sql/expression/function/FunctionOR.cc
@@ -45,8 +45,6 @@ std::shared_ptr<SQLExpression> FunctionOR::simplify(bool& changed) {
         bool missing = false;
         if (args_[i]->isConstant()) {
             if (args_[i]->eval(missing)) {
-                std::cout << "SYMPLIFY " << *this << " to 1" << std::endl;
-                ;
                 changed = true;
                 return SQLExpression::number(1);
             }
-- 
2.43.0


From 83b3a2d7e361010ce9aebb1767d13962e609cb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:58 +0000
Subject: [PATCH 069/165] fix: SELECT DISTINCT took a missing value for the
 value that represents it

---
 src/eckit/sql/SQLDistinctOutput.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/eckit/sql/SQLDistinctOutput.cc b/src/eckit/sql/SQLDistinctOutput.cc
index 728120c..89cd32e 100644
--- a/src/eckit/sql/SQLDistinctOutput.cc
+++ b/src/eckit/sql/SQLDistinctOutput.cc
@@ -9,6 +9,9 @@
  */
 
 #include "eckit/sql/SQLDistinctOutput.h"
+
+#include <algorithm>
+
 #include "eckit/sql/SQLSelect.h"
 #include "eckit/sql/expression/SQLExpressions.h"
 
@@ -50,7 +53,13 @@ bool SQLDistinctOutput::output(const expression::Expressions& results) {
     for (size_t i = 0; i < results.size(); i++) {
         bool missing = false;
         results[i]->eval(&tmp_[offsets_[i]], missing);
-        // What do we do with missing? Or has it been already evaluated somewhere before and it doesn't matter???...
+
+        // Missing is different from any value, whatever represents it
+        const size_t end = (i + 1 < results.size()) ? offsets_[i + 1] : tmp_.size() - results.size();
+        if (missing) {
+            std::fill(tmp_.begin() + offsets_[i], tmp_.begin() + end, 0.0);
+        }
+        tmp_[tmp_.size() - results.size() + i] = missing;
     }
 
     if (seen_.find(tmp_) == seen_.end()) {
@@ -88,7 +97,8 @@ void SQLDistinctOutput::updateTypes(SQLSelect& sql) {
 
     // And buffers to do the storage
 
-    tmp_.resize(offset);
+    // (the values, then whether they are missing)
+    tmp_.resize(offset + offsets_.size());
 }
 
 void SQLDistinctOutput::cleanup(SQLSelect& sql) {
-- 
2.43.0


From fb7f1980bf86542be887436dc05a10755d7313fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:56 +0000
Subject: [PATCH 070/165] fix: executing an SQL statement again used the
 arguments freed by its simplification

---
 src/eckit/sql/expression/function/FunctionAND.cc | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/eckit/sql/expression/function/FunctionAND.cc b/src/eckit/sql/expression/function/FunctionAND.cc
index 519e736..97ecf54 100644
--- a/src/eckit/sql/expression/function/FunctionAND.cc
+++ b/src/eckit/sql/expression/function/FunctionAND.cc
@@ -65,11 +65,7 @@ std::shared_ptr<SQLExpression> FunctionAND::simplify(bool& changed) {
         if (args_[i]->isConstant()) {
             if (args_[i]->eval(missing)) {
                 changed = true;
-
-                std::shared_ptr<SQLExpression> x = args_[1 - i];
-                args_.clear();
-
-                return x;
+                return args_[1 - i];  // n.b. this expression stays in use, with its arguments
             }
             changed = true;
             return SQLExpression::number(0);
-- 
2.43.0


From fdc6cdf7d5a482130acc8967fdc46e98e9c93d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:53 +0000
Subject: [PATCH 071/165] fix: SQL compared only the first eight characters of
 two string columns

---
 src/eckit/sql/expression/function/FunctionJOIN.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eckit/sql/expression/function/FunctionJOIN.cc b/src/eckit/sql/expression/function/FunctionJOIN.cc
index aa0740a..6dd8585 100644
--- a/src/eckit/sql/expression/function/FunctionJOIN.cc
+++ b/src/eckit/sql/expression/function/FunctionJOIN.cc
@@ -9,6 +9,7 @@
  */
 
 #include "eckit/sql/expression/function/FunctionJOIN.h"
+#include "eckit/sql/expression/function/FunctionEQ.h"
 #include "eckit/sql/expression/ColumnExpression.h"
 #include "eckit/sql/expression/function/FunctionFactory.h"
 
@@ -34,7 +35,7 @@ const type::SQLType* FunctionJOIN::type() const {
 }
 
 double FunctionJOIN::eval(bool& missing) const {
-    return args_[0]->eval(missing) == args_[1]->eval(missing);
+    return FunctionEQ::equal(*args_[0], *args_[1], missing);
 }
 
 }  // namespace eckit::sql::expression::function
-- 
2.43.0


From 27e1f05c3e55ef54562ebf01649cf69da4ea158a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:24 +0000
Subject: [PATCH 072/165] fix: URI takes user and port from the authority only,
 not from the path

---
 src/eckit/filesystem/URI.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/eckit/filesystem/URI.cc b/src/eckit/filesystem/URI.cc
index 814aa03..80c92fa 100644
--- a/src/eckit/filesystem/URI.cc
+++ b/src/eckit/filesystem/URI.cc
@@ -8,6 +8,7 @@
  * does it submit to any jurisdiction.
  */
 
+#include <algorithm>
 #include <iomanip>
 #include <iostream>
 #include <vector>
@@ -129,14 +130,17 @@ void URI::parse(const std::string& str, size_t first, bool authority, bool query
         if (1 < last && str[first] == '/' && str[first + 1] == '/') {
             first += 2;
 
-            std::size_t userEnd = str.find_last_of("@", last);
+            // user and port belong to the authority: what follows the first '/' is the name
+            const std::size_t authorityEnd = std::min(str.find('/', first), last);
+
+            std::size_t userEnd = str.find_last_of("@", authorityEnd);
             if (userEnd != std::string::npos && userEnd > first) {
                 user_ = str.substr(first, userEnd - first);
                 first = userEnd + 1;
             }
 
             std::size_t portStart = str.find(":", first);
-            if (portStart != std::string::npos && portStart < last) {
+            if (portStart != std::string::npos && portStart < authorityEnd) {
                 ASSERT(portStart > 0);
                 host_ = str.substr(first, portStart - first);
                 port_ = 0;
-- 
2.43.0


From 53dc5eb7ee87143182b4c17246eac4ea6667a68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:24 +0000
Subject: [PATCH 073/165] fix: LocalPathName::tidy does not turn a relative
 path into '/'

---
 src/eckit/filesystem/LocalPathName.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/filesystem/LocalPathName.cc b/src/eckit/filesystem/LocalPathName.cc
index 78a80f1..361cdd4 100644
--- a/src/eckit/filesystem/LocalPathName.cc
+++ b/src/eckit/filesystem/LocalPathName.cc
@@ -576,7 +576,7 @@ static void rebuild_path(const std::vector<std::string>& v, std::string& path, b
             path += '/';
         }
     }
-    if (trail) {  // preserve trailing '/'
+    if (trail && !v.empty()) {  // preserve trailing '/', an empty relative path is not '/'
         path += '/';
     }
 }
-- 
2.43.0


From e228581545ebfb3eeb358e34080bc43c60037280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:24 +0000
Subject: [PATCH 074/165] fix: LocalPathName::match does not return the
 directory and its parent

---
 src/eckit/filesystem/LocalPathName.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eckit/filesystem/LocalPathName.cc b/src/eckit/filesystem/LocalPathName.cc
index 361cdd4..fd472c6 100644
--- a/src/eckit/filesystem/LocalPathName.cc
+++ b/src/eckit/filesystem/LocalPathName.cc
@@ -634,6 +634,10 @@ void LocalPathName::match(const LocalPathName& root, std::vector<LocalPathName>&
 
         //        Log::info() << "e->d_name = " << e->d_name << std::endl;
 
+        if (::strcmp(e->d_name, ".") == 0 || ::strcmp(e->d_name, "..") == 0) {
+            continue;
+        }
+
         if (re.match(e->d_name)) {
             //            Log::info() << "match !!! ---> " << e->d_name << std::endl;
             LocalPathName path = std::string(dir) + std::string("/") + std::string(e->d_name);
-- 
2.43.0


From d2e2a008ae7b1637793e5c83ccef54f6aaa3ab40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:24 +0000
Subject: [PATCH 075/165] fix: SparseMatrix iterators skip rows without entries

---
 src/eckit/linalg/SparseMatrix.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eckit/linalg/SparseMatrix.cc b/src/eckit/linalg/SparseMatrix.cc
index 2dd6b52..5f834f9 100644
--- a/src/eckit/linalg/SparseMatrix.cc
+++ b/src/eckit/linalg/SparseMatrix.cc
@@ -517,7 +517,7 @@ bool SparseMatrix::const_iterator::operator==(const SparseMatrix::const_iterator
 
 SparseMatrix::const_iterator::const_iterator(const SparseMatrix& matrix) :
     matrix_(const_cast<SparseMatrix*>(&matrix)), index_(0) {
-    for (row_ = 0; matrix_->spm_.outer_[row_ + 1] == 0;) {
+    for (row_ = 0; row_ < matrix_->rows() && matrix_->spm_.outer_[row_ + 1] == 0;) {
         ++row_;
     }
 }
@@ -544,10 +544,10 @@ Size SparseMatrix::const_iterator::row() const {
 
 
 SparseMatrix::const_iterator& SparseMatrix::const_iterator::operator++() {
-    if (lastOfRow()) {
+    index_++;
+    while (row_ < matrix_->rows() && index_ >= static_cast<Size>(matrix_->outer()[row_ + 1])) {
         row_++;
     }
-    index_++;
     return *this;
 }
 
-- 
2.43.0


From 54e8f5ea59e5557a42f5b4caba5d9e6c2abc633c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:24 +0000
Subject: [PATCH 076/165] fix: SparseMatrix::prune does not modify a buffer it
 does not own

---
 src/eckit/linalg/SparseMatrix.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/eckit/linalg/SparseMatrix.cc b/src/eckit/linalg/SparseMatrix.cc
index 5f834f9..dbd71cf 100644
--- a/src/eckit/linalg/SparseMatrix.cc
+++ b/src/eckit/linalg/SparseMatrix.cc
@@ -401,12 +401,13 @@ SparseMatrix SparseMatrix::rowReduction(const std::vector<size_t>& p) const {
 SparseMatrix& SparseMatrix::prune(Scalar val) {
     std::vector<Scalar> v;
     std::vector<Index> inner;
+    std::vector<UIndex> outer;  // not in place, the buffer may be shared or read-only
+    outer.reserve(shape_.outerSize());
 
     Size nnz = 0;
     for (Size r = 0; r < shape_.rows_; ++r) {
-        const auto start = spm_.outer_[r];
-        spm_.outer_[r]   = static_cast<UIndex>(nnz);
-        for (auto c = start; c < spm_.outer_[r + 1]; ++c) {
+        outer.push_back(static_cast<UIndex>(nnz));
+        for (auto c = spm_.outer_[r]; c < spm_.outer_[r + 1]; ++c) {
             if (spm_.data_[c] != val) {
                 v.push_back(spm_.data_[c]);
                 inner.push_back(spm_.inner_[c]);
@@ -414,13 +415,13 @@ SparseMatrix& SparseMatrix::prune(Scalar val) {
             }
         }
     }
-    spm_.outer_[shape_.rows_] = static_cast<UIndex>(nnz);
+    outer.push_back(static_cast<UIndex>(nnz));
 
     SparseMatrix tmp;
     tmp.reserve(shape_.rows_, shape_.cols_, nnz);
 
     std::memcpy(tmp.spm_.data_, v.data(), nnz * sizeof(Scalar));
-    std::memcpy(tmp.spm_.outer_, spm_.outer_, shape_.outerSize() * sizeof(UIndex));
+    std::memcpy(tmp.spm_.outer_, outer.data(), shape_.outerSize() * sizeof(UIndex));
     std::memcpy(tmp.spm_.inner_, inner.data(), nnz * sizeof(Index));
 
     swap(tmp);
-- 
2.43.0


From 1f62614abb4a4ed924b776d91072914728a8dbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:24 +0000
Subject: [PATCH 077/165] fix: CacheManager counts the first file in the size
 of the cache

---
 src/eckit/container/CacheManager.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/eckit/container/CacheManager.cc b/src/eckit/container/CacheManager.cc
index 1d35539..10e3695 100644
--- a/src/eckit/container/CacheManager.cc
+++ b/src/eckit/container/CacheManager.cc
@@ -97,10 +97,9 @@ void CacheManagerBase::rescanCache(const PathName& base) const {
             entry.last_  = ::time(nullptr);
             btree.set(key, entry);
 
-            if (btree.get(total_key, total_entry)) {
-                total_entry.size_ += entry.size_;
-                total_entry.count_++;
-            }
+            btree.get(total_key, total_entry);
+            total_entry.size_ += entry.size_;
+            total_entry.count_++;
             btree.set(total_key, total_entry);
         }
     }
@@ -156,10 +155,9 @@ void CacheManagerBase::touch(const PathName& base, const PathName& path) const {
 
             entry.size_ = size_t(path.size());
 
-            if (btree.get(total_key, total_entry)) {
-                total_entry.size_ += entry.size_;
-                total_entry.count_++;
-            }
+            btree.get(total_key, total_entry);
+            total_entry.size_ += entry.size_;
+            total_entry.count_++;
             btree.set(total_key, total_entry);
 
             {
-- 
2.43.0


From 83a40d4d147b6c849c426be09982fe244fea32e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:24 +0000
Subject: [PATCH 078/165] fix: CacheManager accounts for files created again
 after a cleanup

---
 src/eckit/container/CacheManager.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/container/CacheManager.cc b/src/eckit/container/CacheManager.cc
index 10e3695..0a3279d 100644
--- a/src/eckit/container/CacheManager.cc
+++ b/src/eckit/container/CacheManager.cc
@@ -91,7 +91,7 @@ void CacheManagerBase::rescanCache(const PathName& base) const {
         cache_key_t total_key(".total");
         cache_entry_t total_entry = {0, 0, 0};
 
-        if (!btree.get(key, entry)) {
+        if (!btree.get(key, entry) || entry.last_ == 0) {  // missing, or cleared by a cleanup
             entry.size_  = size_t(file.size());
             entry.count_ = 1;
             entry.last_  = ::time(nullptr);
@@ -140,7 +140,7 @@ void CacheManagerBase::touch(const PathName& base, const PathName& path) const {
         cache_key_t key(md5.digest());
         cache_entry_t entry = {0, 0, 0};
 
-        if (!btree.get(key, entry)) {  // entry not in cache-manager.btree
+        if (!btree.get(key, entry) || entry.last_ == 0) {  // entry not in cache-manager.btree, or cleared by a cleanup
 
             FileLock lock(mapping);
             AutoLock<FileLock> locker(lock);
-- 
2.43.0


From 279d7b6c59c855c46f6734672046de8dcd0a1d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:24 +0000
Subject: [PATCH 079/165] fix: CacheManager orders entries strictly by last
 access

---
 src/eckit/container/CacheManager.cc | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/eckit/container/CacheManager.cc b/src/eckit/container/CacheManager.cc
index 0a3279d..dbf8909 100644
--- a/src/eckit/container/CacheManager.cc
+++ b/src/eckit/container/CacheManager.cc
@@ -36,11 +36,6 @@ std::string CacheManagerBase::loader() const {
 
 template <class T>
 static bool compare(const T& a, const T& b) {
-
-    if (a.second.last_ == 0) {
-        return false;
-    }
-
     return a.second.last_ < b.second.last_;
 }
 
-- 
2.43.0


From 1087630114e63c33c30162884c9b411fa0cc3dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:24 +0000
Subject: [PATCH 080/165] fix: CacheManager keeps an index for each of its
 roots

---
 src/eckit/container/CacheManager.cc | 18 ++++++++++--------
 src/eckit/container/CacheManager.h  |  5 ++++-
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/eckit/container/CacheManager.cc b/src/eckit/container/CacheManager.cc
index dbf8909..ea596b4 100644
--- a/src/eckit/container/CacheManager.cc
+++ b/src/eckit/container/CacheManager.cc
@@ -51,13 +51,19 @@ static bool sub_path_of(const PathName& base, const PathName& path) {
     return f == 0;
 }
 
-void CacheManagerBase::rescanCache(const PathName& base) const {
-    ASSERT(btree_);
+CacheManagerBase::cache_btree_t& CacheManagerBase::btree(const PathName& base) const {
+    auto& btree = btrees_[base.asString()];
+    if (!btree) {
+        btree.reset(new cache_btree_t(base / "cache-manager.btree"));
+    }
+    return *btree;
+}
 
+void CacheManagerBase::rescanCache(const PathName& base) const {
     PathName db(base / "cache-manager.btree");
     PathName mapping(base / "cache-manager.mapping");  // already under lock from callee
 
-    cache_btree_t& btree = *btree_;
+    cache_btree_t& btree = this->btree(base);
 
     Log::info() << "CACHE-MANAGER cleanup " << db << ", rebuilding index" << std::endl;
 
@@ -124,11 +130,7 @@ void CacheManagerBase::touch(const PathName& base, const PathName& path) const {
 
     try {
 
-        if (!btree_) {
-            btree_.reset(new cache_btree_t(db));
-        }
-
-        cache_btree_t& btree = *btree_;
+        cache_btree_t& btree = this->btree(base);
 
         MD5 md5(path);
 
diff --git a/src/eckit/container/CacheManager.h b/src/eckit/container/CacheManager.h
index 079691c..9d92562 100644
--- a/src/eckit/container/CacheManager.h
+++ b/src/eckit/container/CacheManager.h
@@ -17,6 +17,7 @@
 
 #include <sys/stat.h>
 
+#include <map>
 #include <memory>
 #include <string>
 
@@ -82,7 +83,9 @@ private:
 
     using cache_btree_t = BTree<cache_key_t, cache_entry_t, 64 * 1024, BTreeLock>;
 
-    mutable std::unique_ptr<cache_btree_t> btree_;
+    mutable std::map<std::string, std::unique_ptr<cache_btree_t>> btrees_;  ///< one per base directory
+
+    cache_btree_t& btree(const PathName& base) const;
 };
 
 
-- 
2.43.0


From f1c97502cd3ad0af38305add3629c25c7648c773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:00 +0000
Subject: [PATCH 081/165] fix: BoundingBox::contains(BoundingBox) checks the
 longitudes and latitudes of the whole box

---
 src/eckit/geo/area/BoundingBox.cc | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/eckit/geo/area/BoundingBox.cc b/src/eckit/geo/area/BoundingBox.cc
index 09d4ad0..87f453c 100644
--- a/src/eckit/geo/area/BoundingBox.cc
+++ b/src/eckit/geo/area/BoundingBox.cc
@@ -499,18 +499,20 @@ const BoundingBox& BoundingBox::bounding_box_default() {
 
 
 bool BoundingBox::contains(const BoundingBox& other) const {
-    if (other.empty()) {
-        return contains(PointLonLat{other.south(), other.west()});
-    }
-
-    // check for West/East range (if non-periodic), then other's corners
-    if (east() - west() < other.east() - other.west() ||
-        east() < PointLonLat::normalise_angle_to_minimum(other.east(), west())) {
-        return false;
+    // check for West/East range (if non-periodic, and unless other is at a pole), then other's corners
+    const bool pole = is_approximately_equal(other.north(), SOUTH_POLE.lat()) ||
+                      is_approximately_equal(other.south(), NORTH_POLE.lat());
+
+    if (!pole && !periodic()) {
+        const auto e =
+            PointLonLat::normalise_angle_to_minimum(other.west(), west()) + (other.east() - other.west());
+        if (east() < e && !is_approximately_equal(east(), e)) {
+            return false;
+        }
     }
 
-    return contains(PointLonLat{other.north(), other.west()}) && contains(PointLonLat{other.north(), other.east()}) &&
-           contains(PointLonLat{other.south(), other.west()}) && contains(PointLonLat{other.south(), other.east()});
+    return contains(PointLonLat{other.west(), other.north()}) && contains(PointLonLat{other.east(), other.north()}) &&
+           contains(PointLonLat{other.west(), other.south()}) && contains(PointLonLat{other.east(), other.south()});
 }
 
 
-- 
2.43.0


From 72852311b4b07506577b309d9f26bcc9bfe2e8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:00 +0000
Subject: [PATCH 082/165] fix: points_equal for points on each side of the
 Greenwich meridian

---
 src/eckit/geo/PointLonLat.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eckit/geo/PointLonLat.cc b/src/eckit/geo/PointLonLat.cc
index 4bbe526..18e3950 100644
--- a/src/eckit/geo/PointLonLat.cc
+++ b/src/eckit/geo/PointLonLat.cc
@@ -117,7 +117,9 @@ PointLonLat PointLonLat::componentsMax(const PointLonLat& p, const PointLonLat&
 bool points_equal(const PointLonLat& a, const PointLonLat& b, PointLonLat::value_type eps) {
     const auto c = PointLonLat::make(a.lon(), a.lat(), 0., eps);
     const auto d = PointLonLat::make(b.lon(), b.lat(), 0., eps);
-    return types::is_approximately_equal(c.lon(), d.lon(), eps) && types::is_approximately_equal(c.lat(), d.lat(), eps);
+    // compare longitudes on the circle (points can be on each side of the normalisation minimum)
+    const auto lon = PointLonLat::normalise_angle_to_minimum(d.lon(), c.lon() - PointLonLat::FLAT_ANGLE);
+    return types::is_approximately_equal(c.lon(), lon, eps) && types::is_approximately_equal(c.lat(), d.lat(), eps);
 }
 
 
-- 
2.43.0


From 530c904386c1dd2ef438607a59716996753c6912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:00 +0000
Subject: [PATCH 083/165] fix: area between parallels and meridians of an
 oblate spheroid

---
 src/eckit/geo/figure/OblateSpheroid.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/geo/figure/OblateSpheroid.cc b/src/eckit/geo/figure/OblateSpheroid.cc
index 0958ab4..f78a326 100644
--- a/src/eckit/geo/figure/OblateSpheroid.cc
+++ b/src/eckit/geo/figure/OblateSpheroid.cc
@@ -86,7 +86,7 @@ double OblateSpheroid::_area(double a, double b, const area::BoundingBox& bbox)
     const auto dlam = util::DEGREE_TO_RADIAN * (bbox.east() - bbox.west());
 
     const auto e = eccentricity(a, b);
-    const auto A = dlam * a * b * (f(phi2, e) - f(phi1, e));
+    const auto A = dlam * 0.5 * b * b * (f(phi2, e) - f(phi1, e));
 
     return A;
 }
-- 
2.43.0


From d3c30236cafd76835b28c82be582c3f99401632e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:00 +0000
Subject: [PATCH 084/165] fix: AlbersEqualArea cone constant is the mean of the
 sines of the standard parallels

---
 src/eckit/geo/projection/AlbersEqualArea.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/geo/projection/AlbersEqualArea.cc b/src/eckit/geo/projection/AlbersEqualArea.cc
index d9bba21..a42de90 100644
--- a/src/eckit/geo/projection/AlbersEqualArea.cc
+++ b/src/eckit/geo/projection/AlbersEqualArea.cc
@@ -36,7 +36,7 @@ static inline double calculate_C(double lat_1, double n) {
 
 
 static inline double calculate_n(double lat_1, double lat_2) {
-    if (auto n = 0.5 * (std::sin(lat_1 * util::DEGREE_TO_RADIAN) / std::sin(lat_2 * util::DEGREE_TO_RADIAN));
+    if (auto n = 0.5 * (std::sin(lat_1 * util::DEGREE_TO_RADIAN) + std::sin(lat_2 * util::DEGREE_TO_RADIAN));
         !types::is_approximately_equal(n, 0.)) {
         return n;
     }
-- 
2.43.0


From 2312700ac4603cb5d5f9145b1ad4edd26f53fcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:00 +0000
Subject: [PATCH 085/165] fix: AlbersEqualArea longitudes are relative to the
 central meridian

---
 src/eckit/geo/projection/AlbersEqualArea.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/geo/projection/AlbersEqualArea.cc b/src/eckit/geo/projection/AlbersEqualArea.cc
index a42de90..61f69e2 100644
--- a/src/eckit/geo/projection/AlbersEqualArea.cc
+++ b/src/eckit/geo/projection/AlbersEqualArea.cc
@@ -68,7 +68,7 @@ AlbersEqualArea::AlbersEqualArea(double lon_0, double lat_0, double lat_1, doubl
 
 
 PointXY AlbersEqualArea::fwd(const PointLonLat& p) const {
-    auto pr     = PointLonLatR::make_from_lonlat(p.lon(), p.lat());
+    auto pr     = PointLonLatR::make_from_lonlat(p.lon(), p.lat(), centre_r_.lonr() - PointLonLatR::FLAT_ANGLE);
     auto rho    = calculate_rho(R_, n_, C_, pr.latr());
     auto thetar = n_ * (pr.lonr() - centre_r_.lonr());
 
-- 
2.43.0


From 7ebd2e37addbb20a557b340077294778aab06c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:00 +0000
Subject: [PATCH 086/165] fix: LambertConformalConic longitudes are relative to
 the central meridian

---
 src/eckit/geo/projection/LambertConformalConic.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eckit/geo/projection/LambertConformalConic.cc b/src/eckit/geo/projection/LambertConformalConic.cc
index 7a20b37..939a1cd 100644
--- a/src/eckit/geo/projection/LambertConformalConic.cc
+++ b/src/eckit/geo/projection/LambertConformalConic.cc
@@ -61,7 +61,8 @@ LambertConformalConic::LambertConformalConic(double lat_1, double lon_0, double
 
 
 PointXY LambertConformalConic::fwd(const PointLonLat& p) const {
-    auto q = PointLonLatR::make_from_lonlat(p.lon(), p.lat());
+    auto q = PointLonLatR::make_from_lonlat(p.lon(), p.lat(),
+                                            lon_0_ * util::DEGREE_TO_RADIAN - PointLonLatR::FLAT_ANGLE);
 
     auto rho  = figure().R() * f_ * std::pow(std::tan(M_PI_4 + q.latr() / 2.), -n_);
     auto rho0 = figure().R() * rho0_bare_;  // scaled
-- 
2.43.0


From eb95ed1117ad90dbfa2ee48183246bf9e2d7c483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:00 +0000
Subject: [PATCH 087/165] fix: Mercator inverse for an oblate figure

---
 src/eckit/geo/projection/Mercator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/geo/projection/Mercator.cc b/src/eckit/geo/projection/Mercator.cc
index 2d1aeb1..96bedae 100644
--- a/src/eckit/geo/projection/Mercator.cc
+++ b/src/eckit/geo/projection/Mercator.cc
@@ -74,7 +74,7 @@ double Mercator::calculate_phi(double t) const {
 
     for (size_t i = 0; i <= max_iter_; i++) {
         auto es   = e_ * std::sin(phi);
-        auto dphi = M_PI_2 - 2 * std::atan(t * (std::pow(((1. - es * es) / (1. + es * es)), 0.5 * e_))) - phi;
+        auto dphi = M_PI_2 - 2 * std::atan(t * (std::pow(((1. - es) / (1. + es)), 0.5 * e_))) - phi;
 
         phi += dphi;
         if (types::is_approximately_equal(dphi, 0., eps_)) {
-- 
2.43.0


From dc5cc22c5a2af24cdf59deaeb53329fd224082b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:00 +0000
Subject: [PATCH 088/165] fix: PolarStereographic forward is the inverse of its
 inverse

---
 src/eckit/geo/projection/PolarStereographic.cc | 6 +++---
 src/eckit/geo/projection/PolarStereographic.h  | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/eckit/geo/projection/PolarStereographic.cc b/src/eckit/geo/projection/PolarStereographic.cc
index 31da005..759c7dd 100644
--- a/src/eckit/geo/projection/PolarStereographic.cc
+++ b/src/eckit/geo/projection/PolarStereographic.cc
@@ -38,8 +38,8 @@ PolarStereographic::PolarStereographic(PointLonLat centre, PointLonLat first, Fi
            ? 0.5
            : std::tan(0.5 * (M_PI_2 - sign_ * centre_r_.latr())) / std::cos(sign_ * centre_r_.latr())) {
     auto z = fwd(first_);
-    x0_    = z.X();
-    y0_    = z.Y();
+    x0_    = -z.X();
+    y0_    = -z.Y();
 }
 
 
@@ -50,7 +50,7 @@ PointXY PolarStereographic::fwd(const PointLonLat& q) const {
     auto tsf    = std::tan(0.5 * (M_PI_2 - sign_ * p.latr()));
     auto height = figure().R() * tsf / F_;
 
-    return {-sign_ * height * std::sin(a), sign_ * height * std::cos(a)};
+    return {x0_ + sign_ * height * std::sin(a), y0_ - sign_ * height * std::cos(a)};
 }
 
 
diff --git a/src/eckit/geo/projection/PolarStereographic.h b/src/eckit/geo/projection/PolarStereographic.h
index 051c0b1..f57c2e9 100644
--- a/src/eckit/geo/projection/PolarStereographic.h
+++ b/src/eckit/geo/projection/PolarStereographic.h
@@ -56,8 +56,8 @@ private:
 
     const double sign_;
     const double F_;
-    double x0_;
-    double y0_;
+    double x0_ = 0.;
+    double y0_ = 0.;
 };
 
 
-- 
2.43.0


From 8741d39cb38ad9528735d754f657e0c2d9c17bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:00 +0000
Subject: [PATCH 089/165] fix: LambertAzimuthalEqualArea projects the point
 given

---
 .../geo/projection/LambertAzimuthalEqualArea.cc    | 14 ++++++++------
 .../geo/projection/LambertAzimuthalEqualArea.h     |  2 --
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/eckit/geo/projection/LambertAzimuthalEqualArea.cc b/src/eckit/geo/projection/LambertAzimuthalEqualArea.cc
index 09925be..6afb643 100644
--- a/src/eckit/geo/projection/LambertAzimuthalEqualArea.cc
+++ b/src/eckit/geo/projection/LambertAzimuthalEqualArea.cc
@@ -36,16 +36,18 @@ LambertAzimuthalEqualArea::LambertAzimuthalEqualArea(PointLonLat centre, PointLo
     centre_r_(PointLonLatR::make_from_lonlat(centre.lon(), centre.lat())),
     first_(first),
     first_r_(PointLonLatR::make_from_lonlat(first.lon(), first.lat())),
-    phi0_(centre_r_.latr()),
-    phi_(first_r_.latr()),
-    dlam_(first_r_.lonr() - centre_r_.lonr()) {}
+    phi0_(centre_r_.latr()) {}
 
 
 PointXY LambertAzimuthalEqualArea::fwd(const PointLonLat& p) const {
-    const auto kp = figure().R() * std::sqrt(2. / (1. + phi0_.sin * phi_.sin + phi0_.cos * phi_.cos * dlam_.cos));
+    const auto q = PointLonLatR::make_from_lonlat(p.lon(), p.lat());
+    const util::sincos_t phi(q.latr());
+    const util::sincos_t dlam(q.lonr() - centre_r_.lonr());
 
-    auto x = kp * phi_.cos * dlam_.sin;
-    auto y = kp * (phi0_.cos * phi_.sin - phi0_.sin * phi_.cos * dlam_.cos);
+    const auto kp = figure().R() * std::sqrt(2. / (1. + phi0_.sin * phi.sin + phi0_.cos * phi.cos * dlam.cos));
+
+    auto x = kp * phi.cos * dlam.sin;
+    auto y = kp * (phi0_.cos * phi.sin - phi0_.sin * phi.cos * dlam.cos);
 
     return {x, y};
 }
diff --git a/src/eckit/geo/projection/LambertAzimuthalEqualArea.h b/src/eckit/geo/projection/LambertAzimuthalEqualArea.h
index 1ad4ada..8f52048 100644
--- a/src/eckit/geo/projection/LambertAzimuthalEqualArea.h
+++ b/src/eckit/geo/projection/LambertAzimuthalEqualArea.h
@@ -56,8 +56,6 @@ private:
     const PointLonLatR first_r_;  // first point [radian]
 
     const util::sincos_t phi0_;
-    const util::sincos_t phi_;
-    const util::sincos_t dlam_;
 };
 
 
-- 
2.43.0


From 55116a3e1e84c64980328c5fd07f249f72297e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:00 +0000
Subject: [PATCH 090/165] fix: LambertAzimuthalEqualArea inverse of the centre

---
 src/eckit/geo/projection/LambertAzimuthalEqualArea.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eckit/geo/projection/LambertAzimuthalEqualArea.cc b/src/eckit/geo/projection/LambertAzimuthalEqualArea.cc
index 6afb643..7547d52 100644
--- a/src/eckit/geo/projection/LambertAzimuthalEqualArea.cc
+++ b/src/eckit/geo/projection/LambertAzimuthalEqualArea.cc
@@ -16,6 +16,7 @@
 
 #include "eckit/geo/Figure.h"
 #include "eckit/spec/Custom.h"
+#include "eckit/types/FloatCompare.h"
 
 
 namespace eckit::geo::projection {
@@ -55,6 +56,10 @@ PointXY LambertAzimuthalEqualArea::fwd(const PointLonLat& p) const {
 
 PointLonLat LambertAzimuthalEqualArea::inv(const PointXY& p) const {
     auto rho = std::sqrt(p.X() * p.X() + p.Y() * p.Y());
+    if (types::is_approximately_equal(rho, 0.)) {
+        return PointLonLat::make(centre_.lon(), centre_.lat(), centre_.lon() - PointLonLat::FLAT_ANGLE);
+    }
+
     const util::sincos_t c(2. * std::asin(rho / (2. * figure().R())));
 
     return PointLonLat::make_from_lonlatr(
-- 
2.43.0


From 5bf3aa316e71e84b379eebf2696ee48ad1c39f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:00 +0000
Subject: [PATCH 091/165] fix: LambertAzimuthalEqualArea can be made from its
 specification

---
 src/eckit/geo/projection/LambertAzimuthalEqualArea.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eckit/geo/projection/LambertAzimuthalEqualArea.cc b/src/eckit/geo/projection/LambertAzimuthalEqualArea.cc
index 7547d52..0162f3d 100644
--- a/src/eckit/geo/projection/LambertAzimuthalEqualArea.cc
+++ b/src/eckit/geo/projection/LambertAzimuthalEqualArea.cc
@@ -27,8 +27,8 @@ static ProjectionRegisterType<LambertAzimuthalEqualArea> PROJECTION_2("lambert_a
 
 
 LambertAzimuthalEqualArea::LambertAzimuthalEqualArea(const Spec& spec) :
-    LambertAzimuthalEqualArea(PointLonLat::make_from_spec(spec, "centre"), PointLonLat::make_from_spec(spec, "first")) {
-}
+    LambertAzimuthalEqualArea(PointLonLat::make_from_spec(spec, "centre"), PointLonLat::make_from_spec(spec, "first"),
+                              FigureFactory::build(spec)) {}
 
 
 LambertAzimuthalEqualArea::LambertAzimuthalEqualArea(PointLonLat centre, PointLonLat first, Figure* figure_ptr) :
@@ -78,8 +78,8 @@ void LambertAzimuthalEqualArea::fill_spec(spec::Custom& custom) const {
     Projection::fill_spec(custom);
 
     custom.set("type", type());
-    custom.set("centre_lonlat", std::vector<double>{centre_.lon(), centre_.lat()});
-    custom.set("first_lonlat", std::vector<double>{first_.lon(), first_.lat()});
+    custom.set("centre", std::vector<double>{centre_.lon(), centre_.lat()});
+    custom.set("first", std::vector<double>{first_.lon(), first_.lat()});
 }
 
 
-- 
2.43.0


From e7d707d51eaab9f7a4cde650ae0b736a9791b275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:41 +0000
Subject: [PATCH 092/165] fix: URI host ends at the query or fragment

---
 src/eckit/filesystem/URI.cc | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/eckit/filesystem/URI.cc b/src/eckit/filesystem/URI.cc
index 80c92fa..c48c8fc 100644
--- a/src/eckit/filesystem/URI.cc
+++ b/src/eckit/filesystem/URI.cc
@@ -151,13 +151,9 @@ void URI::parse(const std::string& str, size_t first, bool authority, bool query
                 first = i;
             }
             else {
-                port_               = -1;
-                std::size_t hostEnd = str.find("/", first);
-                if (hostEnd == std::string::npos) {
-                    hostEnd = last;
-                }
-                host_ = str.substr(first, hostEnd - first);
-                first = hostEnd;
+                port_ = -1;
+                host_ = str.substr(first, authorityEnd - first);
+                first = authorityEnd;
             }
         }
     }
-- 
2.43.0


From 394529ea437586ea17c3d0e17d016932ce106e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:41 +0000
Subject: [PATCH 093/165] fix: LocalPathName::unique after fork does not give
 the names of the parent process

---
 src/eckit/filesystem/LocalPathName.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/eckit/filesystem/LocalPathName.cc b/src/eckit/filesystem/LocalPathName.cc
index fd472c6..ec72d3d 100644
--- a/src/eckit/filesystem/LocalPathName.cc
+++ b/src/eckit/filesystem/LocalPathName.cc
@@ -306,7 +306,13 @@ LocalPathName LocalPathName::unique(const LocalPathName& path) {
 
     std::string hostname = Main::hostname();
 
-    static unsigned long long n = (((unsigned long long)::getpid()) << 32);
+    static unsigned long long n = 0;
+    static pid_t pid            = 0;
+
+    if (pid != ::getpid()) {  // also after fork(), the names are not those of the parent process
+        pid = ::getpid();
+        n   = ((unsigned long long)pid) << 32;
+    }
 
     static std::string format = "%Y%m%d.%H%M%S";
     std::ostringstream os;
-- 
2.43.0


From 47eb89a72e07cba571976f7b321d9bb573a22b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:41 +0000
Subject: [PATCH 094/165] fix: Rotation with the South pole in place accounts
 for its longitude

---
 src/eckit/geo/projection/Rotation.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/geo/projection/Rotation.cc b/src/eckit/geo/projection/Rotation.cc
index 983cb42..98a61e0 100644
--- a/src/eckit/geo/projection/Rotation.cc
+++ b/src/eckit/geo/projection/Rotation.cc
@@ -84,8 +84,8 @@ Rotation::Rotation(const PointLonLat& south_pole, double angle) :
         angle_   = PointLonLat::normalise_angle_to_minimum(angle_ - south_pole_.lon(), -PointLonLat::FLAT_ANGLE);
         rotated_ = !types::is_approximately_equal(angle_, 0., PointLonLat::EPS);
 
-        fwd_.reset(rotated_ ? static_cast<Implementation*>(new RotationAngle(-angle)) : new NonRotated);
-        inv_.reset(rotated_ ? static_cast<Implementation*>(new RotationAngle(angle)) : new NonRotated);
+        fwd_.reset(rotated_ ? static_cast<Implementation*>(new RotationAngle(-angle_)) : new NonRotated);
+        inv_.reset(rotated_ ? static_cast<Implementation*>(new RotationAngle(angle_)) : new NonRotated);
         return;
     }
 
-- 
2.43.0


From 378cfa077af2e5ba4a111b1e307fab74a0a3c1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:39 +0000
Subject: [PATCH 095/165] fix: AlbersEqualArea inverse with standard parallels
 in the southern hemisphere

---
 src/eckit/geo/projection/AlbersEqualArea.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/geo/projection/AlbersEqualArea.cc b/src/eckit/geo/projection/AlbersEqualArea.cc
index 61f69e2..1731cb1 100644
--- a/src/eckit/geo/projection/AlbersEqualArea.cc
+++ b/src/eckit/geo/projection/AlbersEqualArea.cc
@@ -80,7 +80,7 @@ PointLonLat AlbersEqualArea::inv(const PointXY& p) const {
     auto q = p - falseXY();
 
     auto rho    = std::sqrt(q.X() * q.X() + (rho0_ - q.Y()) * (rho0_ - q.Y()));
-    auto thetar = std::atan2(q.X(), rho0_ - q.Y());
+    auto thetar = n_ < 0. ? std::atan2(-q.X(), q.Y() - rho0_) : std::atan2(q.X(), rho0_ - q.Y());
 
     return PointLonLat::make_from_lonlatr(centre_r_.lonr() + thetar / n_,
                                           std::asin((C_ - (rho * rho * n_ * n_) / (R_ * R_)) / (2. * n_)),
-- 
2.43.0


From 2ceb537c4497aa29566117d03cff3768078d6330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:39 +0000
Subject: [PATCH 096/165] fix: bounding box of a projection across the
 antimeridian

---
 src/eckit/geo/area/BoundingBox.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eckit/geo/area/BoundingBox.cc b/src/eckit/geo/area/BoundingBox.cc
index 87f453c..9fe9e32 100644
--- a/src/eckit/geo/area/BoundingBox.cc
+++ b/src/eckit/geo/area/BoundingBox.cc
@@ -287,7 +287,8 @@ private:
                 }
 
                 // update extrema, extended by 'a small amount' (arbitrary)
-                bounds.extend(std::get<PointLonLat>(projection.inv(PointXY::middle(A, B))), H);
+                bounds.extend(
+                    longitude_in_range(centre_lon, std::get<PointLonLat>(projection.inv(PointXY::middle(A, B)))), H);
             }
         }
     }
@@ -324,7 +325,8 @@ private:
                 }
 
                 // update extrema, extended by 'a small amount' (arbitrary)
-                bounds.extend(std::get<PointLonLat>(projection.inv(PointXY::middle(A, B))), H);
+                bounds.extend(
+                    longitude_in_range(centre_lon, std::get<PointLonLat>(projection.inv(PointXY::middle(A, B)))), H);
             }
         }
     }
-- 
2.43.0


From 8297cf4b03fc23c710494d36c7dd4a38307d29bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:10 +0000
Subject: [PATCH 097/165] fix: LocalPathName::touch of a file that another
 process removes

---
 src/eckit/filesystem/LocalPathName.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/eckit/filesystem/LocalPathName.cc b/src/eckit/filesystem/LocalPathName.cc
index ec72d3d..4f3bb95 100644
--- a/src/eckit/filesystem/LocalPathName.cc
+++ b/src/eckit/filesystem/LocalPathName.cc
@@ -766,10 +766,11 @@ void LocalPathName::children(std::vector<LocalPathName>& files, std::vector<Loca
 void LocalPathName::touch() const {
     dirName().mkdir();
 
-    if (exists()) {
-        SYSCALL(::utime(path_.c_str(), nullptr));  // set to current time
-    }
-    else {
+    if (::utime(path_.c_str(), nullptr) < 0) {  // set to current time
+        if (errno != ENOENT) {
+            throw FailedSystemCall("utime " + path_, Here());
+        }
+
         AutoStdFile f(*this, "a");  // this creates the file, ther may be a race but is unimportant in this context
     }
 }
-- 
2.43.0


From b728db5ea30c1b668ef0dd92792b560bd363f6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:14 +0000
Subject: [PATCH 098/165] fix: first and last point of a reduced grid with
 empty rows, or in nested order

---
 src/eckit/geo/grid/Reduced.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/eckit/geo/grid/Reduced.cc b/src/eckit/geo/grid/Reduced.cc
index 5df63c7..922c3b4 100644
--- a/src/eckit/geo/grid/Reduced.cc
+++ b/src/eckit/geo/grid/Reduced.cc
@@ -20,17 +20,16 @@ namespace eckit::geo::grid {
 
 Point Reduced::first_point() const {
     ASSERT(!empty());
-    return PointLonLat{longitudes(0).front(), latitudes().front()};
+    return *cbegin();
 }
 
 
 Point Reduced::last_point() const {
     ASSERT(!empty());
 
-    auto j = static_cast<int>(ny()) - 1;
-    ASSERT(0 <= j);
-
-    return PointLonLat{longitudes(j).back(), latitudes().back()};
+    auto it = cbegin();
+    it += static_cast<iterator::difference_type>(size() - 1);
+    return *it;
 }
 
 
-- 
2.43.0


From b4b16dab2aeebd363f930d4d08cd135c282f6fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:14 +0000
Subject: [PATCH 099/165] fix: HEALPix::distinct_latitudes before the latitudes
 are calculated

---
 src/eckit/geo/grid/reduced/HEALPix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/geo/grid/reduced/HEALPix.h b/src/eckit/geo/grid/reduced/HEALPix.h
index 767fd3b..0bb51c3 100644
--- a/src/eckit/geo/grid/reduced/HEALPix.h
+++ b/src/eckit/geo/grid/reduced/HEALPix.h
@@ -54,7 +54,7 @@ public:
 
     [[nodiscard]] const std::vector<double>& latitudes() const override;
     [[nodiscard]] const std::vector<double>& longitudes(size_t j) const override;
-    [[nodiscard]] std::vector<double> distinct_latitudes() const override { return healpix_latitudes_; }
+    [[nodiscard]] std::vector<double> distinct_latitudes() const override { return latitudes(); }
 
     // -- Class members
 
-- 
2.43.0


From cc8a13b096ad47386e6b7d915d67105df96cf5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:14 +0000
Subject: [PATCH 100/165] fix: regular range that contains a single value

---
 src/eckit/geo/range/Regular.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/geo/range/Regular.cc b/src/eckit/geo/range/Regular.cc
index a7a2657..f9a25a5 100644
--- a/src/eckit/geo/range/Regular.cc
+++ b/src/eckit/geo/range/Regular.cc
@@ -123,7 +123,7 @@ Regular::Implementation::Implementation(Fraction inc, Fraction a, Fraction b, Fr
     }
     a_ = shift_ + detail::adjust(a_ - shift_, inc_, true);
     b_ = shift_ + detail::adjust(b_ - shift_, inc_, false);
-    ASSERT((a < b) == (a_ < b_));
+    ASSERT(a < b ? a_ <= b_ : b_ <= a_);
 
     size_ = detail::N(inc_, a_, b_);
     ASSERT(size_ > 0);
-- 
2.43.0


From 1dbec64568d4f9a645bd9bddc9bed35001e83d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:14 +0000
Subject: [PATCH 101/165] fix: periodic range of decreasing longitudes

---
 src/eckit/geo/range/Regular.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/geo/range/Regular.cc b/src/eckit/geo/range/Regular.cc
index f9a25a5..67316e0 100644
--- a/src/eckit/geo/range/Regular.cc
+++ b/src/eckit/geo/range/Regular.cc
@@ -70,7 +70,7 @@ struct RegularLongitude final : Regular::Implementation {
         }
 
         if (Fraction::abs(b_ - a_ + inc_) >= PERIOD) {
-            b_        = a_ + adjust(PERIOD, inc_, a_ < b_) - inc_;
+            b_        = a_ + adjust(a_ < b_ ? PERIOD : -PERIOD, inc_, true) - inc_;
             size_     = N(inc_, a_, b_);
             periodic_ = true;
         }
-- 
2.43.0


From 0e1c18b638c65fe8bf3b51ea2f6cfdfbc020af7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:14 +0000
Subject: [PATCH 102/165] fix: regular Gaussian grid that scans westwards

---
 src/eckit/geo/grid/regular/RegularGaussian.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/geo/grid/regular/RegularGaussian.cc b/src/eckit/geo/grid/regular/RegularGaussian.cc
index c064355..3ffc101 100644
--- a/src/eckit/geo/grid/regular/RegularGaussian.cc
+++ b/src/eckit/geo/grid/regular/RegularGaussian.cc
@@ -45,8 +45,8 @@ RegularGaussian::RegularGaussian(size_t N, BoundingBox bbox, order::Scan s) :
     Regular(s),
     N_(check_N(N)),
     x_(*range::RegularLongitude(
-            (s.is_scan_i_positive() ? 1. : -1.) * PointLonLat::FULL_ANGLE / static_cast<double>(4 * N), 0.,
-            PointLonLat::FULL_ANGLE)
+            (s.is_scan_i_positive() ? 1. : -1.) * PointLonLat::FULL_ANGLE / static_cast<double>(4 * N),
+            s.is_scan_i_positive() ? 0. : PointLonLat::FULL_ANGLE, s.is_scan_i_positive() ? PointLonLat::FULL_ANGLE : 0.)
             .make_cropped_range(s.is_scan_i_positive() ? bbox.west() : bbox.east(),
                                 s.is_scan_i_positive() ? bbox.east() : bbox.west())),
     y_(*range::GaussianLatitude(N, s.is_scan_j_positive())
-- 
2.43.0


From 23bca522ee63202659fefe1a59e580a9e1ff079e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:14 +0000
Subject: [PATCH 103/165] fix: cropping a regular Gaussian grid keeps its order

---
 src/eckit/geo/grid/regular/RegularGaussian.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/geo/grid/regular/RegularGaussian.cc b/src/eckit/geo/grid/regular/RegularGaussian.cc
index 3ffc101..e28a4d2 100644
--- a/src/eckit/geo/grid/regular/RegularGaussian.cc
+++ b/src/eckit/geo/grid/regular/RegularGaussian.cc
@@ -99,7 +99,7 @@ Grid::BoundingBox* RegularGaussian::calculate_bbox() const {
 
 Grid* RegularGaussian::make_grid_cropped(const Area& crop) const {
     if (auto cropped(boundingBox()); crop.intersects(cropped)) {
-        return new RegularGaussian(N_, cropped);
+        return new RegularGaussian(N_, cropped, scan());
     }
 
     throw UserError("RegularGaussian: cannot crop grid (empty intersection)", Here());
-- 
2.43.0


From 9636ff91ef0afdc168ce5872e89c0550e49756a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:14 +0000
Subject: [PATCH 104/165] fix: cropping a regular lat/lon grid

---
 src/eckit/geo/grid/regular/RegularLL.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/geo/grid/regular/RegularLL.cc b/src/eckit/geo/grid/regular/RegularLL.cc
index 1bce51d..05d1ce1 100644
--- a/src/eckit/geo/grid/regular/RegularLL.cc
+++ b/src/eckit/geo/grid/regular/RegularLL.cc
@@ -154,7 +154,7 @@ std::pair<std::vector<double>, std::vector<double>> RegularLL::to_latlons() cons
 
 Grid* RegularLL::make_grid_cropped(const Area& crop) const {
     if (auto cropped(boundingBox()); crop.intersects(cropped)) {
-        return new RegularLL({dlon(), dlat()}, cropped);
+        return new RegularLL({std::abs(dlon()), std::abs(dlat())}, cropped, reference(), scan());
     }
 
     throw UserError("RegularLL: cannot crop grid (empty intersection)", Here());
-- 
2.43.0


From 5f16c3f59447b092eca7a1ec19e6a149604653a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:26 +0000
Subject: [PATCH 105/165] fix: reduced Gaussian grid on an area that some rows
 have no points in

---
 src/eckit/geo/range/Regular.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/eckit/geo/range/Regular.cc b/src/eckit/geo/range/Regular.cc
index 67316e0..e0a30fe 100644
--- a/src/eckit/geo/range/Regular.cc
+++ b/src/eckit/geo/range/Regular.cc
@@ -40,6 +40,13 @@ size_t N(Fraction inc, Fraction a, Fraction b) {
 }
 
 
+bool empty(const Fraction& inc, const Fraction& a, const Fraction& b, const Fraction& ref) {
+    const auto shift = (ref / inc).decimalPart() * inc;
+    const auto first = shift + adjust(a - shift, inc, true);
+    return inc > 0 ? first > b : first < b;
+}
+
+
 struct RegularXY final : Regular::Implementation {
     using Implementation::Implementation;
 };
@@ -78,6 +85,10 @@ struct RegularLongitude final : Regular::Implementation {
 
     Regular* make_cropped_range(double crop_a, double crop_b) const override {
         if (periodic()) {
+            if (empty(inc_, Fraction{crop_a}, Fraction{crop_b}, a_)) {
+                return range::RegularLongitude::make_empty_range(Fraction{crop_a}, Fraction{crop_b});
+            }
+
             return new range::RegularLongitude(inc_, crop_a, crop_b, a_);
         }
 
-- 
2.43.0


From 1d48d17fc02a3c50820781525ada2bc5f5ed28ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:03 +0000
Subject: [PATCH 106/165] fix: the specification of a reduced Gaussian grid
 with its own 'pl' describes it

---
 src/eckit/geo/grid/reduced/ReducedGaussian.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eckit/geo/grid/reduced/ReducedGaussian.cc b/src/eckit/geo/grid/reduced/ReducedGaussian.cc
index 5c486d8..d0f7fea 100644
--- a/src/eckit/geo/grid/reduced/ReducedGaussian.cc
+++ b/src/eckit/geo/grid/reduced/ReducedGaussian.cc
@@ -81,7 +81,7 @@ void ReducedGaussian::fill_spec(spec::Custom& custom) const {
     }
     else {
         custom.set("grid", "N" + std::to_string(N_));
-        if (!util::reduced_classical_pl_known(N_)) {
+        if (!util::reduced_classical_pl_known(N_) || pl_ != util::reduced_classical_pl(N_)) {
             custom.set("pl", pl_);
         }
     }
@@ -112,6 +112,10 @@ struct ReducedGaussianClassical {
         ASSERT(name.size() > 1 && (name[0] == 'n' || name[0] == 'N'));
 
         auto N = std::stoul(name.substr(1));
+        if (!util::reduced_classical_pl_known(N)) {
+            return new spec::Custom({{"type", "reduced_gg"}, {"N", N}});  // 'pl' is part of the specification
+        }
+
         return new spec::Custom({{"type", "reduced_gg"}, {"N", N}, {"pl", util::reduced_classical_pl(N)}});
     }
 };
-- 
2.43.0


From ef0d422c4e083d8c617172eb51b0bbbdd7259d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:03 +0000
Subject: [PATCH 107/165] fix: bounding box of a global grid that scans
 westwards

---
 src/eckit/geo/grid/regular/RegularGaussian.cc | 7 +++++--
 src/eckit/geo/grid/regular/RegularLL.cc       | 9 ++++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/eckit/geo/grid/regular/RegularGaussian.cc b/src/eckit/geo/grid/regular/RegularGaussian.cc
index e28a4d2..9608045 100644
--- a/src/eckit/geo/grid/regular/RegularGaussian.cc
+++ b/src/eckit/geo/grid/regular/RegularGaussian.cc
@@ -90,10 +90,13 @@ Point RegularGaussian::last_point() const {
 
 
 Grid::BoundingBox* RegularGaussian::calculate_bbox() const {
+    const auto east = x_.periodic() ? (x_.a() < x_.b() ? x_.min() + PointLonLat::FULL_ANGLE : x_.max()) : x_.max();
+    const auto west = x_.periodic() ? east - PointLonLat::FULL_ANGLE : x_.min();
+
     return new BoundingBox{y_.includesNorthPole() ? PointLonLat::RIGHT_ANGLE : y_.max(),   //
-                           x_.min(),                                                       //
+                           west,                                                           //
                            y_.includesSouthPole() ? -PointLonLat::RIGHT_ANGLE : y_.min(),  //
-                           x_.periodic() ? x_.min() + PointLonLat::FULL_ANGLE : x_.max()};
+                           east};
 }
 
 
diff --git a/src/eckit/geo/grid/regular/RegularLL.cc b/src/eckit/geo/grid/regular/RegularLL.cc
index 05d1ce1..ab17bd9 100644
--- a/src/eckit/geo/grid/regular/RegularLL.cc
+++ b/src/eckit/geo/grid/regular/RegularLL.cc
@@ -173,7 +173,14 @@ Grid::BoundingBox* RegularLL::calculate_bbox() const {
     auto w = x_.min();
     auto e = x_.max();
 
-    if (x_.periodic()) {
+    if (x_.periodic() && x_.increment() < 0) {
+        // the first (eastmost) point, unless it is the first one in [0, 360]
+        if (types::is_strictly_greater(e + std::abs(dlon()), PointLonLat::FULL_ANGLE) && e <= PointLonLat::FULL_ANGLE) {
+            e = PointLonLat::FULL_ANGLE;
+        }
+        w = e - PointLonLat::FULL_ANGLE;
+    }
+    else if (x_.periodic()) {
         if (const auto ref = reference(); types::is_approximately_equal(ref.lon(), w, PointLonLat::EPS)) {
             w = 0;
         }
-- 
2.43.0


From 491e3f3fbf8b1bf3b5c738c18b279bade944c6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:12 +0000
Subject: [PATCH 108/165] fix: point in polygon when the point is level with a
 vertex

---
 src/eckit/geo/polygon/Polygon.cc            | 7 +++----
 src/eckit/geo/polygon/PolygonXY.cc          | 6 +++---
 src/eckit/geometry/polygon/LonLatPolygon.cc | 7 +++----
 3 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/eckit/geo/polygon/Polygon.cc b/src/eckit/geo/polygon/Polygon.cc
index 6111ec9..fb83c7c 100644
--- a/src/eckit/geo/polygon/Polygon.cc
+++ b/src/eckit/geo/polygon/Polygon.cc
@@ -139,13 +139,13 @@ bool Polygon::contains(const PointLonLat& P) const {
     auto Q = PointLonLat::make(P.lon(), P.lat(), min_lon);
 
     do {
-        int wn   = 0;
-        int prev = 0;
+        int wn = 0;
 
         // loop on polygon edges, check point-edge side and direction, testing if P is on|above|below (in latitude) of a
         // A,B polygon edge, by:
         // - intersecting "up" on forward crossing & P above edge, or
         // - intersecting "down" on backward crossing & P below edge
+        // (edges are without their upper point, so that crossing at a vertex counts once)
         for (int i = 0, n = static_cast<int>(size()); i < n; ++i) {
             const auto& [A, B] = edge(i);
             if (const auto dir = on_direction(A.lat(), Q.lat(), B.lat()); dir != 0) {
@@ -155,8 +155,7 @@ bool Polygon::contains(const PointLonLat& P) const {
                     return true;
                 }
 
-                if ((prev != 1 && dir > 0 && side > 0) || (prev != -1 && dir < 0 && side < 0)) {
-                    prev = dir;
+                if ((dir > 0 && side > 0 && Q.lat() < B.lat()) || (dir < 0 && side < 0 && Q.lat() < A.lat())) {
                     wn += dir;
                 }
             }
diff --git a/src/eckit/geo/polygon/PolygonXY.cc b/src/eckit/geo/polygon/PolygonXY.cc
index 8e891de..40cf997 100644
--- a/src/eckit/geo/polygon/PolygonXY.cc
+++ b/src/eckit/geo/polygon/PolygonXY.cc
@@ -92,8 +92,9 @@ bool PolygonXY::contains(const PointXY& P) const {
     // by:
     // - intersecting "up" on forward crossing & P above edge, or
     // - intersecting "down" on backward crossing & P below edge
+    // (edges are without their upper point, so that crossing at a vertex counts once)
     int wn = 0;
-    for (int i = 0, n = static_cast<int>(size()), prev = 0; i < n; ++i) {
+    for (int i = 0, n = static_cast<int>(size()); i < n; ++i) {
         const auto& [A, B] = edge(i);
         if (const auto dir = on_direction(A.Y(), P.Y(), B.Y()); dir != 0) {
             const auto side = on_side(P, A, B);
@@ -102,8 +103,7 @@ bool PolygonXY::contains(const PointXY& P) const {
                 return true;
             }
 
-            if ((prev != 1 && dir > 0 && side > 0) || (prev != -1 && dir < 0 && side < 0)) {
-                prev = dir;
+            if ((dir > 0 && side > 0 && P.Y() < B.Y()) || (dir < 0 && side < 0 && P.Y() < A.Y())) {
                 wn += dir;
             }
         }
diff --git a/src/eckit/geometry/polygon/LonLatPolygon.cc b/src/eckit/geometry/polygon/LonLatPolygon.cc
index fef6f16..afaf3b7 100644
--- a/src/eckit/geometry/polygon/LonLatPolygon.cc
+++ b/src/eckit/geometry/polygon/LonLatPolygon.cc
@@ -133,8 +133,7 @@ bool LonLatPolygon::contains(const Point2& Plonlat, bool normalise_angle) const
 
     do {
         // winding number
-        int wn   = 0;
-        int prev = 0;
+        int wn = 0;
 
         // loop on polygon edges
         for (size_t i = 1; i < size(); ++i) {
@@ -145,14 +144,14 @@ bool LonLatPolygon::contains(const Point2& Plonlat, bool normalise_angle) const
             // by:
             // - intersecting "up" on forward crossing & P above edge, or
             // - intersecting "down" on backward crossing & P below edge
+            // (edges are without their upper point, so that crossing at a vertex counts once)
             const auto direction = on_direction(A[LAT], lat, B[LAT]);
             if (direction != 0) {
                 const auto side = on_side({lon, lat}, A, B);
                 if (side == 0 && on_direction(A[LON], lon, B[LON]) != 0) {
                     return true;
                 }
-                if ((prev != 1 && direction > 0 && side > 0) || (prev != -1 && direction < 0 && side < 0)) {
-                    prev = direction;
+                if ((direction > 0 && side > 0 && lat < B[LAT]) || (direction < 0 && side < 0 && lat < A[LAT])) {
                     wn += direction;
                 }
             }
-- 
2.43.0


From 60490c0978faf89274a84bcd1e05b731238b21eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:12 +0000
Subject: [PATCH 109/165] fix: BoundingBoxXY contains the points within it

---
 src/eckit/geo/area/BoundingBoxXY.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eckit/geo/area/BoundingBoxXY.cc b/src/eckit/geo/area/BoundingBoxXY.cc
index 0cc2284..4a80a6a 100644
--- a/src/eckit/geo/area/BoundingBoxXY.cc
+++ b/src/eckit/geo/area/BoundingBoxXY.cc
@@ -38,8 +38,10 @@ BoundingBoxXY::BoundingBoxXY(value_type min_x, value_type min_y, value_type max_
 
 bool BoundingBoxXY::contains(const Point& p) const {
     const auto& q = std::get<PointXY>(p);
-    return types::is_approximately_equal(min_x, q.X()) && types::is_approximately_equal(q.X(), max_x) &&
-           types::is_approximately_equal(min_y, q.Y()) && types::is_approximately_equal(q.Y(), max_y);
+    return types::is_approximately_lesser_or_equal(min_x, q.X()) &&
+           types::is_approximately_lesser_or_equal(q.X(), max_x) &&
+           types::is_approximately_lesser_or_equal(min_y, q.Y()) &&
+           types::is_approximately_lesser_or_equal(q.Y(), max_y);
 }
 
 
-- 
2.43.0


From 14fcc8485de17d960e6742338a9ee188be953bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:28 +0000
Subject: [PATCH 110/165] fix: an empty polygon is congruent to empty polygons
 only

---
 src/eckit/geometry/polygon/Polygon.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eckit/geometry/polygon/Polygon.cc b/src/eckit/geometry/polygon/Polygon.cc
index e72a21d..1d32005 100644
--- a/src/eckit/geometry/polygon/Polygon.cc
+++ b/src/eckit/geometry/polygon/Polygon.cc
@@ -19,14 +19,14 @@ namespace eckit::geometry::polygon {
 //----------------------------------------------------------------------------------------------------------------------
 
 bool Polygon::congruent(const Polygon& p) const {
-    if (empty()) {
-        return true;
-    }
-
     if (size() != p.size()) {
         return false;
     }
 
+    if (empty()) {
+        return true;
+    }
+
     int offset = -1;
     for (int i = 0; i < size(); i++) {
         if (at(i) == p.at(0)) {
-- 
2.43.0


From a70ce904d89905c47aef7e52e9b7625014192b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:28 +0000
Subject: [PATCH 111/165] fix: congruence of polygons with repeated points

---
 src/eckit/geo/polygon/Polygon.cc      | 15 ++++++++-------
 src/eckit/geo/polygon/PolygonXY.cc    | 22 ++++++++--------------
 src/eckit/geometry/polygon/Polygon.cc | 23 +++++++++--------------
 3 files changed, 25 insertions(+), 35 deletions(-)

diff --git a/src/eckit/geo/polygon/Polygon.cc b/src/eckit/geo/polygon/Polygon.cc
index fb83c7c..eb062d8 100644
--- a/src/eckit/geo/polygon/Polygon.cc
+++ b/src/eckit/geo/polygon/Polygon.cc
@@ -60,16 +60,17 @@ bool Polygon::operator==(const Polygon& other) const {
             return true;
         }
 
-        auto i = std::distance(begin(), std::min_element(begin(), end()));
-        auto j = std::distance(other.begin(), std::min_element(other.begin(), other.end()));
+        // points can be repeated, so any offset is possible
+        for (int i = 0, n = static_cast<int>(size()); i < n; ++i) {
+            bool same = true;
+            for (int k = 0; same && k < n; ++k) {
+                same = points_equal(operator[]((i + k) % n), other[k]);
+            }
 
-        for (int k = 0, n = static_cast<int>(size()); k < n; ++k) {
-            if (!points_equal(operator[]((i + k) % n), other[(j + k) % n])) {
-                return false;
+            if (same) {
+                return true;
             }
         }
-
-        return true;
     }
     return false;
 }
diff --git a/src/eckit/geo/polygon/PolygonXY.cc b/src/eckit/geo/polygon/PolygonXY.cc
index 40cf997..c32008d 100644
--- a/src/eckit/geo/polygon/PolygonXY.cc
+++ b/src/eckit/geo/polygon/PolygonXY.cc
@@ -60,25 +60,19 @@ bool PolygonXY::operator==(const PolygonXY& poly) const {
             return true;
         }
 
-        int offset = -1;
-        for (int i = 0; i < size(); i++) {
-            if (at(i) == poly.at(0)) {
-                offset = i;
-                break;
+        // points can be repeated, so any offset is possible
+        for (int offset = 0; offset < size(); offset++) {
+            bool same = true;
+            for (int i = 0; same && i < size(); i++) {
+                same = at((i + offset) % size()) == poly.at(i);
             }
-        }
-
-        if (offset == -1) {
-            return false;
-        }
 
-        for (int i = 1; i < size(); i++) {
-            if (at((i + offset) % size()) != poly.at(i)) {
-                return false;
+            if (same) {
+                return true;
             }
         }
 
-        return true;
+        return false;
     }
 
     return false;
diff --git a/src/eckit/geometry/polygon/Polygon.cc b/src/eckit/geometry/polygon/Polygon.cc
index 1d32005..7513f7b 100644
--- a/src/eckit/geometry/polygon/Polygon.cc
+++ b/src/eckit/geometry/polygon/Polygon.cc
@@ -27,24 +27,19 @@ bool Polygon::congruent(const Polygon& p) const {
         return true;
     }
 
-    int offset = -1;
-    for (int i = 0; i < size(); i++) {
-        if (at(i) == p.at(0)) {
-            offset = i;
-            break;
+    // points can be repeated, so any offset is possible
+    for (int offset = 0; offset < size(); offset++) {
+        bool same = true;
+        for (int i = 0; same && i < size(); i++) {
+            same = at((i + offset) % size()) == p.at(i);
         }
-    }
 
-    if (offset == -1) {
-        return false;
-    }
-
-    for (int i = 1; i < size(); i++) {
-        if (at((i + offset) % size()) != p.at(i)) {
-            return false;
+        if (same) {
+            return true;
         }
     }
-    return true;
+
+    return false;
 }
 
 void Polygon::print(std::ostream& s) const {
-- 
2.43.0


From 74eeaef0c4f1dc79ec70defc0419247d5ab2baa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:43 +0000
Subject: [PATCH 112/165] fix: search trees in anonymous memory

---
 src/eckit/geo/search/TreeMapped.cc                | 7 +++++--
 src/eckit/geo/search/TreeMapped.h                 | 1 +
 src/eckit/geo/search/TreeMappedAnonymousMemory.cc | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/eckit/geo/search/TreeMapped.cc b/src/eckit/geo/search/TreeMapped.cc
index ff25c92..5310df7 100644
--- a/src/eckit/geo/search/TreeMapped.cc
+++ b/src/eckit/geo/search/TreeMapped.cc
@@ -60,8 +60,11 @@ std::vector<Tree::PointValueType> TreeMapped::findInSphere(const Tree::Point& pt
 }
 
 
-TreeMapped::TreeMapped(const Grid& r, const PathName& path) :
-    Tree(r), umask_(0), path_(path), tree_(path, path.exists() ? 0 : itemCount(), 0) {}
+TreeMapped::TreeMapped(const Grid& r, const PathName& path) : TreeMapped(r, path, path.exists()) {}
+
+
+TreeMapped::TreeMapped(const Grid& r, const PathName& path, bool built) :
+    Tree(r), umask_(0), path_(path), tree_(path, built ? 0 : itemCount(), 0) {}
 
 
 }  // namespace eckit::geo::search
diff --git a/src/eckit/geo/search/TreeMapped.h b/src/eckit/geo/search/TreeMapped.h
index 8906fce..b743667 100644
--- a/src/eckit/geo/search/TreeMapped.h
+++ b/src/eckit/geo/search/TreeMapped.h
@@ -47,6 +47,7 @@ protected:
 public:
 
     TreeMapped(const Grid&, const PathName&);
+    TreeMapped(const Grid&, const PathName&, bool built);
 };
 
 
diff --git a/src/eckit/geo/search/TreeMappedAnonymousMemory.cc b/src/eckit/geo/search/TreeMappedAnonymousMemory.cc
index 4aa77e5..1e215c7 100644
--- a/src/eckit/geo/search/TreeMappedAnonymousMemory.cc
+++ b/src/eckit/geo/search/TreeMappedAnonymousMemory.cc
@@ -16,7 +16,7 @@
 namespace eckit::geo::search {
 
 
-TreeMappedAnonymousMemory::TreeMappedAnonymousMemory(const Grid& r) : TreeMapped(r, "/dev/zero") {}
+TreeMappedAnonymousMemory::TreeMappedAnonymousMemory(const Grid& r) : TreeMapped(r, "/dev/zero", false) {}
 
 
 static const TreeBuilder<TreeMappedAnonymousMemory> builder("mapped-anonymous-memory");
-- 
2.43.0


From 502b47879cee1ab969f156fe1d56be198a1ac444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:14 +0000
Subject: [PATCH 113/165] fix: HyperCube::count of more than INT_MAX elements

---
 src/eckit/utils/HyperCube.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/utils/HyperCube.h b/src/eckit/utils/HyperCube.h
index 3024a95..ed7db97 100644
--- a/src/eckit/utils/HyperCube.h
+++ b/src/eckit/utils/HyperCube.h
@@ -69,7 +69,7 @@ private:  // members
 
 /// Method is inlined for speed
 inline Ordinal HyperCube::count() const {
-    return std::accumulate(dimensions_.begin(), dimensions_.end(), 1, std::multiplies<Ordinal>());
+    return std::accumulate(dimensions_.begin(), dimensions_.end(), Ordinal(1), std::multiplies<Ordinal>());
 }
 
 /// Method is inlined for speed
-- 
2.43.0


From 3f426d9817134a550fafef60f70c56b36b7a9ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:56 +0000
Subject: [PATCH 114/165] fix: lock file unlinked while other processes wait
 for it

---
 src/eckit/io/FileLock.cc | 36 ++++++++++++++++++++++++++++++++++--
 src/eckit/io/FileLock.h  |  8 ++++++++
 2 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/eckit/io/FileLock.cc b/src/eckit/io/FileLock.cc
index 663b6c8..484814a 100644
--- a/src/eckit/io/FileLock.cc
+++ b/src/eckit/io/FileLock.cc
@@ -16,6 +16,7 @@
 #include "eckit/exception/Exceptions.h"
 #include "eckit/log/Log.h"
 #include "eckit/os/AutoUmask.h"
+#include "eckit/os/Stat.h"
 
 namespace eckit {
 
@@ -35,8 +36,8 @@ FileLock::FileLock(const PathName& lockFile, bool unlink_at_destruction) :
 
 
 FileLock::~FileLock() {
-    ::close(fd_);
-    if (!lockFile_.asString().empty()) {
+    // The file is unlinked by who holds the lock: if another process does, the file is left to it
+    if (!lockFile_.asString().empty() && tryLock() && current()) {
         try {
             lockFile_.unlink(false);
         }
@@ -44,11 +45,42 @@ FileLock::~FileLock() {
             Log::warning() << "Failed to unlink lock file " << lockFile_ << " -- " << e.what() << std::endl;
         }
     }
+    ::close(fd_);
 }
 
 
 void FileLock::lock() {
     locker_.lockExclusive();
+
+    if (lockFile_.asString().empty()) {
+        return;
+    }
+
+    // While waiting, the file may have been unlinked: others will lock the one that replaces it
+    while (!current()) {
+        int fd = openLock(lockFile_);
+        SYSCALL(::dup2(fd, fd_));
+        SYSCALL(::close(fd));
+        locker_.lockExclusive();
+    }
+}
+
+
+bool FileLock::tryLock() const {
+    struct flock lock;
+    lock.l_type   = F_WRLCK;
+    lock.l_whence = SEEK_SET;
+    lock.l_start  = 0;
+    lock.l_len    = 0;
+    return ::fcntl(fd_, F_SETLK, &lock) == 0;
+}
+
+
+bool FileLock::current() const {
+    Stat::Struct a;
+    Stat::Struct b;
+    return Stat::fstat(fd_, &a) == 0 && Stat::stat(lockFile_.localPath(), &b) == 0 && a.st_dev == b.st_dev &&
+           a.st_ino == b.st_ino;
 }
 
 
diff --git a/src/eckit/io/FileLock.h b/src/eckit/io/FileLock.h
index cf75bbc..e026385 100644
--- a/src/eckit/io/FileLock.h
+++ b/src/eckit/io/FileLock.h
@@ -41,6 +41,14 @@ public:
     void lock();
     void unlock();
 
+private:
+
+    /// Lock, unless another process holds the lock
+    bool tryLock() const;
+
+    /// The file that is open is still the one of that name
+    bool current() const;
+
 private:
 
     const PathName lockFile_;
-- 
2.43.0


From 4f01cd9a86c8a3596f31d2b1306880aadab00e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:09 +0000
Subject: [PATCH 115/165] fix: lock of a download unlinked while other
 processes wait for it

---
 src/eckit/geo/cache/Download.cc | 28 +++-------------------------
 1 file changed, 3 insertions(+), 25 deletions(-)

diff --git a/src/eckit/geo/cache/Download.cc b/src/eckit/geo/cache/Download.cc
index cfd8acb..cbb57dc 100644
--- a/src/eckit/geo/cache/Download.cc
+++ b/src/eckit/geo/cache/Download.cc
@@ -24,7 +24,6 @@
 #include "eckit/io/Length.h"
 #include "eckit/log/Log.h"
 #include "eckit/log/Timer.h"
-#include "eckit/os/AutoUmask.h"
 #include "eckit/utils/MD5.h"
 
 #if eckit_HAVE_CURL
@@ -48,33 +47,12 @@ class lock_type {
 
 
 class file_lock_type {
-    struct flock_type {
-        explicit flock_type(const PathName& path) :
-            lock_path_([](const auto& path) {
-                AutoUmask umask(0);
-                PathName lock(path + ".lock");
-                lock.touch();
-                return lock;
-            }(path)),
-            lock_(lock_path_) {}
-
-        void lock() { lock_.lock(); }
-
-        void unlock() {
-            lock_.unlock();
-            lock_path_.unlink(false);
-        }
-
-        PathName lock_path_;
-        FileLock lock_;
-    };
-
-    flock_type flock_;
-    util::lock_guard<flock_type> lock_guard_;
+    FileLock lock_;
+    util::lock_guard<FileLock> lock_guard_;
 
 public:
 
-    explicit file_lock_type(const PathName& path) : flock_(path), lock_guard_(flock_) {}
+    explicit file_lock_type(const PathName& path) : lock_(path + ".lock", true), lock_guard_(lock_) {}
 };
 
 
-- 
2.43.0


From e20a413372993641c89428f50a4cc3159eda931d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:24 +0000
Subject: [PATCH 116/165] fix: clipping and simplification of polygons keep
 distinct points

---
 src/eckit/geo/polygon/Polygon.cc   | 16 +++++++++++++---
 src/eckit/geo/polygon/PolygonXY.cc |  6 +++++-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/eckit/geo/polygon/Polygon.cc b/src/eckit/geo/polygon/Polygon.cc
index eb062d8..9fa7e31 100644
--- a/src/eckit/geo/polygon/Polygon.cc
+++ b/src/eckit/geo/polygon/Polygon.cc
@@ -40,6 +40,12 @@ inline double cross(const PointLonLat& P, const PointLonLat& Q) {
 }
 
 
+// polygons are planar: longitudes a turn apart are different
+inline bool same_point(const PointLonLat& P, const PointLonLat& Q) {
+    return is_zero(P.lon() - Q.lon()) && is_zero(P.lat() - Q.lat());
+}
+
+
 inline int on_direction(double a, double b, double c) {
     return a <= b && b <= c ? 1 : c <= b && b <= a ? -1 : 0;
 };
@@ -88,7 +94,7 @@ Polygon::Edge Polygon::edge(int i) const {
 
 
 void Polygon::emplace_back_point(PointLonLat P) {
-    if (empty() || (!points_equal(P, back()) && !points_equal(P, front()))) {
+    if (empty() || !same_point(P, back())) {
         emplace_back(P);
     }
 }
@@ -231,8 +237,8 @@ void Polygon::clip(const Polygon& clipper) {
 
 void Polygon::simplify() {
     // remove consecutive duplicate points
-    erase(std::unique(begin(), end(), [](const auto& P, const auto& Q) { return points_equal(P, Q); }), end());
-    if (1 < size() && points_equal(front(), back())) {
+    erase(std::unique(begin(), end(), same_point), end());
+    if (1 < size() && same_point(front(), back())) {
         pop_back();
     }
 
@@ -248,6 +254,10 @@ void Polygon::simplify() {
         }
     }
 
+    if (1 < size() && same_point(front(), back())) {
+        pop_back();
+    }
+
     if (size() < 3) {
         clear();
     }
diff --git a/src/eckit/geo/polygon/PolygonXY.cc b/src/eckit/geo/polygon/PolygonXY.cc
index c32008d..2ce171d 100644
--- a/src/eckit/geo/polygon/PolygonXY.cc
+++ b/src/eckit/geo/polygon/PolygonXY.cc
@@ -125,6 +125,10 @@ void PolygonXY::simplify() {
         }
     }
 
+    if (1 < size() && points_equal(front(), back())) {
+        pop_back();
+    }
+
     if (size() < 3) {
         clear();
     }
@@ -132,7 +136,7 @@ void PolygonXY::simplify() {
 
 
 void PolygonXY::emplace_back_point(PointXY P) {
-    if (empty() || (!points_equal(P, back()) && !points_equal(P, front()))) {
+    if (empty() || !points_equal(P, back())) {
         emplace_back(P);
     }
 }
-- 
2.43.0


From 4e50ba744d7bd768b49c567781cc7aa427953f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:29 +0000
Subject: [PATCH 117/165] fix: point in polygon next to a nearly level edge

---
 src/eckit/geo/polygon/Polygon.cc            | 10 ++--------
 src/eckit/geo/polygon/PolygonXY.cc          | 10 ++--------
 src/eckit/geometry/polygon/LonLatPolygon.cc |  9 ++-------
 3 files changed, 6 insertions(+), 23 deletions(-)

diff --git a/src/eckit/geo/polygon/Polygon.cc b/src/eckit/geo/polygon/Polygon.cc
index 9fa7e31..35549b1 100644
--- a/src/eckit/geo/polygon/Polygon.cc
+++ b/src/eckit/geo/polygon/Polygon.cc
@@ -51,12 +51,6 @@ inline int on_direction(double a, double b, double c) {
 };
 
 
-inline int on_side(const PointLonLat& P, const PointLonLat& A, const PointLonLat& B) {
-    const auto p = cross_product_analog(P, A, B);
-    return is_zero(p) ? 0 : p > 0 ? 1 : -1;
-}
-
-
 }  // namespace
 
 
@@ -156,9 +150,9 @@ bool Polygon::contains(const PointLonLat& P) const {
         for (int i = 0, n = static_cast<int>(size()); i < n; ++i) {
             const auto& [A, B] = edge(i);
             if (const auto dir = on_direction(A.lat(), Q.lat(), B.lat()); dir != 0) {
-                const auto side = on_side(Q, A, B);
+                const auto side = cross_product_analog(Q, A, B);
 
-                if (side == 0 && on_direction(A.lon(), Q.lon(), B.lon()) != 0) {
+                if (is_zero(side) && on_direction(A.lon(), Q.lon(), B.lon()) != 0) {
                     return true;
                 }
 
diff --git a/src/eckit/geo/polygon/PolygonXY.cc b/src/eckit/geo/polygon/PolygonXY.cc
index 2ce171d..4ed4642 100644
--- a/src/eckit/geo/polygon/PolygonXY.cc
+++ b/src/eckit/geo/polygon/PolygonXY.cc
@@ -44,12 +44,6 @@ inline int on_direction(double a, double b, double c) {
 };
 
 
-inline int on_side(const PointXY& P, const PointXY& A, const PointXY& B) {
-    const auto p = cross_product_analog(P, A, B);
-    return is_zero(p) ? 0 : p > 0 ? 1 : -1;
-}
-
-
 }  // namespace
 
 
@@ -91,9 +85,9 @@ bool PolygonXY::contains(const PointXY& P) const {
     for (int i = 0, n = static_cast<int>(size()); i < n; ++i) {
         const auto& [A, B] = edge(i);
         if (const auto dir = on_direction(A.Y(), P.Y(), B.Y()); dir != 0) {
-            const auto side = on_side(P, A, B);
+            const auto side = cross_product_analog(P, A, B);
 
-            if (side == 0 && on_direction(A.X(), P.X(), B.X()) != 0) {
+            if (is_zero(side) && on_direction(A.X(), P.X(), B.X()) != 0) {
                 return true;
             }
 
diff --git a/src/eckit/geometry/polygon/LonLatPolygon.cc b/src/eckit/geometry/polygon/LonLatPolygon.cc
index afaf3b7..3274006 100644
--- a/src/eckit/geometry/polygon/LonLatPolygon.cc
+++ b/src/eckit/geometry/polygon/LonLatPolygon.cc
@@ -41,11 +41,6 @@ inline int on_direction(double a, double b, double c) {
     return a <= b && b <= c ? 1 : c <= b && b <= a ? -1 : 0;
 };
 
-inline int on_side(const Point2& P, const Point2& A, const Point2& B) {
-    const auto p = cross_product_analog(P, A, B);
-    return is_approximately_equal(p, 0) ? 0 : p > 0 ? 1 : -1;
-}
-
 }  // namespace
 
 //----------------------------------------------------------------------------------------------------------------------
@@ -147,8 +142,8 @@ bool LonLatPolygon::contains(const Point2& Plonlat, bool normalise_angle) const
             // (edges are without their upper point, so that crossing at a vertex counts once)
             const auto direction = on_direction(A[LAT], lat, B[LAT]);
             if (direction != 0) {
-                const auto side = on_side({lon, lat}, A, B);
-                if (side == 0 && on_direction(A[LON], lon, B[LON]) != 0) {
+                const auto side = cross_product_analog({lon, lat}, A, B);
+                if (is_approximately_equal(side, 0) && on_direction(A[LON], lon, B[LON]) != 0) {
                     return true;
                 }
                 if ((direction > 0 && side > 0 && lat < B[LAT]) || (direction < 0 && side < 0 && lat < A[LAT])) {
-- 
2.43.0


From ac619e35f62a5e2e83ba4f2a82fe99dc9f3366ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:58 +0000
Subject: [PATCH 118/165] fix: iterate on a reduced grid with empty rows

---
 src/eckit/geo/iterator/Reduced.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/geo/iterator/Reduced.cc b/src/eckit/geo/iterator/Reduced.cc
index 7b8cc19..804ee38 100644
--- a/src/eckit/geo/iterator/Reduced.cc
+++ b/src/eckit/geo/iterator/Reduced.cc
@@ -62,7 +62,7 @@ bool Reduced::operator==(const Iterator& other) const {
 bool Reduced::operator++() {
     if (index_++; index_ < size_) {
         if (!(index_ < niacc_[j_ + 1])) {
-            longitudes_j_ = grid_.longitudes(++j_);
+            longitudes_j_ = grid_.longitudes(j_ = j(index_));  // (rows can be empty)
         }
 
         ASSERT(niacc_[j_] <= index_ && index_ < niacc_[j_ + 1]);
-- 
2.43.0


From e4e2f2b4ea22f8d5bd4f3181cb37f3630ff1fb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:23 +0000
Subject: [PATCH 119/165] fix: bounding box of a regular lat/lon grid that
 leaves out the points at a pole

---
 src/eckit/geo/range/Regular.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eckit/geo/range/Regular.cc b/src/eckit/geo/range/Regular.cc
index e0a30fe..838b49f 100644
--- a/src/eckit/geo/range/Regular.cc
+++ b/src/eckit/geo/range/Regular.cc
@@ -61,11 +61,13 @@ struct RegularLatitude final : Regular::Implementation {
     }
 
     bool includesNorthPole() const override {
-        return types::is_approximately_greater_or_equal<double>(max() + Fraction::abs(inc_), NORTH_POLE.lat());
+        // (a following point at the pole is left out)
+        return types::is_strictly_greater<double>(max() + Fraction::abs(inc_), NORTH_POLE.lat());
     }
 
     bool includesSouthPole() const override {
-        return types::is_approximately_lesser_or_equal<double>(min() - Fraction::abs(inc_), SOUTH_POLE.lat());
+        // (a following point at the pole is left out)
+        return types::is_strictly_greater<double>(SOUTH_POLE.lat(), min() - Fraction::abs(inc_));
     }
 };
 
-- 
2.43.0


From a430d11ae9ed146c2bd0b8c82dc4917e9ef21781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:43 +0000
Subject: [PATCH 120/165] fix: the specification of a regular lat/lon grid has
 the reference it needs

---
 src/eckit/geo/grid/regular/RegularLL.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/eckit/geo/grid/regular/RegularLL.cc b/src/eckit/geo/grid/regular/RegularLL.cc
index ab17bd9..86d87cf 100644
--- a/src/eckit/geo/grid/regular/RegularLL.cc
+++ b/src/eckit/geo/grid/regular/RegularLL.cc
@@ -104,12 +104,18 @@ void RegularLL::fill_spec(spec::Custom& custom) const {
 
     custom.set("grid", std::vector<double>{std::abs(dlon()), std::abs(dlat())});
 
+    auto ref_default = reference_default();
     if (const auto& bbox = boundingBox(); bbox != BoundingBox::bounding_box_default()) {
         auto [n, w, s, e] = bbox.deconstruct();
         custom.set("area", std::vector<double>{n, w, s, e});
+
+        // an area comes with a default reference of its own
+        if (auto w0 = x_.min(), s0 = y_.min(); !types::is_approximately_equal(w, w0) || !types::is_approximately_equal(s, s0)) {
+            ref_default = {w, s};
+        }
     }
 
-    if (const auto ref{reference()}; !points_equal(ref, reference_default())) {
+    if (const auto ref{reference()}; !points_equal(ref, ref_default)) {
         custom.set("reference", std::vector<double>{ref.lon(), ref.lat()});
     }
 }
-- 
2.43.0


From b09be38e72c053e1bf64a5b485d2f66d5f44c4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:43 +0000
Subject: [PATCH 121/165] fix: Gaussian latitudes at the limits of an area that
 was written and read

---
 src/eckit/geo/range/GaussianLatitude.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/geo/range/GaussianLatitude.cc b/src/eckit/geo/range/GaussianLatitude.cc
index ad2c23a..761fbe8 100644
--- a/src/eckit/geo/range/GaussianLatitude.cc
+++ b/src/eckit/geo/range/GaussianLatitude.cc
@@ -64,7 +64,7 @@ GaussianLatitude* GaussianLatitude::make_cropped_range(double crop_a, double cro
     else if (a() < b()) {
         ASSERT(crop_a <= crop_b);
         if (is_less(a(), crop_a) || is_less(crop_b, b())) {
-            auto [from, to] = util::monotonic_crop(v, crop_a, crop_b);
+            auto [from, to] = util::monotonic_crop(v, crop_a - PointLonLat::EPS, crop_b + PointLonLat::EPS);
             v.erase(v.begin() + to, v.end());
             v.erase(v.begin(), v.begin() + from);
         }
@@ -72,7 +72,7 @@ GaussianLatitude* GaussianLatitude::make_cropped_range(double crop_a, double cro
     else {
         ASSERT(crop_a >= crop_b);
         if (is_less(b(), crop_b) || is_less(crop_a, a())) {
-            auto [from, to] = util::monotonic_crop(v, crop_b, crop_a);
+            auto [from, to] = util::monotonic_crop(v, crop_b - PointLonLat::EPS, crop_a + PointLonLat::EPS);
             v.erase(v.begin() + to, v.end());
             v.erase(v.begin(), v.begin() + from);
         }
-- 
2.43.0


From 231c8568516cc07b193380085436ce36e636080c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:41 +0000
Subject: [PATCH 122/165] fix: the specification of a reduced lat/lon grid has
 its type

---
 src/eckit/geo/grid/reduced/ReducedLonLat.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eckit/geo/grid/reduced/ReducedLonLat.cc b/src/eckit/geo/grid/reduced/ReducedLonLat.cc
index 8e60eef..46f462c 100644
--- a/src/eckit/geo/grid/reduced/ReducedLonLat.cc
+++ b/src/eckit/geo/grid/reduced/ReducedLonLat.cc
@@ -132,6 +132,7 @@ const std::vector<double>& ReducedLonLat::longitudes(size_t j) const {
 void ReducedLonLat::fill_spec(spec::Custom& custom) const {
     Reduced::fill_spec(custom);
 
+    custom.set("type", type());
     custom.set("pl", pl_);
 
     if (order() != order::Scan::order_default()) {
-- 
2.43.0


From 9c1dc6864f423d78a2e792c8c217620fb5f46125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:12 +0000
Subject: [PATCH 123/165] fix: the area of a specification is normalised when
 written, as it is when read

---
 src/eckit/geo/area/BoundingBox.cc       | 4 +++-
 src/eckit/geo/grid/regular/RegularLL.cc | 8 ++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/eckit/geo/area/BoundingBox.cc b/src/eckit/geo/area/BoundingBox.cc
index 9fe9e32..a287059 100644
--- a/src/eckit/geo/area/BoundingBox.cc
+++ b/src/eckit/geo/area/BoundingBox.cc
@@ -358,7 +358,9 @@ std::unique_ptr<BoundingBox> BoundingBox::make_global_antiprime() {
 
 
 void BoundingBox::fill_spec(spec::Custom& custom) const {
-    custom.set("area", std::vector<double>{north(), west(), south(), east()});
+    // normalised, as when it is read
+    auto [n, w, s, e] = make_from_area(north(), west(), south(), east())->deconstruct();
+    custom.set("area", std::vector<double>{n, w, s, e});
 }
 
 
diff --git a/src/eckit/geo/grid/regular/RegularLL.cc b/src/eckit/geo/grid/regular/RegularLL.cc
index 86d87cf..6041bee 100644
--- a/src/eckit/geo/grid/regular/RegularLL.cc
+++ b/src/eckit/geo/grid/regular/RegularLL.cc
@@ -106,12 +106,12 @@ void RegularLL::fill_spec(spec::Custom& custom) const {
 
     auto ref_default = reference_default();
     if (const auto& bbox = boundingBox(); bbox != BoundingBox::bounding_box_default()) {
-        auto [n, w, s, e] = bbox.deconstruct();
-        custom.set("area", std::vector<double>{n, w, s, e});
+        bbox.fill_spec(custom);
 
         // an area comes with a default reference of its own
-        if (auto w0 = x_.min(), s0 = y_.min(); !types::is_approximately_equal(w, w0) || !types::is_approximately_equal(s, s0)) {
-            ref_default = {w, s};
+        if (auto w = x_.min(), s = y_.min();
+            !types::is_approximately_equal(w, bbox.west()) || !types::is_approximately_equal(s, bbox.south())) {
+            ref_default = {bbox.west(), bbox.south()};
         }
     }
 
-- 
2.43.0


From 7a1905d3924d5e3904c69b46c234943989487337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:16 +0000
Subject: [PATCH 124/165] fix: line based log targets keep the beginning of a
 long line

---
 src/eckit/log/LineBasedTarget.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/eckit/log/LineBasedTarget.cc b/src/eckit/log/LineBasedTarget.cc
index 51735d5..8807878 100644
--- a/src/eckit/log/LineBasedTarget.cc
+++ b/src/eckit/log/LineBasedTarget.cc
@@ -8,6 +8,8 @@
  * does it submit to any jurisdiction.
  */
 
+#include <cstring>
+
 #include "eckit/exception/Exceptions.h"
 #include "eckit/maths/Functions.h"
 
@@ -27,10 +29,12 @@ LineBasedTarget::~LineBasedTarget() {
 
 void LineBasedTarget::reserve(size_t size) {
     if (size_ < size) {
+        size_t length = round(size, 1024 * 1024);
+        char* buffer  = new char[length];
+        ::memcpy(buffer, buffer_, position_);  // the beginning of the line
         delete[] buffer_;
-        size_   = round(size, 1024 * 1024);
-        buffer_ = new char[size_];
-        ASSERT(buffer_);
+        buffer_ = buffer;
+        size_   = length;
     }
 }
 
-- 
2.43.0


From ed1d8facb316412670bb8bac2e694b2fa18a68b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:16 +0000
Subject: [PATCH 125/165] fix: the buffer of a FileTarget lives until its
 stream is flushed

---
 src/eckit/log/FileTarget.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/log/FileTarget.h b/src/eckit/log/FileTarget.h
index 0d0d98f..0a575eb 100644
--- a/src/eckit/log/FileTarget.h
+++ b/src/eckit/log/FileTarget.h
@@ -38,8 +38,8 @@ private:
 
 private:
 
+    Buffer buffer_;  //< configurable buffer for ofstream, which must outlive it
     std::ofstream out_;
-    Buffer buffer_;  //< configurable buffer for ofstream
     PathName path_;
 };
 
-- 
2.43.0


From 434b3979f2b939a23929e75e2d40f0a9a159c7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:16 +0000
Subject: [PATCH 126/165] fix: a TimeStamp owns its format and leaves the
 stream as it was

---
 src/eckit/log/TimeStamp.cc | 4 +++-
 src/eckit/log/TimeStamp.h  | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eckit/log/TimeStamp.cc b/src/eckit/log/TimeStamp.cc
index 2dfc715..7070fb3 100644
--- a/src/eckit/log/TimeStamp.cc
+++ b/src/eckit/log/TimeStamp.cc
@@ -29,7 +29,9 @@ TimeStamp::TimeStamp(time_t t, const std::string& format) : time_(t), format_(fo
 std::ostream& operator<<(std::ostream& s, const TimeStamp& x) {
 
     if (x.format_ == "hex") {
-        s << std::setw(16) << std::setfill('0') << std::hex << static_cast<std::uint64_t>(x.time_);
+        std::ostringstream hex;
+        hex << std::setw(16) << std::setfill('0') << std::hex << static_cast<std::uint64_t>(x.time_);
+        s << hex.str();
         return s;
     }
 
diff --git a/src/eckit/log/TimeStamp.h b/src/eckit/log/TimeStamp.h
index f22e3b6..a97b1bd 100644
--- a/src/eckit/log/TimeStamp.h
+++ b/src/eckit/log/TimeStamp.h
@@ -37,7 +37,7 @@ public:  // methods
 private:  // members
 
     time_t time_;
-    const std::string& format_;
+    std::string format_;
 
     static const char* defaultFormat_;
 };
-- 
2.43.0


From db8320a7dfa2a742d61c83a006c526cc4cf2f1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:44 +0000
Subject: [PATCH 127/165] fix: TimeStamp with a format that gives more than 79
 characters

---
 src/eckit/log/TimeStamp.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eckit/log/TimeStamp.cc b/src/eckit/log/TimeStamp.cc
index 7070fb3..5d7e22c 100644
--- a/src/eckit/log/TimeStamp.cc
+++ b/src/eckit/log/TimeStamp.cc
@@ -35,15 +35,15 @@ std::ostream& operator<<(std::ostream& s, const TimeStamp& x) {
         return s;
     }
 
-    char buf[80];
+    std::ostringstream text;
 #if eckit_HAVE_GMTIME_R
     struct tm t;
-    ::strftime(buf, sizeof(buf), x.format_.c_str(), gmtime_r(&x.time_, &t));
+    text << std::put_time(gmtime_r(&x.time_, &t), x.format_.c_str());
 #else
-    ::strftime(buf, sizeof(buf), x.format_.c_str(), gmtime(&x.time_));
+    text << std::put_time(gmtime(&x.time_), x.format_.c_str());
 #endif
 
-    s << buf;
+    s << text.str();
 
     return s;
 }
-- 
2.43.0


From eca6852cabe8b893dd539297ae5cc6f2b86d3094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:58 +0000
Subject: [PATCH 128/165] fix: user messages are what was written, line by line

---
 src/eckit/log/UserChannel.cc | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/eckit/log/UserChannel.cc b/src/eckit/log/UserChannel.cc
index b17c55a..f502551 100644
--- a/src/eckit/log/UserChannel.cc
+++ b/src/eckit/log/UserChannel.cc
@@ -27,10 +27,10 @@ public:
     using MsgType = UserChannel::MsgType;
 
     UserBuffer(std::size_t size = 1024) :
-        std::streambuf(), buffer_(size + 1), msgType_(UserChannel::NONE), user_{nullptr} {
+        std::streambuf(), buffer_(size), msgType_(UserChannel::NONE), user_{nullptr} {
         ASSERT(size);
         char* base = &buffer_.front();
-        setp(base, base + buffer_.size() - 1);  // don't consider the space for '\0'
+        setp(base, base + buffer_.size());
     }
 
     ~UserBuffer() { sync(); }
@@ -48,30 +48,37 @@ private:
     UserMsg* user_;             ///< interface to user messeges
 
     bool dumpBuffer() {
-        std::replace(pbase(), epptr(), '\n', '\0');
+        const char* end = pptr();
+        for (const char* p = pbase(); p < end;) {  // each line is a message
+            const char* eol = std::find(p, end, '\n');
+            message(std::string(p, eol));
+            p = eol == end ? end : eol + 1;
+        }
+
+        setp(pbase(), epptr());
+        return true;
+    }
 
+    void message(const std::string& line) {
         switch (msgType_) {
             case UserChannel::NONE:
                 break;
             case UserChannel::INFO:
                 if (user_) {
-                    user_->infoMsg(pbase());
+                    user_->infoMsg(line);
                 }
                 break;
             case UserChannel::WARN:
                 if (user_) {
-                    user_->warningMsg(pbase());
+                    user_->warningMsg(line);
                 }
                 break;
             case UserChannel::ERROR:
                 if (user_) {
-                    user_->errorMsg(pbase());
+                    user_->errorMsg(line);
                 }
                 break;
         }
-
-        setp(pbase(), epptr());
-        return true;
     }
 
 protected:
-- 
2.43.0


From 7a45cda220505bf6b3b46f13777c68df972fbce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:58 +0000
Subject: [PATCH 129/165] fix: values in the structured data of a syslog
 message are escaped

---
 src/eckit/log/SysLog.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/eckit/log/SysLog.cc b/src/eckit/log/SysLog.cc
index 0d2dab0..cbb1931 100644
--- a/src/eckit/log/SysLog.cc
+++ b/src/eckit/log/SysLog.cc
@@ -61,6 +61,18 @@ void SysLog::message(std::string msg) {
     updateTimestamp();
 }
 
+// RFC 5424 section 6.3.3: characters '"', backslash and ']' are escaped in values
+static std::string escaped(const std::string& value) {
+    std::string s;
+    for (char c : value) {
+        if (c == '"' || c == '\\' || c == ']') {
+            s += '\\';
+        }
+        s += c;
+    }
+    return s;
+}
+
 std::string SysLog::structuredData() const {
     if (software_.empty() && swVersion_.empty() && enterpriseId_.empty()) {
         return std::string(1, nilvalue());
@@ -71,12 +83,12 @@ std::string SysLog::structuredData() const {
 
     s << "[origin ip=\"" << ip << "\"";
     if (!enterpriseId_.empty()) {
-        s << " enterpriseId=\"" << enterpriseId_ << "\"";
+        s << " enterpriseId=\"" << escaped(enterpriseId_) << "\"";
     }
     if (!software_.empty()) {
-        s << " software=\"" << software_ << "\"";
+        s << " software=\"" << escaped(software_) << "\"";
         if (!swVersion_.empty()) {
-            s << " swVersion=\"" << swVersion_ << "\"";
+            s << " swVersion=\"" << escaped(swVersion_) << "\"";
         }
     }
     s << "]";
-- 
2.43.0


From c47f82e78184576328e19f61f51a5ed573bfb5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:27 +0000
Subject: [PATCH 130/165] fix: escapes in an URL may be in lower case, or
 incomplete

---
 src/eckit/web/Html.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eckit/web/Html.cc b/src/eckit/web/Html.cc
index f5a51f8..ff7f932 100644
--- a/src/eckit/web/Html.cc
+++ b/src/eckit/web/Html.cc
@@ -94,9 +94,10 @@ std::string Html::removeHex(const std::string& s) {
         if (s[index] == '+') {
             t += ' ';
         }
-        else if (s[index] == '%') {
-            char h = s[index + 1];
-            char l = s[index + 2];
+        else if (s[index] == '%' && index + 2 < length && isxdigit((unsigned char)s[index + 1]) &&
+                 isxdigit((unsigned char)s[index + 2])) {
+            char h = toupper((unsigned char)s[index + 1]);
+            char l = toupper((unsigned char)s[index + 2]);
             index += 2;
 
             unsigned int a = (h >= 'A') ? (h - 'A' + 10) : (h - '0');
-- 
2.43.0


From 469e0d4d5cc6bab0522291f3de1286116d22725b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:27 +0000
Subject: [PATCH 131/165] fix: a plus sign in an URL is escaped, as it is read
 as a blank

---
 src/eckit/web/Html.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/eckit/web/Html.cc b/src/eckit/web/Html.cc
index ff7f932..b6dd58d 100644
--- a/src/eckit/web/Html.cc
+++ b/src/eckit/web/Html.cc
@@ -41,7 +41,6 @@ std::string Html::addHex(const std::string& s) {
         bool ok = false;
 
         switch (c) {
-            case '+':
             case '&':
             case '/':
             case '=':
-- 
2.43.0


From 475cdf48a35f727b7a50441178cdfb686dff90b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:27 +0000
Subject: [PATCH 132/165] fix: a substitution at the end of an included page,
 or next to another one

---
 src/eckit/web/Html.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/web/Html.cc b/src/eckit/web/Html.cc
index b6dd58d..2fe5b83 100644
--- a/src/eckit/web/Html.cc
+++ b/src/eckit/web/Html.cc
@@ -158,7 +158,7 @@ void Html::Include::print(std::ostream& s) const {
             else {
                 word = true;
             }
-            in.get(c);
+            continue;
         }
 
         if (word) {
-- 
2.43.0


From 6030cd32eb011b26061754e0d9609de9c4e35082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:27 +0000
Subject: [PATCH 133/165] fix: the value of a parameter of an URL may have '='
 and '?'

---
 src/eckit/web/Url.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eckit/web/Url.cc b/src/eckit/web/Url.cc
index 90ceb38..ff26eea 100644
--- a/src/eckit/web/Url.cc
+++ b/src/eckit/web/Url.cc
@@ -43,6 +43,10 @@ void Url::parse(const std::string& url, bool param) {
 
         switch (url[index]) {
             case '?':
+                if (param) {
+                    s += url[index];
+                    break;
+                }
                 param = true;
                 if (s != "") {
                     url_.push_back(Html::removeHex(s));
@@ -51,7 +55,7 @@ void Url::parse(const std::string& url, bool param) {
                 break;
 
             case '=':
-                if (param) {
+                if (param && p == "") {
                     p = s;
                     s = "";
                 }
-- 
2.43.0


From 75703e647ce282ec59bba00dd9b7bc1cd56aecd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:27 +0000
Subject: [PATCH 134/165] fix: a request with an empty header, or that ends
 within its headers

---
 src/eckit/web/Url.cc | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/eckit/web/Url.cc b/src/eckit/web/Url.cc
index ff26eea..0db0c1e 100644
--- a/src/eckit/web/Url.cc
+++ b/src/eckit/web/Url.cc
@@ -154,20 +154,18 @@ void Url::parse(std::istream& in) {
             header(c);
         }
 
-        if (c != '\r') {
+        std::string r;
+        while (in && c != '\r') {
             header(c);
-
-            std::string r;
             r += c;
-            while (in.get(c) && c != '\r') {
-                header(c);
-                r += c;
-            }
-
-            m[s] = r;
-            in.get(c);  // Skip '\n'
-            header(c);
+            in.get(c);
         }
+
+        m[s] = r;
+        in.get(c);  // Skip '\n'
+        header(c);
+
+        c = 0;  // In case there is nothing left
     }
 
     in_ = m;
-- 
2.43.0


From cd38634fc5e1f2d392820d5a4047752c7088a664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:27 +0000
Subject: [PATCH 135/165] fix: a request whose content is shorter than
 announced

---
 src/eckit/web/Url.cc | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/eckit/web/Url.cc b/src/eckit/web/Url.cc
index 0db0c1e..d57f873 100644
--- a/src/eckit/web/Url.cc
+++ b/src/eckit/web/Url.cc
@@ -172,29 +172,32 @@ void Url::parse(std::istream& in) {
 
     long len = in_.contentLength();
 
+    if (len < 0) {
+        throw UserError("Invalid Content-Length in HTTP request", Here());
+    }
+
     if (len) {
         static const std::string FormType = "application/x-www-form-urlencoded";
         // static const std::string JSONType      = "application/json";
 
         // bool ascii = true;
-        Buffer content(len);
         const std::string& type = in_.type();
+        std::string content;
 
-
-        char* p = content;
-
-        for (int i = 0; i < len; i++) {
-            in.get(c);
+        while (long(content.size()) < len && in.get(c)) {
             header(c);
-            *p++ = c;
+            content += c;
+        }
+
+        if (long(content.size()) < len) {
+            throw UserError("Content of HTTP request is too short", Here());
         }
 
         if (type == FormType) {
-            std::string s(static_cast<char*>(content), p - static_cast<char*>(content));
-            parse(s, true);
+            parse(content, true);
         }
 
-        in_.content(content, len);
+        in_.content(content.data(), len);
     }
 
     Log::debug() << *this << std::endl;
-- 
2.43.0


From 03127fdee0c31dda1096d25e001698cb7ebc7874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:55 +0000
Subject: [PATCH 136/165] fix: the web server shows the files of its directory
 only, byte for byte

---
 src/eckit/web/FileResource.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/eckit/web/FileResource.cc b/src/eckit/web/FileResource.cc
index 6887f95..a4b955a 100644
--- a/src/eckit/web/FileResource.cc
+++ b/src/eckit/web/FileResource.cc
@@ -23,15 +23,24 @@ FileResource::FileResource() : HtmlResource("/files") {}
 FileResource::~FileResource() {}
 
 void FileResource::GET(std::ostream& s, Url& url) {
+    for (int i = 0; i < url.size(); ++i) {
+        // A segment may have an (escaped) slash
+        const std::string segment = "/" + url[i] + "/";
+        if (segment.find("/../") != std::string::npos) {
+            throw HttpError(HttpError::NOT_FOUND, "Not found: " + url.name());
+        }
+    }
+
     eckit::PathName path("~/http/" + url.name());
 
     eckit::AutoStdFile f(path, "r");
-    char line[1024];
+    char buffer[1024];
+    size_t length;
 
     s << HttpStream::dontEncode;
 
-    while (fgets(line, sizeof(line), f)) {
-        s << line;
+    while ((length = ::fread(buffer, 1, sizeof(buffer), f)) > 0) {
+        s.write(buffer, length);
     }
 
     s << HttpStream::doEncode;
-- 
2.43.0


From 6726d5e39b2fd7e660cc70aaa0f73e0606f190bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:52 +0000
Subject: [PATCH 137/165] fix: a socket that is assigned to closes the
 connection it had

---
 src/eckit/net/TCPSocket.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eckit/net/TCPSocket.cc b/src/eckit/net/TCPSocket.cc
index f58ce7d..c139ae4 100644
--- a/src/eckit/net/TCPSocket.cc
+++ b/src/eckit/net/TCPSocket.cc
@@ -74,6 +74,12 @@ TCPSocket::~TCPSocket() {
 
 // This contructor performs a change of ownership of the socket
 TCPSocket& TCPSocket::operator=(net::TCPSocket& other) {
+    if (this == &other) {
+        return *this;
+    }
+
+    TCPSocket::close();
+
     socket_ = other.socket_;
 
     localAddr_  = other.localAddr_;
-- 
2.43.0


From 7066fb8006455e2ae2e17c0f38e59065a87a623b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:52 +0000
Subject: [PATCH 138/165] fix: seeking beyond the end of a connection does not
 loop forever

---
 src/eckit/io/TCPSocketHandle.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/TCPSocketHandle.cc b/src/eckit/io/TCPSocketHandle.cc
index 77cc75f..9d30a91 100644
--- a/src/eckit/io/TCPSocketHandle.cc
+++ b/src/eckit/io/TCPSocketHandle.cc
@@ -70,7 +70,9 @@ Offset InstantTCPSocketHandle::seek(const Offset& o) {
 
     while (position_ < o) {
         char c[10240];
-        read(c, std::min(sizeof(c), size_t(o - position_)));
+        if (read(c, std::min(sizeof(c), size_t(o - position_))) <= 0) {
+            throw ShortFile("InstantTCPSocketHandle::seek", Here());
+        }
     }
 
     return o;
-- 
2.43.0


From 232de8ffc995e53bbbf5180ca5ed96ce0400b059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:52 +0000
Subject: [PATCH 139/165] fix: a TCPSocketHandle uses the socket it has taken

---
 src/eckit/io/TCPSocketHandle.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/io/TCPSocketHandle.cc b/src/eckit/io/TCPSocketHandle.cc
index 9d30a91..66c56a9 100644
--- a/src/eckit/io/TCPSocketHandle.cc
+++ b/src/eckit/io/TCPSocketHandle.cc
@@ -81,8 +81,8 @@ Offset InstantTCPSocketHandle::seek(const Offset& o) {
 //----------------------------------------------------------------------------------------------------------------------
 
 TCPSocketHandle::TCPSocketHandle(net::TCPSocket& socket) :
-    InstantTCPSocketHandle(socket),
-    socket_(socket)  // Will take onwership
+    InstantTCPSocketHandle(socket_),  // What is read and written is our socket
+    socket_(socket)                   // Will take onwership
 {}
 
 
-- 
2.43.0


From 46b1338ef3c9422d6832cbe4c295cf6dd8862e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:52 +0000
Subject: [PATCH 140/165] fix: the clone of a MultiSocketHandle has its buffer
 size

---
 src/eckit/io/MultiSocketHandle.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/io/MultiSocketHandle.cc b/src/eckit/io/MultiSocketHandle.cc
index c1d1f7a..39a50e0 100644
--- a/src/eckit/io/MultiSocketHandle.cc
+++ b/src/eckit/io/MultiSocketHandle.cc
@@ -88,7 +88,7 @@ void MultiSocketHandle::rewind() {
 }
 
 DataHandle* MultiSocketHandle::clone() const {
-    return new MultiSocketHandle(host_, port_, streams_, messageSize_);
+    return new MultiSocketHandle(host_, port_, streams_, messageSize_, bufferSize_);
 }
 
 std::string MultiSocketHandle::title() const {
-- 
2.43.0


From f629dbe66b7c8835d6e5c5b02c77d6404449a508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:38 +0000
Subject: [PATCH 141/165] fix: the message of a status does not end the status
 line

---
 src/eckit/net/HttpHeader.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/eckit/net/HttpHeader.cc b/src/eckit/net/HttpHeader.cc
index 765542d..a203cb9 100644
--- a/src/eckit/net/HttpHeader.cc
+++ b/src/eckit/net/HttpHeader.cc
@@ -10,6 +10,9 @@
 
 
 #include "eckit/net/HttpHeader.h"
+
+#include <cctype>
+
 #include "eckit/log/Log.h"
 #include "eckit/net/TCPSocket.h"
 #include "eckit/utils/Tokenizer.h"
@@ -176,6 +179,13 @@ const std::string& HttpHeader::type() const {
 void HttpHeader::status(const long code, const std::string& message) {
     statusCode_ = code;
     message_    = message;
+
+    // The message is in the status line, it must not end it
+    for (char& c : message_) {
+        if (std::iscntrl(static_cast<unsigned char>(c))) {
+            c = ' ';
+        }
+    }
 }
 
 void HttpHeader::authenticate(const std::string& login) {
-- 
2.43.0


From 7a616ed9cd4f9646578908372d1991bc51dfca2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:17 +0000
Subject: [PATCH 142/165] fix: FamMap::lock() stole a lock taken after it had
 read the clock

---
 src/eckit/io/fam/FamMap.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/fam/FamMap.cc b/src/eckit/io/fam/FamMap.cc
index dbfb8e0..3c3b9e9 100644
--- a/src/eckit/io/fam/FamMap.cc
+++ b/src/eckit/io/fam/FamMap.cc
@@ -382,7 +382,8 @@ void FamMap<T>::lock() {
 
         // Locked: check for a stale lease.
         const auto held = lock_.fetch<size_type>(0);
-        if (held != 0 && (now - held) > static_cast<size_type>(lock_ttl.count())) {
+        // It may have been taken after 'now' (or by a host whose clock is ahead): that is not stale.
+        if (held != 0 && now > held && (now - held) > static_cast<size_type>(lock_ttl.count())) {
             // Lease expired — attempt to steal.
             if (lock_.compareSwap<size_type>(0, held, now) == held) {
                 Log::warning() << "FamMap::lock(): stale lock detected (held for " << (now - held) << "s > TTL "
-- 
2.43.0


From 8af82bf18f3e9c9aad2c747fc8e6e069c031edda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:17 +0000
Subject: [PATCH 143/165] fix: FamList::pushBack() left its node without the
 predecessor a concurrent pushFront() gave it

---
 src/eckit/io/fam/FamList.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eckit/io/fam/FamList.cc b/src/eckit/io/fam/FamList.cc
index 1cf9970..53d060a 100644
--- a/src/eckit/io/fam/FamList.cc
+++ b/src/eckit/io/fam/FamList.cc
@@ -170,6 +170,11 @@ void FamList::pushBack(const void* data, const size_type length) {
                     const auto old =
                         current.compareSwap(FamListNode::nextOffsetOff(), tail_.offset(), new_object.offset());
                     if (old == tail_.offset()) {
+                        // A concurrent pushFront may have put its node between last_object and us:
+                        // our prev must be the node we are linked after.
+                        if (current.offset() != last_offset) {
+                            new_object.put(current.descriptor(), offsetof(FamListNode, prev));
+                        }
                         break;  // Successfully linked into forward chain
                     }
                     // CAS failed — another node was inserted. Follow the new link.
-- 
2.43.0


From 1ce32c67a597b9a6d2343737de9ca2f77d0c811f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:27 +0000
Subject: [PATCH 144/165] fix: FamList removals left neighbours pointing at
 nodes that are no longer in the list, and marked nodes they did not remove

---
 src/eckit/io/fam/FamList.cc | 46 +++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/eckit/io/fam/FamList.cc b/src/eckit/io/fam/FamList.cc
index 53d060a..e05f356 100644
--- a/src/eckit/io/fam/FamList.cc
+++ b/src/eckit/io/fam/FamList.cc
@@ -31,6 +31,26 @@
 
 namespace eckit {
 
+namespace {
+
+/// Set the prev of a node whose predecessor was unlinked. A concurrent pushFront may have put nodes between 'pred' and
+/// 'node' without seeing that pred is now what precedes node: the prev must be the node whose next is 'node'.
+void relinkPrev(const FamObject& node, FamObject pred) {
+    node.put(pred.descriptor(), offsetof(FamListNode, prev));
+    while (true) {
+        const auto next = FamListNode::getNext(pred);
+        if (next.offset == node.offset() || next.offset == 0) {
+            return;
+        }
+        pred.replaceWith(next);
+        if (FamListNode::getNextOffset(pred) == node.offset()) {
+            node.put(pred.descriptor(), offsetof(FamListNode, prev));
+        }
+    }
+}
+
+}  // namespace
+
 //----------------------------------------------------------------------------------------------------------------------
 
 FamList::FamList(FamRegion region, const Descriptor& desc) :
@@ -214,19 +234,20 @@ void FamList::popFront() {
             return;  // Already empty
         }
 
-        // 1. Logically mark the node as deleted (wait-free flag)
-        FamListNode::mark(first_object);
-
-        // 2. Get the next node after the one we're deleting
+        // 1. Get the next node after the one we're deleting
         const auto next_offset = FamListNode::getNextOffset(first_object);
 
-        // 3. Atomically update head.next to skip over the marked node
+        // 2. Atomically update head.next to skip over the node
         const auto old_offset = head_.compareSwap(FamListNode::nextOffsetOff(), first_offset, next_offset);
         if (old_offset == first_offset) {
             // Success! We've removed the node from the list.
+            // 3. Logically mark the node as deleted (wait-free flag). Not before: had the CAS failed, a node
+            //    that stays in the list would be skipped by its readers.
+            FamListNode::mark(first_object);
+
             // Update the next node's prev pointer to point to head
             auto next_object = region_.proxyObject(next_offset);
-            next_object.put(head_.descriptor(), offsetof(FamListNode, prev));
+            relinkPrev(next_object, region_.proxyObject(head_.offset()));
 
             // Decrement size
             size_.subtract(0, size_type{1});
@@ -256,16 +277,17 @@ void FamList::popBack() {
             return;  // Already empty
         }
 
-        // 1. Logically mark the node as deleted (wait-free flag)
-        FamListNode::mark(last_object);
-
-        // 2. Get the previous node
+        // 1. Get the previous node
         const auto prev_offset = FamListNode::getPrevOffset(last_object);
 
-        // 3. Atomically update tail.prev to point before the marked node
+        // 2. Atomically update tail.prev to point before the node
         const auto old_offset = tail_.compareSwap(FamListNode::prevOffsetOff(), last_offset, prev_offset);
         if (old_offset == last_offset) {
             // Success! We've removed the node from the list.
+            // 3. Logically mark the node as deleted (wait-free flag). Not before: had the CAS failed, a node
+            //    that stays in the list would be skipped by its readers.
+            FamListNode::mark(last_object);
+
             // Update the previous node's next pointer to point to tail
             auto prev_object = region_.proxyObject(prev_offset);
             prev_object.put(tail_.descriptor(), FamListNode::nextOff());
@@ -302,7 +324,7 @@ auto FamList::erase(iterator pos) -> iterator {
         const auto old_next = prev_object.compareSwap(FamListNode::nextOffsetOff(), object.offset(), next_offset);
         if (old_next == object.offset()) {
             // Success! Update next.prev as well
-            next_object.put(prev_object.descriptor(), offsetof(FamListNode, prev));
+            relinkPrev(next_object, std::move(prev_object));
 
             // Update size
             size_.subtract(0, size_type{1});
-- 
2.43.0


From 696b2450b82449718baa499602c6475b0dcc51dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:30 +0000
Subject: [PATCH 145/165] fix: a further execution of an SQL select no longer
 joined the tables a simplified condition had referred to

---
 src/eckit/sql/SQLSelect.cc | 11 +++++++++++
 src/eckit/sql/SQLSelect.h  |  1 +
 2 files changed, 12 insertions(+)

diff --git a/src/eckit/sql/SQLSelect.cc b/src/eckit/sql/SQLSelect.cc
index 49357df..87fa684 100644
--- a/src/eckit/sql/SQLSelect.cc
+++ b/src/eckit/sql/SQLSelect.cc
@@ -161,6 +161,17 @@ void SQLSelect::prepareExecute() {
 
     if (where_) {
         where_->preprepare(*this);
+
+        // Simplifying the condition changes it for good: a further execution still joins the tables it referred to
+        if (whereTables_.empty()) {
+            where_->tables(whereTables_);
+        }
+        for (const SQLTable* table : whereTables_) {
+            if (tablesToFetch_.find(table) == tablesToFetch_.end()) {
+                tablesToFetch_[table] = SelectOneTable(table);
+                allTables_.insert(table);
+            }
+        }
     }
     output_.preprepare(*this);
 
diff --git a/src/eckit/sql/SQLSelect.h b/src/eckit/sql/SQLSelect.h
index fa6616b..27552be 100644
--- a/src/eckit/sql/SQLSelect.h
+++ b/src/eckit/sql/SQLSelect.h
@@ -92,6 +92,7 @@ private:
     SortedTables sortedTables_;
 
     std::shared_ptr<expression::SQLExpression> where_;
+    std::set<const SQLTable*> whereTables_;
     std::shared_ptr<expression::SQLExpression> simplifiedWhere_;
 
     // Cursors provide the environment for the iteration over the tables
-- 
2.43.0


From 035b84532ba89e75a88e70bd68ff19fde9af8436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:30 +0000
Subject: [PATCH 146/165] fix: YAML: '---' inside { } or [ ] is a plain scalar,
 not a document start that never ends

---
 src/eckit/parser/YAMLParser.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eckit/parser/YAMLParser.cc b/src/eckit/parser/YAMLParser.cc
index 62efd4f..15c9d9b 100644
--- a/src/eckit/parser/YAMLParser.cc
+++ b/src/eckit/parser/YAMLParser.cc
@@ -768,7 +768,8 @@ void YAMLParser::loadItem() {
 
             cnt = consumeChars('-');
 
-            switch (cnt) {
+            // Within { } or [ ] there is no document to start
+            switch (cnt == 3 && stop_.size() > 1 ? 0 : cnt) {
                 case 1:
                     item = new YAMLItemEntry(indent + 1);
                     break;
-- 
2.43.0


From 1e86842524225485f67d4f7da8306a79d3385f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:00 +0000
Subject: [PATCH 147/165] fix: mpi::Serial: a message is kept until it is
 copied to its receiver, also after a hundred requests

---
 src/eckit/mpi/Serial.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/eckit/mpi/Serial.cc b/src/eckit/mpi/Serial.cc
index 39f4cb5..8f061be 100644
--- a/src/eckit/mpi/Serial.cc
+++ b/src/eckit/mpi/Serial.cc
@@ -60,9 +60,9 @@ public:
 
     Request operator[](int request) { return requests_[request]; }
 
-    SendRequest& matchingSendRequest(const ReceiveRequest& req) { return matchingSendRequest(req.tag()); }
+    Request matchingSendRequest(const ReceiveRequest& req) { return matchingSendRequest(req.tag()); }
 
-    SendRequest& matchingSendRequest(int tag) {
+    Request matchingSendRequest(int tag) {  // the request is to be kept as long as its buffer is in use
         if (tag == anyTag()) {
             std::map<int, std::deque<Request> >::iterator it = send_.begin();
             for (; it != send_.end(); ++it) {
@@ -70,7 +70,7 @@ public:
                 if (sends.size()) {
                     Request send = sends.front();
                     sends.pop_front();
-                    return send.as<SendRequest>();
+                    return send;
                 }
             }
             throw eckit::Exception("No send requests available", Here());
@@ -79,7 +79,7 @@ public:
         ASSERT(send_[tag].size());
         Request send = send_[tag].front();
         send_[tag].pop_front();
-        return send.as<SendRequest>();
+        return send;
     }
 
     SendRequest* matchNextSendRequest(int tag) {
@@ -211,7 +211,8 @@ Status Serial::wait(Request& req) const {
 
         ReceiveRequest& recvReq = req.as<ReceiveRequest>();
 
-        SendRequest& sendReq = SerialRequestPool::instance().matchingSendRequest(recvReq);
+        Request matching     = SerialRequestPool::instance().matchingSendRequest(recvReq);
+        SendRequest& sendReq = matching.as<SendRequest>();
 
         if (sendReq.count() > 0) {
             ::memcpy(recvReq.buffer(), sendReq.buffer(), sendReq.count() * dataSize[sendReq.type()]);
@@ -388,7 +389,8 @@ void Serial::allToAllv(const void* sendbuf, const int sendcounts[], const int[],
 Status Serial::receive(void* recv, size_t count, Data::Code type, int /*source*/, int tag) const {
     AutoLock<SerialRequestPool> lock(SerialRequestPool::instance());
     ReceiveRequest recv_request(recv, count, type, tag);
-    SendRequest& send = SerialRequestPool::instance().matchingSendRequest(recv_request);
+    Request matching  = SerialRequestPool::instance().matchingSendRequest(recv_request);
+    SendRequest& send = matching.as<SendRequest>();
     if (tag != anyTag()) {
         ASSERT(tag == send.tag());
     }
@@ -411,7 +413,8 @@ Status Serial::sendReceiveReplace(void* sendrecv, size_t count, Data::Code type,
     AutoLock<SerialRequestPool> lock(SerialRequestPool::instance());
     SerialRequestPool::instance().createSendRequest(sendrecv, count, type, sendtag);
     ReceiveRequest recv_request(sendrecv, count, type, recvtag);
-    SendRequest& send = SerialRequestPool::instance().matchingSendRequest(recv_request);
+    Request matching  = SerialRequestPool::instance().matchingSendRequest(recv_request);
+    SendRequest& send = matching.as<SendRequest>();
     if (recvtag != anyTag()) {
         ASSERT(recvtag == send.tag());
     }
-- 
2.43.0


From 9a11bfe1fab75197f4331a15ccb4c759e62b81ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:00 +0000
Subject: [PATCH 148/165] fix: mpi::Serial: a message longer than the buffer of
 a non-blocking receive is refused

---
 src/eckit/mpi/Serial.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eckit/mpi/Serial.cc b/src/eckit/mpi/Serial.cc
index 8f061be..c12cad7 100644
--- a/src/eckit/mpi/Serial.cc
+++ b/src/eckit/mpi/Serial.cc
@@ -214,6 +214,8 @@ Status Serial::wait(Request& req) const {
         Request matching     = SerialRequestPool::instance().matchingSendRequest(recvReq);
         SendRequest& sendReq = matching.as<SendRequest>();
 
+        ASSERT(sendReq.count() <= recvReq.count());
+
         if (sendReq.count() > 0) {
             ::memcpy(recvReq.buffer(), sendReq.buffer(), sendReq.count() * dataSize[sendReq.type()]);
         }
-- 
2.43.0


From aba21a03f503d618b29c3524e47b8c6c2bc3525b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:00 +0000
Subject: [PATCH 149/165] fix: mpi::Serial: messages are received in the order
 sent, whatever their tag, and iProbe of a tag without messages finds none

---
 src/eckit/mpi/Serial.cc | 52 +++++++++++++----------------------------
 1 file changed, 16 insertions(+), 36 deletions(-)

diff --git a/src/eckit/mpi/Serial.cc b/src/eckit/mpi/Serial.cc
index c12cad7..5feb213 100644
--- a/src/eckit/mpi/Serial.cc
+++ b/src/eckit/mpi/Serial.cc
@@ -13,6 +13,7 @@
 #include <unistd.h>
 #include <cerrno>
 
+#include <algorithm>
 #include <cstring>
 #include <deque>
 #include <limits>
@@ -49,7 +50,7 @@ public:
 
     Request createSendRequest(const void* buffer, size_t count, Data::Code type, int tag) {
         Request r = registerRequest(new SendRequest(buffer, count, type, tag));
-        send_[tag].push_back(r);
+        send_.push_back(r);
         return r;
     }
 
@@ -63,46 +64,18 @@ public:
     Request matchingSendRequest(const ReceiveRequest& req) { return matchingSendRequest(req.tag()); }
 
     Request matchingSendRequest(int tag) {  // the request is to be kept as long as its buffer is in use
-        if (tag == anyTag()) {
-            std::map<int, std::deque<Request> >::iterator it = send_.begin();
-            for (; it != send_.end(); ++it) {
-                std::deque<Request>& sends = it->second;
-                if (sends.size()) {
-                    Request send = sends.front();
-                    sends.pop_front();
-                    return send;
-                }
-            }
+        auto it = findSendRequest(tag);
+        if (it == send_.end()) {
             throw eckit::Exception("No send requests available", Here());
         }
-        ASSERT(send_.count(tag) > 0);
-        ASSERT(send_[tag].size());
-        Request send = send_[tag].front();
-        send_[tag].pop_front();
+        Request send = *it;
+        send_.erase(it);
         return send;
     }
 
     SendRequest* matchNextSendRequest(int tag) {
-        Request send;
-        if (tag == anyTag()) {
-            for (const auto& item : send_) {
-                const auto& sends = item.second;
-                if (sends.size()) {
-                    send = sends.front();
-                    return &send.as<SendRequest>();
-                }
-            }
-            return nullptr;
-        }
-
-        ASSERT(send_.count(tag) > 0);
-        ASSERT(send_[tag].size());
-        if (send_.find(tag) != end(send_)) {
-            send = send_.at(tag).front();
-            return &send.as<SendRequest>();
-        }
-
-        return nullptr;
+        auto it = findSendRequest(tag);
+        return it == send_.end() ? nullptr : &it->as<SendRequest>();
     }
 
     void lock() { mutex_.lock(); }
@@ -112,6 +85,12 @@ public:
 
 private:
 
+    std::deque<Request>::iterator findSendRequest(int tag) {
+        return std::find_if(send_.begin(), send_.end(), [tag](Request& r) {
+            return tag == anyTag() || r.as<SendRequest>().tag() == tag;
+        });
+    }
+
     Request registerRequest(SerialRequest* request) {
         ++n_;
         if (size_t(n_) == requests_.size()) {
@@ -132,7 +111,7 @@ private:
 
     std::vector<Request> requests_;
 
-    std::map<int, std::deque<Request> > send_;
+    std::deque<Request> send_;  // in the order they were sent
 
     int n_;
 
@@ -264,6 +243,7 @@ Status Serial::probe(int source, int tag) const {
     SendRequest* req = nullptr;
     while (not req) {
         req = SerialRequestPool::instance().matchNextSendRequest(tag);
+        ASSERT(req || tag == anyTag());
     }
     (*st).count_  = req->count();
     (*st).tag_    = req->tag();
-- 
2.43.0


From 18260804377d5ed66bad14b29fa0fa3332f408d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:00 +0000
Subject: [PATCH 150/165] fix: mpi::Serial: gatherv, scatterv, allGatherv and
 allToAllv honour the displacements

---
 src/eckit/mpi/Serial.cc | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/eckit/mpi/Serial.cc b/src/eckit/mpi/Serial.cc
index 5feb213..7a67e31 100644
--- a/src/eckit/mpi/Serial.cc
+++ b/src/eckit/mpi/Serial.cc
@@ -307,17 +307,17 @@ void Serial::scatter(const void* sendbuf, size_t, void* recvbuf, size_t recvcoun
     }
 }
 
-void Serial::gatherv(const void* sendbuf, size_t sendcount, void* recvbuf, const int[], const int[], Data::Code type,
+void Serial::gatherv(const void* sendbuf, size_t sendcount, void* recvbuf, const int[], const int displs[], Data::Code type,
                      size_t) const {
     if (recvbuf != sendbuf && sendcount > 0) {
-        memcpy(recvbuf, sendbuf, sendcount * dataSize[type]);
+        memcpy(static_cast<char*>(recvbuf) + displs[0] * dataSize[type], sendbuf, sendcount * dataSize[type]);
     }
 }
 
-void Serial::scatterv(const void* sendbuf, const int[], const int[], void* recvbuf, size_t recvcount, Data::Code type,
+void Serial::scatterv(const void* sendbuf, const int[], const int displs[], void* recvbuf, size_t recvcount, Data::Code type,
                       size_t) const {
     if (recvbuf != sendbuf && recvcount > 0) {
-        memcpy(recvbuf, sendbuf, recvcount * dataSize[type]);
+        memcpy(recvbuf, static_cast<const char*>(sendbuf) + displs[0] * dataSize[type], recvcount * dataSize[type]);
     }
 }
 
@@ -348,10 +348,10 @@ void Serial::allGather(const void* sendbuf, size_t sendcount, void* recvbuf, siz
     }
 }
 
-void Serial::allGatherv(const void* sendbuf, size_t sendcount, void* recvbuf, const int[], const int[],
+void Serial::allGatherv(const void* sendbuf, size_t sendcount, void* recvbuf, const int[], const int displs[],
                         Data::Code type) const {
     if (recvbuf != sendbuf && sendcount > 0) {
-        memcpy(recvbuf, sendbuf, sendcount * dataSize[type]);
+        memcpy(static_cast<char*>(recvbuf) + displs[0] * dataSize[type], sendbuf, sendcount * dataSize[type]);
     }
 }
 
@@ -361,10 +361,11 @@ void Serial::allToAll(const void* sendbuf, size_t sendcount, void* recvbuf, size
     }
 }
 
-void Serial::allToAllv(const void* sendbuf, const int sendcounts[], const int[], void* recvbuf, const int[],
-                       const int[], Data::Code type) const {
+void Serial::allToAllv(const void* sendbuf, const int sendcounts[], const int sdispls[], void* recvbuf, const int[],
+                       const int rdispls[], Data::Code type) const {
     if (recvbuf != sendbuf && sendcounts[0] > 0) {
-        memcpy(recvbuf, sendbuf, sendcounts[0] * dataSize[type]);
+        memcpy(static_cast<char*>(recvbuf) + rdispls[0] * dataSize[type],
+               static_cast<const char*>(sendbuf) + sdispls[0] * dataSize[type], sendcounts[0] * dataSize[type]);
     }
 }
 
-- 
2.43.0


From fe4ef61de99b180d8a126c378218863d3fc92ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:05 +0000
Subject: [PATCH 151/165] fix: mpi::Serial: the request of iBarrier can be
 waited for

---
 src/eckit/mpi/Serial.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eckit/mpi/Serial.cc b/src/eckit/mpi/Serial.cc
index 7a67e31..524a77c 100644
--- a/src/eckit/mpi/Serial.cc
+++ b/src/eckit/mpi/Serial.cc
@@ -59,6 +59,8 @@ public:
         return registerRequest(request);
     }
 
+    Request createBarrierRequest() { return registerRequest(new SendRequest(nullptr, 0, Data::BYTE, anyTag())); }
+
     Request operator[](int request) { return requests_[request]; }
 
     Request matchingSendRequest(const ReceiveRequest& req) { return matchingSendRequest(req.tag()); }
@@ -149,7 +151,8 @@ void Serial::barrier() const {
 }
 
 Request Serial::iBarrier() const {
-    return Request();
+    AutoLock<SerialRequestPool> lock(SerialRequestPool::instance());
+    return SerialRequestPool::instance().createBarrierRequest();
 }
 
 Comm& Serial::split(int /*color*/, const std::string& name) const {
-- 
2.43.0


From 040de7a5f736ddbcda384d889ae2b3e302b587eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:33 +0000
Subject: [PATCH 152/165] fix: an empty text is not an hour, and no reason to
 crash

---
 src/eckit/types/Hour.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eckit/types/Hour.cc b/src/eckit/types/Hour.cc
index ebc6b9e..f9910b0 100644
--- a/src/eckit/types/Hour.cc
+++ b/src/eckit/types/Hour.cc
@@ -40,6 +40,10 @@ Hour::Hour(const std::string& s) {
     parse(s, result);
     bool error = false;
 
+    if (result.empty()) {
+        throw BadHour(std::string("Invalid hour '") + s + "'");
+    }
+
     if (result.size() > 3) {
         error = true;
     }
-- 
2.43.0


From 935c40e12765dca06a4e1cdf69e8c12cdbe44a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:13 +0000
Subject: [PATCH 153/165] fix: FamMap::find() missed a key that was assigned to
 meanwhile

---
 src/eckit/io/fam/FamMap.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/eckit/io/fam/FamMap.cc b/src/eckit/io/fam/FamMap.cc
index 3c3b9e9..d01143d 100644
--- a/src/eckit/io/fam/FamMap.cc
+++ b/src/eckit/io/fam/FamMap.cc
@@ -70,13 +70,20 @@ FamMap<T>::FamMap(std::string name, FamRegion region) :
 
 template <typename T>
 FamListIterator FamMap<T>::findInBucket(const FamList& bucket, const key_type& key) {
-    for (auto iter = bucket.begin(); iter != bucket.end(); ++iter) {
-        const auto& buffer = *iter;
-        if (buffer.size() >= key_size && entry_type::decodeKey(buffer) == key) {
-            return iter;
+    while (true) {
+        const auto first = bucket.begin();
+        for (auto iter = bucket.begin(); iter != bucket.end(); ++iter) {
+            const auto& buffer = *iter;
+            if (buffer.size() >= key_size && entry_type::decodeKey(buffer) == key) {
+                return iter;
+            }
+        }
+        // Entries are pushed to the front: an entry replaced meanwhile (see insertOrAssign) is ahead of where
+        // this search began, and its predecessor may be erased before it was met.
+        if (bucket.begin() == first) {
+            return bucket.end();
         }
     }
-    return bucket.end();
 }
 
 template <typename T>
-- 
2.43.0


From 9bd5d18166a4aa24a753c72d410cb06dc0dd7442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:24 +0000
Subject: [PATCH 154/165] fix: TCPTransport: a message larger than a megabyte
 reaches its worker

---
 src/eckit/distributed/tcp/TCPTransport.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/distributed/tcp/TCPTransport.cc b/src/eckit/distributed/tcp/TCPTransport.cc
index 4021376..3ec11ac 100644
--- a/src/eckit/distributed/tcp/TCPTransport.cc
+++ b/src/eckit/distributed/tcp/TCPTransport.cc
@@ -239,7 +239,7 @@ void TCPTransport::getNextWorkMessage(Message& message) {
 
         case Actor::WORK:
             connection >> size;
-            ASSERT(size <= message.bufferSize());
+            message.reserve(size);
             connection.readBlob(message.messageData(), size);
             break;
 
-- 
2.43.0


From 406990b422c9b90aa281a7075d68973afcdd8244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:50 +0000
Subject: [PATCH 155/165] fix: FilePool: a thread could wait forever for a file
 that was checked in

---
 src/eckit/io/FilePool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/io/FilePool.cc b/src/eckit/io/FilePool.cc
index bcd689c..ae639b5 100644
--- a/src/eckit/io/FilePool.cc
+++ b/src/eckit/io/FilePool.cc
@@ -79,7 +79,7 @@ void FilePool::checkin(DataHandle* handle) {
         if (itr->second == handle) {
             cache_.insert(itr->first, itr->second);
             inUse_.erase(itr);
-            cond_.signal();
+            cond_.broadcast();  // not all who wait wait for this file
             return;
         }
     }
-- 
2.43.0


From 6f97f52a0f8fe52065d7bd7638ef0164bd50ba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:47 +0000
Subject: [PATCH 156/165] fix: ClusterDisks::node() took a path to be on every
 disk whose name it begins with

---
 src/eckit/io/cluster/ClusterDisks.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/cluster/ClusterDisks.cc b/src/eckit/io/cluster/ClusterDisks.cc
index 54dd66b..e5d1fce 100644
--- a/src/eckit/io/cluster/ClusterDisks.cc
+++ b/src/eckit/io/cluster/ClusterDisks.cc
@@ -81,6 +81,13 @@ public:
     const char* type() const { return type_; }
     const char* path() const { return path_; }
 
+    /// The path is on this disk: "/data1/x" is on "/data1", and "/data10/x" is not
+    bool holds(const std::string& path) const {
+        const size_t len = ::strlen(path_);
+        return path.compare(0, len, path_) == 0 &&
+               (path.length() == len || (len > 0 && path_[len - 1] == '/') || path[len] == '/');
+    }
+
     friend std::ostream& operator<<(std::ostream&, const ClusterDisk&);
 
     void json(JSON& s) const {
@@ -390,7 +397,7 @@ std::string ClusterDisks::node(const std::string& path) {
 
     AutoLock<DiskArray> lock(*clusterDisks);
     for (DiskArray::const_iterator k = clusterDisks->begin(); k != clusterDisks->end(); ++k) {
-        if ((*k).active() && (path.find((*k).path()) == 0)) {
+        if ((*k).active() && (*k).holds(path)) {
             if (j != clusterDisks->end()) {
                 std::ostringstream os;
                 os << "Two nodes found for [" << path << "] "
-- 
2.43.0


From 1ff0762eb59b83b3b52923ea2893840c235b9d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:05 +0000
Subject: [PATCH 157/165] fix: ClusterDisks: update() after receive() knew a
 disk twice or gave up

---
 src/eckit/io/cluster/ClusterDisks.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eckit/io/cluster/ClusterDisks.cc b/src/eckit/io/cluster/ClusterDisks.cc
index e5d1fce..9f4dd5e 100644
--- a/src/eckit/io/cluster/ClusterDisks.cc
+++ b/src/eckit/io/cluster/ClusterDisks.cc
@@ -471,6 +471,7 @@ void ClusterDisks::receive(Stream& s) {
 
     AutoLock<DiskArray> lock(*clusterDisks);
     for (ClusterDisk& disk : *clusterDisks) {
+        disk = ClusterDisk("", "", "");
         disk.active(false);
     }
 
@@ -489,6 +490,9 @@ void ClusterDisks::receive(Stream& s) {
 
         ++k;
     }
+
+    // update() expects the disks in order, and the free entries first
+    std::sort(clusterDisks->begin(), clusterDisks->end());
 }
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 2ab960efdad5dd9ed16e9130cb5b61c2fbfee2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:51 +0000
Subject: [PATCH 158/165] fix: ClusterNodes: sorting nodes of more than one
 type could crash

---
 src/eckit/io/cluster/ClusterNodes.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/eckit/io/cluster/ClusterNodes.cc b/src/eckit/io/cluster/ClusterNodes.cc
index 31defb7..adc801b 100644
--- a/src/eckit/io/cluster/ClusterNodes.cc
+++ b/src/eckit/io/cluster/ClusterNodes.cc
@@ -76,13 +76,10 @@ public:
     }
 
     bool operator<(const ClusterNodeEntry& other) const {
-        if (strcmp(node_, other.node_) < 0) {
-            return true;
-        }
-        if (strcmp(type_, other.type_) < 0) {
-            return true;
+        if (int cmp = strcmp(node_, other.node_); cmp != 0) {
+            return cmp < 0;
         }
-        return false;
+        return strcmp(type_, other.type_) < 0;
     }
 
     void send(Stream& s) const {
-- 
2.43.0


From 4c162d0ba584c0110745545d9cd0c4fea14d97f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:34 +0000
Subject: [PATCH 159/165] fix: Exporter: an export of more than one database
 could not be read

---
 src/eckit/persist/Exporter.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eckit/persist/Exporter.cc b/src/eckit/persist/Exporter.cc
index 1b47275..76b5483 100644
--- a/src/eckit/persist/Exporter.cc
+++ b/src/eckit/persist/Exporter.cc
@@ -373,9 +373,10 @@ bool Exporter::nextDatabase(std::string& name, unsigned long long& id, unsigned
     ASSERT(tag == TAG_START_DATABASE);
 
     if (tag == TAG_START_DATABASE) {
-        name  = readString();
-        id    = readUnsigned();
-        count = readUnsigned();
+        name         = readString();
+        id           = readUnsigned();
+        count        = readUnsigned();
+        objectCount_ = 0;
     }
     return true;  // should only exit with (tag == TAG_START_DATABASE)
 }
-- 
2.43.0


From 6fc0d852ebdf8b7d13d34fdc29f87d029fe513eb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 07:36:08 +0000
Subject: [PATCH 160/165] fix: geo::util::reverse() returned what it was given

---
 src/eckit/geo/util/reverse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/geo/util/reverse.cc b/src/eckit/geo/util/reverse.cc
index fb1f127..25c9de4 100644
--- a/src/eckit/geo/util/reverse.cc
+++ b/src/eckit/geo/util/reverse.cc
@@ -21,7 +21,7 @@ std::vector<double> reverse(const std::vector<double>& v) {
     std::vector<double> flipped(v.size());
     std::reverse_copy(v.begin(), v.end(), flipped.begin());
 
-    return v;
+    return flipped;
 }
 
 
-- 
2.43.0


From 60f7de5255b8abeb3062d709afe7faab3be4b4d8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 07:36:08 +0000
Subject: [PATCH 161/165] fix: geo: a thread was given values that another one
 had not finished to keep

---
 src/eckit/geo/cache/MemoryCache.h                 | 12 +++++++++++-
 src/eckit/geo/grid/reduced/HEALPix.cc             |  2 +-
 src/eckit/geo/util/gaussian_latitudes.cc          |  2 +-
 src/eckit/geo/util/gaussian_quadrature_weights.cc |  2 +-
 src/eckit/geo/util/linspace.cc                    |  6 +++---
 src/eckit/geo/util/reduced_classical_pl.cc        |  2 +-
 src/eckit/geo/util/reduced_octahedral_pl.cc       |  2 +-
 7 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/eckit/geo/cache/MemoryCache.h b/src/eckit/geo/cache/MemoryCache.h
index 7972c43..4dcf7b3 100644
--- a/src/eckit/geo/cache/MemoryCache.h
+++ b/src/eckit/geo/cache/MemoryCache.h
@@ -14,6 +14,7 @@
 
 #include <map>
 #include <numeric>
+#include <utility>
 
 #include "eckit/geo/Exceptions.h"
 #include "eckit/geo/util/mutex.h"
@@ -84,6 +85,12 @@ public:
         return container_[key];
     }
 
+    /// Keeps a value, unless there is one already (of another thread, say): that one stays where it is
+    const value_type& insert(const key_type& key, value_type&& value) {
+        util::lock_guard<util::recursive_mutex> lock(*mutex_);
+        return container_.try_emplace(key, std::move(value)).first->second;
+    }
+
     bytes_size_t footprint() const final {
         util::lock_guard<util::recursive_mutex> lock(*mutex_);
         return std::accumulate(container_.begin(), container_.end(), static_cast<bytes_size_t>(0),
@@ -92,7 +99,10 @@ public:
                                });
     }
 
-    void purge() final { container_.clear(); }
+    void purge() final {
+        util::lock_guard<util::recursive_mutex> lock(*mutex_);
+        container_.clear();
+    }
 
 private:
 
diff --git a/src/eckit/geo/grid/reduced/HEALPix.cc b/src/eckit/geo/grid/reduced/HEALPix.cc
index ce98518..de31ad3 100644
--- a/src/eckit/geo/grid/reduced/HEALPix.cc
+++ b/src/eckit/geo/grid/reduced/HEALPix.cc
@@ -57,7 +57,7 @@ const std::vector<double>& healpix_longitudes(size_t Nside, size_t j) {
     std::generate_n(lons.begin(), Ni,
                     [start, step, n = 0ULL]() mutable { return start + static_cast<double>(n++) * step; });
 
-    return (cache[key] = std::move(lons));
+    return cache.insert(key, std::move(lons));
 }
 
 
diff --git a/src/eckit/geo/util/gaussian_latitudes.cc b/src/eckit/geo/util/gaussian_latitudes.cc
index 72b3f7c..e75df47 100644
--- a/src/eckit/geo/util/gaussian_latitudes.cc
+++ b/src/eckit/geo/util/gaussian_latitudes.cc
@@ -110,7 +110,7 @@ const std::vector<double>& gaussian_latitudes(size_t N, bool increasing) {
     }
 
 
-    return (cache[key] = std::move(lats));
+    return cache.insert(key, std::move(lats));
 }
 
 
diff --git a/src/eckit/geo/util/gaussian_quadrature_weights.cc b/src/eckit/geo/util/gaussian_quadrature_weights.cc
index 1115b26..6c61e8b 100644
--- a/src/eckit/geo/util/gaussian_quadrature_weights.cc
+++ b/src/eckit/geo/util/gaussian_quadrature_weights.cc
@@ -110,7 +110,7 @@ const std::vector<double>& gaussian_quadrature_weights(size_t N) {
     }
 
 
-    return (cache[key] = std::move(weights));
+    return cache.insert(key, std::move(weights));
 }
 
 
diff --git a/src/eckit/geo/util/linspace.cc b/src/eckit/geo/util/linspace.cc
index 16a1c37..de95168 100644
--- a/src/eckit/geo/util/linspace.cc
+++ b/src/eckit/geo/util/linspace.cc
@@ -30,11 +30,11 @@ const std::vector<double>& linspace(double start, double stop, size_t num) {
     }
 
     if (num == 0) {
-        return (cache[key] = {});
+        return cache.insert(key, {});
     }
 
     if (num == 1 || types::is_approximately_equal(start, stop)) {
-        return (cache[key] = {start});
+        return cache.insert(key, {start});
     }
 
     const auto step = (stop - start) / static_cast<double>(num - 1);
@@ -43,7 +43,7 @@ const std::vector<double>& linspace(double start, double stop, size_t num) {
     std::generate_n(l.begin(), num,
                     [start, step, n = 0ULL]() mutable { return start + static_cast<double>(n++) * step; });
 
-    return (cache[key] = std::move(l));
+    return cache.insert(key, std::move(l));
 }
 
 
diff --git a/src/eckit/geo/util/reduced_classical_pl.cc b/src/eckit/geo/util/reduced_classical_pl.cc
index e0d78a1..c5d9eed 100644
--- a/src/eckit/geo/util/reduced_classical_pl.cc
+++ b/src/eckit/geo/util/reduced_classical_pl.cc
@@ -1359,7 +1359,7 @@ const pl_type& reduced_classical_pl(size_t N) {
         pl[i] = pl[j] = *p++;
     }
 
-    return (cache[N] = std::move(pl));
+    return cache.insert(N, std::move(pl));
 }
 
 
diff --git a/src/eckit/geo/util/reduced_octahedral_pl.cc b/src/eckit/geo/util/reduced_octahedral_pl.cc
index 3caa240..6781ec1 100644
--- a/src/eckit/geo/util/reduced_octahedral_pl.cc
+++ b/src/eckit/geo/util/reduced_octahedral_pl.cc
@@ -31,7 +31,7 @@ const pl_type& reduced_octahedral_pl(size_t N) {
         p += 4;
     }
 
-    return (cache[N] = std::move(pl));
+    return cache.insert(N, std::move(pl));
 }
 
 
-- 
2.43.0


From 51ad79545b42b05fb99dd059c8a80a914fc0eacf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 07:36:32 +0000
Subject: [PATCH 162/165] fix: geo: a record that could not be loaded was kept
 empty

---
 src/eckit/geo/cache/RecordCache.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eckit/geo/cache/RecordCache.h b/src/eckit/geo/cache/RecordCache.h
index 6fc44e1..e0a304f 100644
--- a/src/eckit/geo/cache/RecordCache.h
+++ b/src/eckit/geo/cache/RecordCache.h
@@ -64,10 +64,11 @@ public:
             return cache_[key];
         }
 
-        auto& record = cache_[key];
+        // nothing is kept of a record that cannot be loaded
+        value_type record;
         loader_.load(key, record);
 
-        return record;
+        return cache_.insert(key, std::move(record));
     }
 
     const value_type& set(const key_type& key, value_type&& record) {
-- 
2.43.0


From e997702d3e2c6b2d10ff1dcd7fbf8cd28d9235fd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 07:38:36 +0000
Subject: [PATCH 163/165] fix: CSVParser: an empty last field took the next
 line with it, and blank lines at the end were a line

---
 src/eckit/parser/CSVParser.cc | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/eckit/parser/CSVParser.cc b/src/eckit/parser/CSVParser.cc
index a077763..4bbf750 100644
--- a/src/eckit/parser/CSVParser.cc
+++ b/src/eckit/parser/CSVParser.cc
@@ -70,20 +70,6 @@ Value CSVParser::parse() {
 }
 
 Value CSVParser::nextItem(bool& comma) {
-    for (;;) {
-        int c = peek(true);
-
-        if (c == 0) {
-            break;
-        }
-
-        if (c != '\n' && c != '\r') {
-            break;
-        }
-
-        next(true);
-    }
-
     std::string result;
     comma = false;
 
@@ -102,7 +88,13 @@ Value CSVParser::nextItem(bool& comma) {
 
 ValueList CSVParser::nextLine() {
     ValueList result;
-    bool more = true;
+
+    // blank lines are no lines; none is left at the end of the text
+    while (peek(true) == '\n') {
+        next(true);
+    }
+
+    bool more = peek(true) != 0;
     while (more) {
         auto x = nextItem(more);
         result.push_back(x);
-- 
2.43.0


From b5df6a94e75ba63af80afdf811c574d847db6aaf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 07:39:57 +0000
Subject: [PATCH 164/165] fix: StreamParser: a carriage return at the end of a
 text could not be read

---
 src/eckit/parser/StreamParser.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/eckit/parser/StreamParser.cc b/src/eckit/parser/StreamParser.cc
index 9c93a2b..e30338f 100644
--- a/src/eckit/parser/StreamParser.cc
+++ b/src/eckit/parser/StreamParser.cc
@@ -37,8 +37,13 @@ char StreamParser::_get() {
     if (c == '\n' || c == '\r') {
         line_++;
         pos_ = 0;
-        if (c == '\r' && in_.peek() == '\n') {
-            in_.get(c);
+        if (c == '\r') {
+            if (in_.peek() == '\n') {
+                in_.get(c);
+            }
+            else if (in_.eof()) {
+                in_.clear(in_.rdstate() & ~std::ios::eofbit);  // this character was not beyond the end
+            }
         }
     }
     return c;
-- 
2.43.0


From 8a2c47567d81609684a635c1f7e1f44c4dc50ac9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 07:48:12 +0000
Subject: [PATCH 165/165] fix: Metrics: a group within a group lost what was
 set before it in the same item

---
 src/eckit/runtime/Metrics.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/eckit/runtime/Metrics.cc b/src/eckit/runtime/Metrics.cc
index 9bed26f..92d2a0e 100644
--- a/src/eckit/runtime/Metrics.cc
+++ b/src/eckit/runtime/Metrics.cc
@@ -248,9 +248,14 @@ void MetricsCollector::pop() {
         if (stackIndex_ > 0) {  // it was a nested group
             auto& newss = stack_[stackIndex_ - 1];
 
-            Value top             = Value::makeOrderedMap();
-            top[ss.groupFullName] = ss.groupValues;
-            newss.groupNextValue  = cleanPaths(top);
+            // keep what else was set in the item, and earlier groups of that name
+            if (!newss.groupNextValue.contains(ss.groupFullName)) {
+                newss.groupNextValue[ss.groupFullName] = Value::makeList();
+            }
+            ValueList ll = ss.groupValues;
+            for (const auto& v : ll) {
+                newss.groupNextValue[ss.groupFullName].append(v);
+            }
         }
         else {  // top level group - update metrics
             if (!metrics_.contains(ss.groupFullName)) {
-- 
2.43.0

