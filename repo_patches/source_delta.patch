From fe44f7812b9264937050cfa7a2dde3637bb17f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:15 +0000
Subject: [PATCH 01/69] fix: recognise signs by a proper character class in
 is_int and is_float

The bracket expression [(-|+)|] is the range '(' to '|': it took most
characters, digits included, as the leading one, so a12 was an integer
and 10, 100.5 and -0.5 were no floating-point numbers.
---
 include/utils/StringUtils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utils/StringUtils.h b/include/utils/StringUtils.h
index 1b0d998..824ac0d 100644
--- a/include/utils/StringUtils.h
+++ b/include/utils/StringUtils.h
@@ -7,11 +7,11 @@
 bool is_int(const std::string & s){
     return !s.empty() &&
            ((s.size() == 1 && std::isdigit(s[0]))
-           || std::regex_match(s, std::regex("[(-|+)|][0-9]+")));
+           || std::regex_match(s, std::regex("[-+]?[0-9]+")));
 }
 
 bool is_float(const std::string & s){
     return !s.empty() && (
            (s.size() == 1 && std::isdigit(s[0]))
-           || std::regex_match(s, std::regex("[(-|+)|](([1-9][0-9]*\\.?[0-9]*)|(\\.[0-9]+))([Ee][+-]?[0-9]+)?")));
+           || std::regex_match(s, std::regex("[-+]?(([0-9]+\\.?[0-9]*)|(\\.[0-9]+))([Ee][+-]?[0-9]+)?")));
 }
\ No newline at end of file
-- 
2.43.0


From 6addbd635078b40b320ac1cca384e04829f9408d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:41 +0000
Subject: [PATCH 02/69] fix: increment experiment counters atomically

Counters live in a concurrent map and are incremented from parallel
regions, but the increment itself was a plain read-modify-write and
lost updates.
---
 include/utils/Timings.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/utils/Timings.h b/include/utils/Timings.h
index 530411c..44eee58 100644
--- a/include/utils/Timings.h
+++ b/include/utils/Timings.h
@@ -90,7 +90,8 @@ public:
     tMeasurement avgMeasurement(const std::string &name) const;
 
     void incCounter(const std::string &name, const tMeasurement &value = 1) {
-        m_counters[name] += value;
+        // counters are shared between threads
+        __atomic_fetch_add(&m_counters[name], value, __ATOMIC_RELAXED);
     }
 
     const auto &counters() const {
-- 
2.43.0


From f42ffe6d814bfbf2f9b5741d11d9d29208d662d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:41 +0000
Subject: [PATCH 03/69] fix: parse experiment traits with empty values

The trait separator was searched from the start of the trait, so with
the default separators the blank of ': ' together with the separator
was taken for the end of an empty value.
---
 src/utils/Timings.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/Timings.cpp b/src/utils/Timings.cpp
index 5066629..a6671ea 100644
--- a/src/utils/Timings.cpp
+++ b/src/utils/Timings.cpp
@@ -25,7 +25,8 @@ ExperimentRun::ExperimentRun(const std::string &run, std::string _traitSep, std:
 
     while (currPos < run.length()) {
         innerSep = run.find(_innerSep, currPos);
-        traitSep = run.find(_traitSep, currPos);
+        // the separator ends the value, it can only be found behind the inner separator
+        traitSep = run.find(_traitSep, innerSep + _innerSep.length());
 
         //we have the last trait in the string
         traitSep = traitSep != std::string::npos ? traitSep : run.length() + 1;
-- 
2.43.0


From 0b5a4af3d34f0859ecae981b019a231494232b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:41 +0000
Subject: [PATCH 04/69] fix: leave ignored fields out of the trait count when
 comparing runs

Runs differing only in the presence of fields that comparison is meant
to ignore (start-time, run-number, ...) compared as different.
---
 src/utils/Timings.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/utils/Timings.cpp b/src/utils/Timings.cpp
index a6671ea..9cae361 100644
--- a/src/utils/Timings.cpp
+++ b/src/utils/Timings.cpp
@@ -77,7 +77,14 @@ ExperimentRun::tMeasurement ExperimentRun::avgMeasurement(const std::string &nam
 
 bool ExperimentRun::operator==(const ExperimentRun &o) const {
 
-    if (m_traits.size() != o.m_traits.size())
+    // number of traits to compare, without the ignored fields
+    auto relevantTraits = [](const ExperimentRun &r) {
+        return std::count_if(r.m_traits.begin(), r.m_traits.end(), [](const auto &t) {
+            return std::find(c_ignored_fields.begin(), c_ignored_fields.end(), t.first) == c_ignored_fields.end();
+        });
+    };
+
+    if (relevantTraits(*this) != relevantTraits(o))
         return false;
 
     bool eq = true;
-- 
2.43.0


From 7accfb38e81546b89a243a978b971087294b1379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:41 +0000
Subject: [PATCH 05/69] fix: use an unsigned index in the static insertion sort

Arrays are admitted up to 2^16 - 2 elements, but the hole index was a
signed short and became negative above 2^15 - 1.
---
 include/utils/StaticSort.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utils/StaticSort.h b/include/utils/StaticSort.h
index 1825da9..762dfaa 100644
--- a/include/utils/StaticSort.h
+++ b/include/utils/StaticSort.h
@@ -9,7 +9,7 @@ void static_insertion_sort(std::array<T, N> &arr) {
 
     for (unsigned short i = 1; i < N; ++i) {
         T value = arr[i];
-        short hole = i;
+        unsigned short hole = i;
 
         for (; hole > 0 && value < arr[hole - 1]; --hole)
             arr[hole] = arr[hole - 1];
@@ -25,7 +25,7 @@ void static_insertion_sort_with_data(std::array<T, N> &arr, std::array<D, N> &da
     for (unsigned short i = 1; i < N; ++i) {
         T value = arr[i];
         D data = dat[i];
-        short hole = i;
+        unsigned short hole = i;
 
         for (; hole > 0 && value < arr[hole - 1]; --hole) {
             arr[hole] = arr[hole - 1];
-- 
2.43.0


From a220a964accc3ab287b435b3dd5c338429abc0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:41 +0000
Subject: [PATCH 06/69] fix: let isPowN test for powers of n

It tested for multiples of n: 12 was a power of 4 and 1 was not.
---
 include/utils/Misc.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/utils/Misc.h b/include/utils/Misc.h
index 88d856f..e6d3bde 100644
--- a/include/utils/Misc.h
+++ b/include/utils/Misc.h
@@ -14,7 +14,14 @@ T isPow2(const T x) {
 
 template<typename T, typename std::enable_if<std::is_unsigned<T>::value>::type * = nullptr>
 T isPowN(const T x, const T n) {
-    return x != 0 && x % n == 0;
+    if (x == 0 || n < 2)
+        return x == 1;
+
+    T r = x;
+    while (r % n == 0)
+        r /= n;
+
+    return r == 1;
 }
 
 template<typename T, typename std::enable_if<std::is_unsigned<T>::value>::type * = nullptr>
-- 
2.43.0


From cba5bdb8df0705718822e59210981709aeb9a1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:12 +0000
Subject: [PATCH 07/69] fix: keep a free cell in the sequential hash tables so
 that lookups end

---
 include/datastructures/LP_Set.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index d096c6d..8efda4f 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -262,7 +262,7 @@ public:
               m_array(nullptr),
               m_hasher(hasher) {
         // Initialize cells
-        m_arraySize = nextPow2(std::max(std::size_t(1), size));
+        m_arraySize = nextPow2(std::max(std::size_t(2), size)); // lookups need a free cell
         ALLOCATE(m_arraySize);
     }
     
@@ -367,7 +367,7 @@ public:
         m_rehashing = true;
 
         std::size_t oldSize = m_arraySize;
-        m_arraySize = nextPow2(newSize);
+        m_arraySize = nextPow2(std::max(std::size_t(2), newSize));
 
         auto oldArray = std::move(m_array);
         m_items = 0;
@@ -400,7 +400,7 @@ public:
         m_rehashing = true;
 
         std::size_t oldSize = m_arraySize;
-        m_arraySize = nextPow2(newSize);
+        m_arraySize = nextPow2(std::max(std::size_t(2), newSize));
 
         auto oldArray = std::move(m_array);
         m_items = 0;
-- 
2.43.0


From 03b04d017d777fd7eade331b7979277e9ca523ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:12 +0000
Subject: [PATCH 08/69] fix: find keys stored with value zero in the hash maps

---
 include/datastructures/LP_Map.hxx | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/datastructures/LP_Map.hxx b/include/datastructures/LP_Map.hxx
index 8c1d7fd..455a8dd 100644
--- a/include/datastructures/LP_Map.hxx
+++ b/include/datastructures/LP_Map.hxx
@@ -91,7 +91,16 @@ public:
     }
 
     bool contains(const K &key) const {
-        return get(key) != 0;
+        ASSERT(key != 0);
+
+        for (K idx = m_hasher(key); ; idx++) {
+            idx &= m_arraySize - 1;
+            K probedKey = m_keys[idx];
+            if (probedKey == key)
+                return true;
+            if (probedKey == 0)
+                return false;
+        }
     }
 
     std::size_t count(const K &key) const {
@@ -346,7 +355,16 @@ public:
     }
 
     bool contains(const K &key) const {
-        return get(key) != 0;
+        ASSERT(key != 0);
+
+        for (K idx = m_hasher(key); ; idx++) {
+            idx &= m_arraySize - 1;
+            K probedKey = m_keys[idx].load();
+            if (probedKey == key)
+                return true;
+            if (probedKey == 0)
+                return false;
+        }
     }
 
     std::size_t count(const K &key) const {
-- 
2.43.0


From c957fd355216315c1b6cc3459e99a139ae1ca13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:12 +0000
Subject: [PATCH 09/69] fix: apply the comparison flag to both sides of a
 filtered set merge

---
 include/datastructures/LP_Set.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index 8efda4f..c936e86 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -423,7 +423,7 @@ public:
 
     template<class Set, bool Growing2>
     void merge(LP_Set<K, Growing2> &&other, const Set &filter, const bool cmp = false) {
-        rehash(2*(size() + other.size()), filter);
+        rehash(2*(size() + other.size()), filter, cmp);
 
         for (std::size_t i = 0; i < other.capacity(); ++i) {
             if (other.m_array[i] != 0 && filter.count(other.m_array[i]) == cmp)
-- 
2.43.0


From cb2f01357614ce5052d325b04700064f1ff7b4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:12 +0000
Subject: [PATCH 10/69] fix: end the multimap lookup range at the free cell

---
 include/datastructures/LP_MultiMap.hxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/datastructures/LP_MultiMap.hxx b/include/datastructures/LP_MultiMap.hxx
index fa9557d..cbc3d35 100644
--- a/include/datastructures/LP_MultiMap.hxx
+++ b/include/datastructures/LP_MultiMap.hxx
@@ -178,13 +178,13 @@ public:
                     firstIdx &= m_arraySize - 1;
                 }
 
-                ++lastIdx;
-                lastIdx &= m_arraySize - 1;
-
                 if (probedKey == 0 /* implicitly && idx != firstIdx */)
                     // we have found the end of the chain of equal hashes
                     return std::make_pair(const_filtered_iterator(*this, firstIdx, lastIdx, key),
                                           const_filtered_iterator(*this, lastIdx, lastIdx, key));
+
+                ++lastIdx;
+                lastIdx &= m_arraySize - 1;
             }
         }
 
@@ -464,13 +464,13 @@ public:
                     firstIdx &= m_arraySize - 1;
                 }
 
-                ++lastIdx;
-                lastIdx &= m_arraySize - 1;
-
                 if (probedKey == 0 /* implicitly && idx != firstIdx */)
                     // we have found the end of the chain of equal hashes
                     return std::make_pair(const_filtered_iterator(*this, firstIdx, lastIdx, key),
                                           const_filtered_iterator(*this, lastIdx, lastIdx, key));
+
+                ++lastIdx;
+                lastIdx &= m_arraySize - 1;
             }
         }
 
-- 
2.43.0


From baa0173268898cad0ed4045f411f60c8a4f31c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:39 +0000
Subject: [PATCH 11/69] fix: grow the sequential hash maps by their real load
 factor

---
 include/datastructures/LP_Map.hxx      | 8 ++++----
 include/datastructures/LP_MultiMap.hxx | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/datastructures/LP_Map.hxx b/include/datastructures/LP_Map.hxx
index 455a8dd..ce105c1 100644
--- a/include/datastructures/LP_Map.hxx
+++ b/include/datastructures/LP_Map.hxx
@@ -18,7 +18,7 @@ public:
               m_keys(nullptr),
               m_hasher(hasher) {
         // Initialize cells
-        m_arraySize = nextPow2(size);
+        m_arraySize = nextPow2(std::max(std::size_t(2), size)); // lookups need a free cell
         ALLOCATE(m_arraySize);
     }
 
@@ -45,7 +45,7 @@ public:
     bool insert(const K &key, const V &value) {
         ASSERT(key != 0);
 
-        if (!m_rehashing && m_items / m_arraySize >= 0.5)
+        if (!m_rehashing && (double) m_items / (double) m_arraySize >= 0.5)
             rehash(m_arraySize << 1);
 
         for (K idx = m_hasher(key); ; idx++) {
@@ -128,7 +128,7 @@ public:
         m_rehashing = true;
 
         std::size_t oldSize = m_arraySize;
-        m_arraySize = nextPow2(newSize);
+        m_arraySize = nextPow2(std::max(std::size_t(2), newSize));
 
         auto oldKeys = std::move(m_keys);
         auto oldValues = std::move(m_values);
@@ -161,7 +161,7 @@ public:
         m_rehashing = true;
 
         std::size_t oldSize = m_arraySize;
-        m_arraySize = nextPow2(newSize);
+        m_arraySize = nextPow2(std::max(std::size_t(2), newSize));
 
         auto oldKeys = std::move(m_keys);
         auto oldValues = std::move(m_values);
diff --git a/include/datastructures/LP_MultiMap.hxx b/include/datastructures/LP_MultiMap.hxx
index cbc3d35..0dc7ce8 100644
--- a/include/datastructures/LP_MultiMap.hxx
+++ b/include/datastructures/LP_MultiMap.hxx
@@ -102,7 +102,7 @@ public:
               m_keys(nullptr),
               m_hasher(hasher) {
         // Initialize cells
-        m_arraySize = nextPow2(size);
+        m_arraySize = nextPow2(std::max(std::size_t(2), size)); // lookups need a free cell
 
         ALLOCATE(m_arraySize);
     }
@@ -131,7 +131,7 @@ public:
 
         ASSERT(key != 0);
 
-        if (!m_rehashing && m_items / m_arraySize >= 0.5)
+        if (!m_rehashing && (double) m_items / (double) m_arraySize >= 0.5)
             rehash(m_arraySize << 1);
 
         for (K idx = m_hasher(key); ; idx++) {
@@ -228,7 +228,7 @@ public:
         m_rehashing = true;
 
         std::size_t oldSize = m_arraySize;
-        m_arraySize = nextPow2(newSize);
+        m_arraySize = nextPow2(std::max(std::size_t(2), newSize));
 
         auto oldKeys = std::move(m_keys);
         auto oldValues = std::move(m_values);
@@ -261,7 +261,7 @@ public:
         m_rehashing = true;
 
         std::size_t oldSize = m_arraySize;
-        m_arraySize = nextPow2(newSize);
+        m_arraySize = nextPow2(std::max(std::size_t(2), newSize));
 
         auto oldKeys = std::move(m_keys);
         auto oldValues = std::move(m_values);
-- 
2.43.0


From de26502a35f535be7e1bf4248fa8a3dce78db206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 12/69] fix: never create a concurrent hash table without cells

---
 include/datastructures/LP_Map.hxx      | 4 ++--
 include/datastructures/LP_MultiMap.hxx | 6 +++---
 include/datastructures/LP_Set.hxx      | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/datastructures/LP_Map.hxx b/include/datastructures/LP_Map.hxx
index ce105c1..49b2b23 100644
--- a/include/datastructures/LP_Map.hxx
+++ b/include/datastructures/LP_Map.hxx
@@ -270,7 +270,7 @@ public:
               m_hasher(hasher),
               m_currentCopyBlock(0) {
         // Initialize cells
-        m_arraySize = nextPow2(size);
+        m_arraySize = nextPow2(std::max(std::size_t(2), size));
         ALLOCATE(m_arraySize);
     }
 
@@ -386,7 +386,7 @@ public:
 
     void unsafe_rehash(std::size_t newSize) {
         std::size_t oldSize = m_arraySize;
-        m_arraySize = nextPow2(newSize);
+        m_arraySize = nextPow2(std::max(std::size_t(2), newSize));
 
         auto oldKeys = std::move(m_keys);
         auto oldValues = std::move(m_values);
diff --git a/include/datastructures/LP_MultiMap.hxx b/include/datastructures/LP_MultiMap.hxx
index 0dc7ce8..689af20 100644
--- a/include/datastructures/LP_MultiMap.hxx
+++ b/include/datastructures/LP_MultiMap.hxx
@@ -369,7 +369,7 @@ public:
               m_hasher(hasher),
               m_currentCopyBlock(0) {
         // Initialize cells
-        m_arraySize = nextPow2(size);
+        m_arraySize = nextPow2(std::max(std::size_t(2), size));
 
         ALLOCATE(m_arraySize);
 
@@ -508,7 +508,7 @@ public:
 
     void unsafe_rehash(std::size_t newSize) {
         std::size_t oldSize = m_arraySize;
-        m_arraySize = nextPow2(newSize);
+        m_arraySize = nextPow2(std::max(std::size_t(2), newSize));
 
         auto oldKeys = std::move(m_keys);
         auto oldValues = std::move(m_values);
@@ -539,7 +539,7 @@ public:
         std::size_t oldSize = m_arraySize;
 
         std::size_t combinedItems = size() + other.size();
-        std::size_t newSize = nextPow2(combinedItems);
+        std::size_t newSize = nextPow2(std::max(std::size_t(2), combinedItems));
 
         while (combinedItems > newSize >> 1)
             newSize <<= 1;
diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index c936e86..e02ed83 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -538,7 +538,7 @@ public:
               m_hasher(hasher),
               m_currentCopyBlock(0) {
         // Initialize cells
-        m_arraySize = nextPow2(size);
+        m_arraySize = nextPow2(std::max(std::size_t(2), size));
         ALLOCATE(m_arraySize);
     }
 
@@ -664,7 +664,7 @@ public:
         std::size_t oldSize = m_arraySize;
 
         std::size_t combinedItems = size() + other.size();
-        std::size_t newSize = nextPow2(combinedItems);
+        std::size_t newSize = nextPow2(std::max(std::size_t(2), combinedItems));
 
         while (combinedItems > newSize >> 1)
             newSize <<= 1;
-- 
2.43.0


From 04ebb75dfe6e5817eb24363884e96d670d042455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 13/69] fix: let probing end in a full fixed-size concurrent
 set

---
 include/datastructures/LP_Set.hxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index e02ed83..7e93c4d 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -584,6 +584,10 @@ public:
                 return InsertReturn::State::Full;
             }
 
+            if (!Growing && cols >= m_arraySize) {
+                return InsertReturn::State::Full; // probed every cell
+            }
+
             idx &= m_arraySize - 1;
             ASSERT(idx < m_arraySize);
 
@@ -620,7 +624,8 @@ public:
     K get(const K &key) const {
         ASSERT(key != 0);
 
-        for (K idx = m_hasher(key); ; idx++) {
+        std::size_t probes = 0; // the table may be full
+        for (K idx = m_hasher(key); probes < m_arraySize; idx++, probes++) {
             idx &= m_arraySize - 1;
             K probedKey = m_array[idx].load();
             if (probedKey == key)
@@ -629,6 +634,7 @@ public:
                 return 0;
         }
 
+        return 0;
     }
 
     bool contains(const K &key) const {
-- 
2.43.0


From 6c925240dbdfd9817181eac707eadeafc05517bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 14/69] fix: migrate map entries past the fill check and stop
 after storing

---
 include/datastructures/LP_Map.hxx      | 5 ++++-
 include/datastructures/LP_MultiMap.hxx | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/datastructures/LP_Map.hxx b/include/datastructures/LP_Map.hxx
index 49b2b23..b39755d 100644
--- a/include/datastructures/LP_Map.hxx
+++ b/include/datastructures/LP_Map.hxx
@@ -483,6 +483,7 @@ private:
 
             if (probedKey == key) {
                 m_values[idx].store(value, std::memory_order_relaxed); // update value
+                return;
             }
             else {
                 // The entry was either free, or contains another key.
@@ -494,9 +495,11 @@ private:
                 if (cas) {
                     m_values[idx].store(value, std::memory_order_relaxed); // insert value
                     ++m_items;
+                    return;
                 }
                 else if (prevKey == key) {
                     m_values[idx].store(value, std::memory_order_relaxed); // update value
+                    return;
                 } else
                     continue; // another thread inserted a different key in this position
             }
@@ -504,7 +507,7 @@ private:
     }
 
     void _insert(const std::pair<K, V> &pair) {
-        insert(pair.first, pair.second);
+        _insert(pair.first, pair.second);
     }
 
     void _migrate(const std::size_t idx, Concurrent_LP_Map<K, V> &target) {
diff --git a/include/datastructures/LP_MultiMap.hxx b/include/datastructures/LP_MultiMap.hxx
index 689af20..b21785a 100644
--- a/include/datastructures/LP_MultiMap.hxx
+++ b/include/datastructures/LP_MultiMap.hxx
@@ -626,7 +626,7 @@ private:
     }
 
     void _insert(const std::pair<K, V> &pair) {
-        insert(pair.first, pair.second);
+        _insert(pair.first, pair.second);
     }
 
     void _migrate(const std::size_t idx, Concurrent_LP_MultiMap<K, V> &target) {
-- 
2.43.0


From 854d861541612e86d28c95e2eeda8606aaf85674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 15/69] fix: compare capacities and keep the count in the
 multimap copy

---
 include/datastructures/LP_MultiMap.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/datastructures/LP_MultiMap.hxx b/include/datastructures/LP_MultiMap.hxx
index b21785a..2a97298 100644
--- a/include/datastructures/LP_MultiMap.hxx
+++ b/include/datastructures/LP_MultiMap.hxx
@@ -524,12 +524,13 @@ public:
 
     template<class Source>
     void unsafe_copy(const Source &other) {
-        ASSERT(m_arraySize == other.size());
+        ASSERT(m_arraySize == other.capacity());
         for (std::size_t i = 0; i < m_arraySize; ++i) {
             auto pair = other.at(i);
             m_keys[i] = pair.first;
             m_values[i] = pair.second;
         }
+        m_items.store(other.size());
     }
 
     template<class Source, class Filter>
-- 
2.43.0


From 13de9715210cfaa1a9b0679f14fd4be8634dcda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 16/69] fix: wait for running insertions before migrating a
 growing hash table

---
 include/datastructures/Growing_LP.hxx | 50 ++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/include/datastructures/Growing_LP.hxx b/include/datastructures/Growing_LP.hxx
index b4b8a62..0fbffde 100644
--- a/include/datastructures/Growing_LP.hxx
+++ b/include/datastructures/Growing_LP.hxx
@@ -23,7 +23,7 @@ public:
 
     template<typename... Args>
     GrowingHashTable(Args... args)
-            : g_epoch_r(0), g_epoch_w(0), helperThreads(0) {
+            : g_epoch_r(0), g_epoch_w(0), inserters(0), helperThreads(0) {
         g_table_r = std::make_shared<HT>(std::forward<Args>(args)...);
         g_table_w = g_table_r;
     }
@@ -35,6 +35,7 @@ public:
               g_table_r(other.g_table_r),
               g_epoch_w(other.g_epoch_w.load()),
               g_table_w(other.g_table_w),
+              inserters(0),
               helperThreads(0) { }
 
     ~GrowingHashTable() = default;
@@ -71,8 +72,17 @@ private:
         return g_table_r->size();
     }
 
+    std::atomic_uint inserters; // threads between checking the epoch and finishing their insertion
     std::atomic_uint helperThreads;
-    std::mutex grow_mutex;
+    mutable std::mutex grow_mutex;
+
+    struct InserterGuard {
+        InserterGuard(std::atomic_uint &c) : counter(c) { ++counter; }
+
+        ~InserterGuard() { --counter; }
+
+        std::atomic_uint &counter;
+    };
 
 };
 
@@ -180,12 +190,12 @@ public:
 
 private:
     void getTable() const {
-        l_epoch = parent.g_epoch_r.load();
-        l_table = parent.g_table_r;
+        do {
+            l_epoch = parent.g_epoch_r.load();
 
-        if (l_table->m_version != l_epoch) {
-            getTable();
-        }
+            std::lock_guard<std::mutex> lock(parent.grow_mutex);
+            l_table = parent.g_table_r;
+        } while (l_table->m_version != l_epoch);
     }
 
 private:
@@ -222,7 +232,18 @@ public:
                 grow();
             }
         }
-        auto result = l_table->insert(args...);
+        bool outdated = false;
+        InsertReturn result;
+        {
+            // grow() waits for announced insertions before it starts copying
+            typename GrowingHashTable<HT>::InserterGuard guard(parent.inserters);
+            if (parent.g_epoch_w.load() > l_epoch)
+                outdated = true;
+            else
+                result = l_table->insert(args...);
+        }
+        if (outdated)
+            return insert(args...);
         if (result == InsertReturn::State::Full) {
             grow();
             return insert(args...);
@@ -337,12 +358,12 @@ public:
 
 private:
     void getTable() const {
-        l_epoch = parent.g_epoch_r.load();
-        l_table = parent.g_table_r;
+        do {
+            l_epoch = parent.g_epoch_r.load();
 
-        if (l_table->m_version != l_epoch) {
-            getTable();
-        }
+            std::lock_guard<std::mutex> lock(parent.grow_mutex);
+            l_table = parent.g_table_r;
+        } while (l_table->m_version != l_epoch);
     }
 
     void grow() {
@@ -366,6 +387,9 @@ private:
         auto t_epoch = l_table->m_version;
         parent.g_epoch_w.compare_exchange_strong(t_epoch, w_table->m_version);
 
+        //insertions that missed the new epoch still go to the old table
+        while (parent.inserters.load()) { };
+
         //nhelper ++
         parent.helperThreads.fetch_add(1);
 
-- 
2.43.0


From 919d50bbd668bc2b50bbb4b89a688e780aa3b59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:28 +0000
Subject: [PATCH 17/69] fix: let batchSet of a bit set keep the other bits and
 count correctly

---
 include/datastructures/Bit_Set.hxx | 39 ++++++++++--------------------
 1 file changed, 13 insertions(+), 26 deletions(-)

diff --git a/include/datastructures/Bit_Set.hxx b/include/datastructures/Bit_Set.hxx
index 2f9dc25..cbd7a2b 100644
--- a/include/datastructures/Bit_Set.hxx
+++ b/include/datastructures/Bit_Set.hxx
@@ -218,37 +218,24 @@ public:
         ASSERT(m_lowerBound <= from && from < m_upperBound);
         ASSERT(m_lowerBound <= to && to <= m_upperBound);
 
-        /*auto print = [this] (const std::string & msg) {
-            std::cout << msg << ": ";
-            for(std::size_t i = 0; i < capacity(); ++i)
-                std::cout << isSet(i);
-            std::cout << std::endl;
-        };*/
+        if (from >= to)
+            return;
 
-        std::size_t fromBlock = _block(from);
-        std::size_t toBlock = _block(to - 1); // to not included
+        const std::size_t fromBlock = _block(from);
+        const std::size_t toBlock = _block(to - 1); // to not included
 
-        //print("before");
+        for (std::size_t i = fromBlock; i <= toBlock; ++i) {
+            tKeyType mask = ~(tKeyType) 0; // middle block: all ones
 
-        // special case: first block
-        m_array[fromBlock] = (~(tKeyType) 0) << (from % cENTRIES);
+            if (i == fromBlock) // special case: first block
+                mask &= (~(tKeyType) 0) << (from % cENTRIES);
 
-        //print("first ");
+            if (i == toBlock) // special case: last block
+                mask &= (~(tKeyType) 0) >> (cENTRIES - 1 - (to - 1) % cENTRIES);
 
-        // middle block: all ones
-        for (std::size_t i = fromBlock + 1; i < toBlock; ++i)
-            m_array[i] = (~(tKeyType) 0);
-
-        //print("middle");
-
-        // special case: last block
-        m_array[toBlock] = ((~(tKeyType) 0) >> (cENTRIES - (to % cENTRIES))) &
-                           (toBlock == fromBlock ? m_array[toBlock] : (~(tKeyType) 0));
-
-        m_ones = to - from;
-
-
-        //print("after ");
+            m_ones += popcount((tKeyType) (mask & ~m_array[i]));
+            m_array[i] |= mask;
+        }
     }
 
     bool isSet(const tKeyType &idx) const {
-- 
2.43.0


From a1481215d969f8946b12fc7bc58a892d98445eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:28 +0000
Subject: [PATCH 18/69] fix: count the ones outside the filter's range when
 filtering a bit set

---
 include/datastructures/Bit_Set.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/datastructures/Bit_Set.hxx b/include/datastructures/Bit_Set.hxx
index cbd7a2b..a159c0a 100644
--- a/include/datastructures/Bit_Set.hxx
+++ b/include/datastructures/Bit_Set.hxx
@@ -362,10 +362,10 @@ public:
     template<class BitSet>
     void filter(const BitSet &filter) {
 
-        m_ones = 0;
         for (std::size_t i = std::max(m_lowerBound, filter.m_lowerBound);
              i < std::min(m_upperBound, filter.m_upperBound);
              i += cENTRIES) {
+            m_ones -= popcount(m_array[_block(i)]); // blocks outside the filter keep their ones
             m_array[_block(i)] &= ~filter.m_array[filter._block(i)];
             m_ones += popcount(m_array[_block(i)]);
         }
-- 
2.43.0


From 8434759d55d3f5b6f4842f9813bc0da26668dbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:27 +0000
Subject: [PATCH 19/69] fix: reject the index just past a blocked array

---
 include/datastructures/BlockedArray.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/datastructures/BlockedArray.hxx b/include/datastructures/BlockedArray.hxx
index 0f6b966..0e5bfaf 100644
--- a/include/datastructures/BlockedArray.hxx
+++ b/include/datastructures/BlockedArray.hxx
@@ -41,13 +41,13 @@ public:
     }
 
     const T& at(const std::size_t idx) const {
-        if(idx > m_nBlocks * BS)
+        if(idx >= m_nBlocks * BS)
             throw std::out_of_range("index: " + std::to_string(idx) + " size: " + std::to_string(m_nBlocks * BS));
         return m_blocks[idx / BS][idx % BS];
     }
 
     T& at(const std::size_t idx) {
-        if(idx > m_nBlocks * BS)
+        if(idx >= m_nBlocks * BS)
             throw std::out_of_range("index: " + std::to_string(idx) + " size: " + std::to_string(m_nBlocks * BS));
         return m_blocks[idx / BS][idx % BS];
     }
@@ -93,13 +93,13 @@ public:
     }
 
     const T& at(const std::size_t idx) const {
-        if(idx > m_nBlocks * BS)
+        if(idx >= m_nBlocks * BS)
             throw std::out_of_range("index: " + std::to_string(idx) + " size: " + std::to_string(m_nBlocks * BS));
         return m_blocks[idx / BS][idx % BS];
     }
 
     T& at(const std::size_t idx) {
-        if(idx > m_nBlocks * BS)
+        if(idx >= m_nBlocks * BS)
             throw std::out_of_range("index: " + std::to_string(idx) + " size: " + std::to_string(m_nBlocks * BS));
         return m_blocks[idx / BS][idx % BS];
     }
-- 
2.43.0


From 1a88195d9f3f678e3b6ed1e97f19026fc0619b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:03 +0000
Subject: [PATCH 20/69] fix: compare the index of finite ids in
 VectorAdapter::contains

---
 include/datastructures/VectorAdapter.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/datastructures/VectorAdapter.hxx b/include/datastructures/VectorAdapter.hxx
index 26b7880..ae50c7e 100644
--- a/include/datastructures/VectorAdapter.hxx
+++ b/include/datastructures/VectorAdapter.hxx
@@ -22,7 +22,7 @@ public:
     bool contains(const typename vector::size_type &i) const {
         PROFILER_INC("VectorAdapter_contains");
 
-        return (T::isFinite(i) ? (i >= m_offset && _finIdx(i) < finite_size()) : _infIdx(i)) < vector::size();
+        return T::isFinite(i) ? (i >= m_offset && _finIdx(i) < finite_size()) : (_infIdx(i) < vector::size());
     }
 
     T &operator[](const typename vector::size_type i) {
-- 
2.43.0


From e3d5389c9ab38dcd84a360b3600dd61bdbff4f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:03 +0000
Subject: [PATCH 21/69] fix: start the upper bounds of loaded points at the
 lowest value

---
 include/Geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Geometry.h b/include/Geometry.h
index 13c7c10..8388ba5 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -260,7 +260,7 @@ public:
 
         dBox<D, Precision> bounds;
         bounds.low.fill(std::numeric_limits<Precision>::max());
-        bounds.high.fill(std::numeric_limits<Precision>::min());
+        bounds.high.fill(std::numeric_limits<Precision>::lowest());
 
 #ifndef NDEBUG
         std::size_t lc = 0;
-- 
2.43.0


From 3debb7e9e62f7a79c7751fa6a7022e1e71359851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:09 +0000
Subject: [PATCH 22/69] fix: allocate the blocks when loading a blocked array

---
 include/datastructures/BlockedArray2.hxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/datastructures/BlockedArray2.hxx b/include/datastructures/BlockedArray2.hxx
index cc228ae..48fbdb9 100644
--- a/include/datastructures/BlockedArray2.hxx
+++ b/include/datastructures/BlockedArray2.hxx
@@ -599,10 +599,13 @@ private:
         // invoke serialization of the base class
         std::size_t n;
         ar >> n;
-        m_blocks.resize(n);
+        m_blocks.clear();
+        m_hint = 0;
 
         for (std::size_t i = 0; i < n; ++i) {
-            ar >> *m_blocks[i];
+            block_ptr b = std::make_unique<block>(0, 0); // allocated to size when loaded
+            ar >> *b;
+            m_blocks.push_back(std::move(b));
         }
     }
 
-- 
2.43.0


From 6666d3090dbd839f7c947f4e6d2cc5baa5232c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:09 +0000
Subject: [PATCH 23/69] fix: store the mark of a simplex container with the
 marks of its simplices

---
 include/Geometry.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Geometry.h b/include/Geometry.h
index 8388ba5..26564df 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -943,6 +943,7 @@ private:
     void serialize(Archive &ar, __attribute((unused)) const unsigned int version) {
         ar & boost::serialization::base_object<base>(*this);
         ar & convexHull;
+        ar & mark; // the marks of the simplices are relative to it
     }
 
 
-- 
2.43.0


From 03f86ea9df1ae1f09ab22dc737a83f08371a026e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:08 +0000
Subject: [PATCH 24/69] fix: let equalNeighbors report equality

---
 include/Geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Geometry.h b/include/Geometry.h
index 26564df..dd8d86f 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -499,7 +499,7 @@ public:
     bool equalNeighbors(const dSimplex<D, Precision> &a) const {
         PROFILER_INC("dSimplex_equalNeighbors");
 
-        return neighbors != a.neighbors;
+        return neighbors == a.neighbors;
     }
 
     bool operator==(const tIdType a) const { return id == a; }
-- 
2.43.0


From a3d70884f6a8d9bb5764eba0c86bf2b09062ba22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:59 +0000
Subject: [PATCH 25/69] fix: let the box distance helpers work in single
 precision

---
 include/load_balancing/BoxUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/load_balancing/BoxUtils.h b/include/load_balancing/BoxUtils.h
index 5e7674a..d59780c 100644
--- a/include/load_balancing/BoxUtils.h
+++ b/include/load_balancing/BoxUtils.h
@@ -64,7 +64,7 @@ namespace LoadBalancing
     template <uint D, typename Precision>
     dVector<D, Precision> vecToLowerQuadrant(dVector<D, Precision> v) {        
         std::transform(begin(v), end(v), begin(v), [](Precision x) {
-            return std::max(x, 0.0);
+            return std::max(x, Precision(0));
         });
         return v;
     }
-- 
2.43.0


From 5af03439f1f6ed077fc67705e0670ff6cb8fb97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:11 +0000
Subject: [PATCH 26/69] fix: start the maximum of point statistics at the
 lowest value

---
 include/Partitioner.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Partitioner.h b/include/Partitioner.h
index 61e77ec..985893d 100644
--- a/include/Partitioner.h
+++ b/include/Partitioner.h
@@ -79,7 +79,7 @@ struct dPointStats {
         for (uint dim = 0; dim < D; ++dim) {
             min[dim] = std::numeric_limits<Precision>::max();
             mid[dim] = 0;
-            max[dim] = std::numeric_limits<Precision>::min();
+            max[dim] = std::numeric_limits<Precision>::lowest();
         }
     }
 
@@ -122,7 +122,7 @@ dPointStats<D, Precision> getPointStatsSeq(const InputIt &first,
 
     for (uint dim = 0; dim < D; ++dim) {
         stats.min[dim] = std::numeric_limits<Precision>::max();
-        stats.max[dim] = std::numeric_limits<Precision>::min();
+        stats.max[dim] = std::numeric_limits<Precision>::lowest();
 
         for (auto it = first; it != last; ++it) {
 
-- 
2.43.0


From 6a969957f644e63d78e6a79f878aaad0deef1b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:11 +0000
Subject: [PATCH 27/69] fix: let the bounding box tree cover the cells of
 points on its upper bound

---
 include/datastructures/AABBTree.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/datastructures/AABBTree.h b/include/datastructures/AABBTree.h
index 32adbc7..7edd805 100644
--- a/include/datastructures/AABBTree.h
+++ b/include/datastructures/AABBTree.h
@@ -249,7 +249,8 @@ private:
         // round bounds to cell size
         for(uint d = 0; d < D; ++d){
             bounds.low[d] = std::floor(bounds.low[d] / cell_size) * cell_size;
-            bounds.high[d] = std::ceil(bounds.high[d] / cell_size) * cell_size;
+            // cells include their lower bound, so a point on the upper bound may start another cell
+            bounds.high[d] = (std::floor(bounds.high[d] / cell_size) + 1) * cell_size;
         }
 
         return bounds;
-- 
2.43.0


From cf0ecb42a244f9dbafe2641e1259b84fabe1b1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:57 +0000
Subject: [PATCH 28/69] fix: do not share flag words between partitions
 assigned in parallel

---
 include/load_balancing/BoundsIntersectionChecker.h | 2 +-
 include/load_balancing/GridIntersectionChecker.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/load_balancing/BoundsIntersectionChecker.h b/include/load_balancing/BoundsIntersectionChecker.h
index 75f31d0..41016ef 100644
--- a/include/load_balancing/BoundsIntersectionChecker.h
+++ b/include/load_balancing/BoundsIntersectionChecker.h
@@ -58,7 +58,7 @@ namespace LoadBalancing
 				idss.emplace_back(std::move(ids.data()));
 			}
 			std::vector<dBox<D, Precision>> boundss(partitions);
-			std::vector<bool> initialized(partitions);
+			std::vector<char> initialized(partitions); // one object per partition, as they are set concurrently
 			
 			tbb::parallel_for(size_t(0), partitions, [&](auto partition) {
 			    for(auto id : idss[partition]) {
diff --git a/include/load_balancing/GridIntersectionChecker.h b/include/load_balancing/GridIntersectionChecker.h
index d1d1988..dea3013 100644
--- a/include/load_balancing/GridIntersectionChecker.h
+++ b/include/load_balancing/GridIntersectionChecker.h
@@ -124,7 +124,7 @@ namespace LoadBalancing
 				idss.emplace_back(std::move(ids.data()));
 			}
 			std::vector<dBox<D, Precision>> boundss(partitions);
-			std::vector<bool> initialized(partitions);
+			std::vector<char> initialized(partitions); // one object per partition, as they are set concurrently
 			std::vector<std::unordered_set<dIndex<D, IndexPrecision>,
 				dIndexHasher<D, IndexPrecision>>> indices(partitions);
 			
-- 
2.43.0


From f31b47730c30910c91ccc7c6e4bc64d9ed02b286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:29 +0000
Subject: [PATCH 29/69] fix: keep the exact predicates from being contracted
 into fused operations

The repository builds with -march=native, where GCC contracts products and sums; the
error terms of the expansions are then wrong and degenerate inputs got a non-zero sign.
---
 src/utils/Predicates.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/utils/Predicates.cpp b/src/utils/Predicates.cpp
index fd6723c..3c0fea4 100644
--- a/src/utils/Predicates.cpp
+++ b/src/utils/Predicates.cpp
@@ -120,6 +120,14 @@
 
 #include "utils/Predicates.h"
 
+/* The error terms below are exact only if every operation is rounded on its own, a product and a  */
+/*   sum must not be contracted into one fused operation where the target machine has it.          */
+#if defined(__GNUC__) && !defined(__clang__)
+#pragma GCC optimize ("fp-contract=off")
+#else
+#pragma STDC FP_CONTRACT OFF
+#endif
+
 //#ifdef USE_CGAL_PREDICATES
 //  #include <CGAL/Exact_predicates_inexact_constructions_kernel.h>
 //  typedef CGAL::Exact_predicates_inexact_constructions_kernel cgalEpick;
-- 
2.43.0


From 936b16a9687556452d0295d24f64c72d6c26342b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:24 +0000
Subject: [PATCH 30/69] fix: let lookups end in a set converted from a full
 fixed-size one

---
 include/datastructures/LP_Set.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index 7e93c4d..b9bcf5c 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -332,7 +332,8 @@ public:
     bool contains(const K &key) const {
         ASSERT(key != 0);
 
-        for (K idx = m_hasher(key); ; idx++) {
+        std::size_t probes = 0; // a converted table may be full
+        for (K idx = m_hasher(key); probes < m_arraySize; idx++, probes++) {
             idx &= m_arraySize - 1;
             K probedKey = m_array[idx];
             if (probedKey == key)
@@ -341,6 +342,7 @@ public:
                 return false;
         }
 
+        return false;
     }
 
     std::size_t count(const K &key) const {
-- 
2.43.0


From 21a4c16d4ef7cc064618d2ccf5053c6d5c0d435b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:29 +0000
Subject: [PATCH 31/69] hook: let verification builds lower the base case size
 (PARDETRIA_VERIF_BASE_CUTOFF)

---
 include/DCTriangulator.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/DCTriangulator.h b/include/DCTriangulator.h
index f5d6cf2..82a8855 100644
--- a/include/DCTriangulator.h
+++ b/include/DCTriangulator.h
@@ -79,5 +79,9 @@ protected:
 
 public:
     static constexpr Precision SAFETY = 100;
+#ifdef PARDETRIA_VERIF_BASE_CUTOFF // smaller recursions for verification
+    static constexpr uint BASE_CUTOFF = PARDETRIA_VERIF_BASE_CUTOFF;
+#else
     static constexpr uint BASE_CUTOFF = 500;
+#endif
 };
-- 
2.43.0


From aa8360f4d4220310a1aa20d5ca5fbdc5d25f93cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:26 +0000
Subject: [PATCH 32/69] fix: compare signs in the in-sphere test, their product
 may underflow

---
 src/lib/Geometry.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index 884adfa..ba2c2dd 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -183,7 +183,11 @@ public:
 //
 //        det = alift * bcdet + blift * cadet + clift * abdet;
 
-        return orientation(s0, s1, s2) * Predicates<2, Precision>::insphere(s0.coords.data(), s1.coords.data(), s2.coords.data(), p.coords.data()) >= 0;
+        // the signs are compared as the product may underflow
+        auto o = orientation(s0, s1, s2);
+        auto i = Predicates<2, Precision>::insphere(s0.coords.data(), s1.coords.data(), s2.coords.data(), p.coords.data());
+
+        return o >= 0 ? (i >= 0 || o == 0) : i <= 0;
     }
 
     static dSphere<2, Precision>
@@ -406,7 +410,11 @@ public:
 //
 //        det = (dlift * abc - clift * dab) + (blift * cda - alift * bcd);
 
-        return orientation(s0, s1, s2, s3) * Predicates<3, Precision>::insphere(s0.coords.data(), s1.coords.data(), s2.coords.data(), s3.coords.data(), p.coords.data()) >= 0;
+        // the signs are compared as the product may underflow
+        auto o = orientation(s0, s1, s2, s3);
+        auto i = Predicates<3, Precision>::insphere(s0.coords.data(), s1.coords.data(), s2.coords.data(), s3.coords.data(), p.coords.data());
+
+        return o >= 0 ? (i >= 0 || o == 0) : i <= 0;
     }
 
     static dSphere<3, Precision>
-- 
2.43.0


From 70a61adca57580d4a16e007b61ae1544a70903f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:26 +0000
Subject: [PATCH 33/69] fix: place the infinite points around the middle of the
 points instead of the origin

---
 include/LoadBalancedDCTriangulator.tpp | 2 +-
 src/lib/DCTriangulator.cpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/LoadBalancedDCTriangulator.tpp b/include/LoadBalancedDCTriangulator.tpp
index e73b28e..9adb3b8 100644
--- a/include/LoadBalancedDCTriangulator.tpp
+++ b/include/LoadBalancedDCTriangulator.tpp
@@ -88,7 +88,7 @@ namespace LoadBalancing
                 p.coords = stats.mid;
 
                 for (uint d = 0; d < D; ++d)
-                    p.coords[d] =
+                    p.coords[d] +=
                             (i & (1 << d) ? 1 : -1) * 2 * SAFETY * (stats.max[d] - stats.min[d]);
 
                 this->points[dPoint<D, Precision>::cINF | i] = std::move(p);
diff --git a/src/lib/DCTriangulator.cpp b/src/lib/DCTriangulator.cpp
index 6905f0e..9bd87ce 100644
--- a/src/lib/DCTriangulator.cpp
+++ b/src/lib/DCTriangulator.cpp
@@ -78,7 +78,7 @@ DCTriangulator<D, Precision>::DCTriangulator(
             p.coords = stats.mid;
 
             for (uint d = 0; d < D; ++d)
-                p.coords[d] =
+                p.coords[d] +=
                         (i & (1 << d) ? 1 : -1) * 2 * SAFETY * (stats.max[d] - stats.min[d]);
 
             this->points[dPoint<D, Precision>::cINF | i] = std::move(p);
-- 
2.43.0


From 722ffccbee87f975d8155055d0f44c3d01f28361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:39 +0000
Subject: [PATCH 34/69] fix: compute circumspheres relative to a vertex,
 absolute coordinates cancel

---
 src/lib/Geometry.cpp | 387 +++++--------------------------------------
 1 file changed, 44 insertions(+), 343 deletions(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index ba2c2dd..594174d 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -195,47 +195,22 @@ public:
 
         dSphere<2, Precision> sphere;
 
-        Precision den = 2 * (s0.coords[0] *
-                             (s1.coords[1] -
-                              s2.coords[1]) +
-                             s1.coords[0] *
-                             (s2.coords[1] -
-                              s0.coords[1]) +
-                             s2.coords[0] *
-                             (s0.coords[1] -
-                              s1.coords[1]));
-
-        sphere.center[0] = ((pow(s0.coords[0], 2) +
-                             pow(s0.coords[1], 2)) *
-                            (s1.coords[1] -
-                             s2.coords[1]) +
-                            (pow(s1.coords[0], 2) +
-                             pow(s1.coords[1], 2)) *
-                            (s2.coords[1] -
-                             s0.coords[1]) +
-                            (pow(s2.coords[0], 2) +
-                             pow(s2.coords[1], 2)) *
-                            (s0.coords[1] -
-                             s1.coords[1])) /
-                           den;
-
-        sphere.center[1] = ((pow(s0.coords[0], 2) +
-                             pow(s0.coords[1], 2)) *
-                            (s2.coords[0] -
-                             s1.coords[0]) +
-                            (pow(s1.coords[0], 2) +
-                             pow(s1.coords[1], 2)) *
-                            (s0.coords[0] -
-                             s2.coords[0]) +
-                            (pow(s2.coords[0], 2) +
-                             pow(s2.coords[1], 2)) *
-                            (s1.coords[0] -
-                             s0.coords[0])) /
-                           den;
-
-        sphere.radius =
-                sqrt(pow(sphere.center[0] - s0.coords[0], 2) +
-                     pow(sphere.center[1] - s0.coords[1], 2));
+        // relative to the first vertex, absolute coordinates cancel for points away from the origin
+        const auto a = s0.coords - s1.coords; // operator- subtracts the left from the right
+        const auto b = s0.coords - s2.coords;
+
+        const Precision aa = dot(a, a);
+        const Precision bb = dot(b, b);
+
+        const Precision den = 2 * (a[0] * b[1] - a[1] * b[0]);
+
+        const dVector<2, Precision> c = {(b[1] * aa - a[1] * bb) / den,
+                                         (a[0] * bb - b[0] * aa) / den};
+
+        for (uint d = 0; d < 2; ++d)
+            sphere.center[d] = s0.coords[d] + c[d];
+
+        sphere.radius = sqrt(dot(c, c));
 
         return sphere;
     }
@@ -422,308 +397,34 @@ public:
 
         dSphere<3, Precision> sphere;
 
-        Precision den = 2 * (s0.coords[0] *
-                             (s2.coords[1] *
-                              s3.coords[2] +
-                              s1.coords[1] *
-                              (s2.coords[2] -
-                               s3.coords[2]) -
-                              s3.coords[1] *
-                              s2.coords[2] -
-                              (s2.coords[1] -
-                               s3.coords[1]) *
-                              s1.coords[2]) -
-                             s1.coords[0] *
-                             (s2.coords[1] *
-                              s3.coords[2] -
-                              s3.coords[1] *
-                              s2.coords[2]) -
-                             s0.coords[1] *
-                             (s2.coords[0] *
-                              s3.coords[2] +
-                              s1.coords[0] *
-                              (s2.coords[2] -
-                               s3.coords[2]) -
-                              s3.coords[0] *
-                              s2.coords[2] -
-                              (s2.coords[0] -
-                               s3.coords[0]) *
-                              s1.coords[2]) +
-                             s1.coords[1] *
-                             (s2.coords[0] *
-                              s3.coords[2] -
-                              s3.coords[0] *
-                              s2.coords[2]) +
-                             s0.coords[2] *
-                             (s2.coords[0] *
-                              s3.coords[1] +
-                              s1.coords[0] *
-                              (s2.coords[1] -
-                               s3.coords[1]) -
-                              s3.coords[0] *
-                              s2.coords[1] -
-                              (s2.coords[0] -
-                               s3.coords[0]) *
-                              s1.coords[1]) -
-                             s1.coords[2] *
-                             (s2.coords[0] *
-                              s3.coords[1] -
-                              s3.coords[0] *
-                              s2.coords[1]));
-
-        sphere.center[0] =
-                (-s0.coords[1] *
-                 (-s2.coords[2] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2)) -
-                  s1.coords[2] *
-                  (-pow(s3.coords[2], 2) +
-                   pow(s2.coords[2], 2) -
-                   pow(s3.coords[1], 2) +
-                   pow(s2.coords[1], 2) -
-                   pow(s3.coords[0], 2) +
-                   pow(s2.coords[0], 2)) +
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) *
-                  s3.coords[2] +
-                  (pow(s1.coords[2], 2) +
-                   pow(s1.coords[1], 2) +
-                   pow(s1.coords[0], 2)) *
-                  (s2.coords[2] -
-                   s3.coords[2])) +
-                 s1.coords[1] *
-                 ((pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) *
-                  s3.coords[2] -
-                  s2.coords[2] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2))) +
-                 s0.coords[2] *
-                 (-s2.coords[1] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2)) -
-                  s1.coords[1] *
-                  (-pow(s3.coords[2], 2) +
-                   pow(s2.coords[2], 2) -
-                   pow(s3.coords[1], 2) +
-                   pow(s2.coords[1], 2) -
-                   pow(s3.coords[0], 2) +
-                   pow(s2.coords[0], 2)) +
-                  s3.coords[1] *
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) +
-                  (s2.coords[1] -
-                   s3.coords[1]) *
-                  (pow(s1.coords[2], 2) +
-                   pow(s1.coords[1], 2) +
-                   pow(s1.coords[0], 2))) -
-                 s1.coords[2] *
-                 (s3.coords[1] *
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) -
-                  s2.coords[1] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2))) +
-                 (pow(s0.coords[2], 2) +
-                  pow(s0.coords[1], 2) +
-                  pow(s0.coords[0], 2)) *
-                 (s2.coords[1] *
-                  s3.coords[2] +
-                  s1.coords[1] *
-                  (s2.coords[2] -
-                   s3.coords[2]) -
-                  s3.coords[1] *
-                  s2.coords[2] -
-                  (s2.coords[1] -
-                   s3.coords[1]) *
-                  s1.coords[2]) -
-                 (pow(s1.coords[2], 2) +
-                  pow(s1.coords[1], 2) +
-                  pow(s1.coords[0], 2)) *
-                 (s2.coords[1] *
-                  s3.coords[2] -
-                  s3.coords[1] *
-                  s2.coords[2])) /
-                den;
-
-        sphere.center[1] =
-                (s0.coords[0] *
-                 (-s2.coords[2] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2)) -
-                  s1.coords[2] *
-                  (-pow(s3.coords[2], 2) +
-                   pow(s2.coords[2], 2) -
-                   pow(s3.coords[1], 2) +
-                   pow(s2.coords[1], 2) -
-                   pow(s3.coords[0], 2) +
-                   pow(s2.coords[0], 2)) +
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) *
-                  s3.coords[2] +
-                  (pow(s1.coords[2], 2) +
-                   pow(s1.coords[1], 2) +
-                   pow(s1.coords[0], 2)) *
-                  (s2.coords[2] -
-                   s3.coords[2])) -
-                 s1.coords[0] *
-                 ((pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) *
-                  s3.coords[2] -
-                  s2.coords[2] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2))) -
-                 s0.coords[2] *
-                 (-s2.coords[0] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2)) -
-                  s1.coords[0] *
-                  (-pow(s3.coords[2], 2) +
-                   pow(s2.coords[2], 2) -
-                   pow(s3.coords[1], 2) +
-                   pow(s2.coords[1], 2) -
-                   pow(s3.coords[0], 2) +
-                   pow(s2.coords[0], 2)) +
-                  s3.coords[0] *
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) +
-                  (s2.coords[0] -
-                   s3.coords[0]) *
-                  (pow(s1.coords[2], 2) +
-                   pow(s1.coords[1], 2) +
-                   pow(s1.coords[0], 2))) +
-                 s1.coords[2] *
-                 (s3.coords[0] *
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) -
-                  s2.coords[0] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2))) -
-                 (pow(s0.coords[2], 2) +
-                  pow(s0.coords[1], 2) +
-                  pow(s0.coords[0], 2)) *
-                 (s2.coords[0] *
-                  s3.coords[2] +
-                  s1.coords[0] *
-                  (s2.coords[2] -
-                   s3.coords[2]) -
-                  s3.coords[0] *
-                  s2.coords[2] -
-                  (s2.coords[0] -
-                   s3.coords[0]) *
-                  s1.coords[2]) +
-                 (pow(s1.coords[2], 2) +
-                  pow(s1.coords[1], 2) +
-                  pow(s1.coords[0], 2)) *
-                 (s2.coords[0] *
-                  s3.coords[2] -
-                  s3.coords[0] *
-                  s2.coords[2])) /
-                den;
-
-        sphere.center[2] =
-                (-s0.coords[0] *
-                 (-s2.coords[1] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2)) -
-                  s1.coords[1] *
-                  (-pow(s3.coords[2], 2) +
-                   pow(s2.coords[2], 2) -
-                   pow(s3.coords[1], 2) +
-                   pow(s2.coords[1], 2) -
-                   pow(s3.coords[0], 2) +
-                   pow(s2.coords[0], 2)) +
-                  s3.coords[1] *
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) +
-                  (s2.coords[1] -
-                   s3.coords[1]) *
-                  (pow(s1.coords[2], 2) +
-                   pow(s1.coords[1], 2) +
-                   pow(s1.coords[0], 2))) +
-                 s1.coords[0] *
-                 (s3.coords[1] *
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) -
-                  s2.coords[1] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2))) +
-                 s0.coords[1] *
-                 (-s2.coords[0] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2)) -
-                  s1.coords[0] *
-                  (-pow(s3.coords[2], 2) +
-                   pow(s2.coords[2], 2) -
-                   pow(s3.coords[1], 2) +
-                   pow(s2.coords[1], 2) -
-                   pow(s3.coords[0], 2) +
-                   pow(s2.coords[0], 2)) +
-                  s3.coords[0] *
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) +
-                  (s2.coords[0] -
-                   s3.coords[0]) *
-                  (pow(s1.coords[2], 2) +
-                   pow(s1.coords[1], 2) +
-                   pow(s1.coords[0], 2))) -
-                 s1.coords[1] *
-                 (s3.coords[0] *
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) -
-                  s2.coords[0] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2))) -
-                 (s2.coords[0] *
-                  s3.coords[1] -
-                  s3.coords[0] *
-                  s2.coords[1]) *
-                 (pow(s1.coords[2], 2) +
-                  pow(s1.coords[1], 2) +
-                  pow(s1.coords[0], 2)) +
-                 (s2.coords[0] *
-                  s3.coords[1] +
-                  s1.coords[0] *
-                  (s2.coords[1] -
-                   s3.coords[1]) -
-                  s3.coords[0] *
-                  s2.coords[1] -
-                  (s2.coords[0] -
-                   s3.coords[0]) *
-                  s1.coords[1]) *
-                 (pow(s0.coords[2], 2) +
-                  pow(s0.coords[1], 2) +
-                  pow(s0.coords[0], 2))) /
-                den;
-
-        sphere.radius =
-                sqrt(pow(sphere.center[0] - s0.coords[0], 2) +
-                     pow(sphere.center[1] - s0.coords[1], 2) +
-                     pow(sphere.center[2] - s0.coords[2], 2));
+        // relative to the first vertex, absolute coordinates cancel for points away from the origin
+        const auto a = s0.coords - s1.coords; // operator- subtracts the left from the right
+        const auto b = s0.coords - s2.coords;
+        const auto c = s0.coords - s3.coords;
+
+        const auto cross = [](const dVector<3, Precision> &u, const dVector<3, Precision> &v) {
+            return dVector<3, Precision>({u[1] * v[2] - u[2] * v[1],
+                                          u[2] * v[0] - u[0] * v[2],
+                                          u[0] * v[1] - u[1] * v[0]});
+        };
+
+        const auto bc = cross(b, c);
+        const auto ca = cross(c, a);
+        const auto ab = cross(a, b);
+
+        const Precision aa = dot(a, a);
+        const Precision bb = dot(b, b);
+        const Precision cc = dot(c, c);
+
+        const Precision den = 2 * dot(a, bc);
+
+        dVector<3, Precision> r;
+        for (uint d = 0; d < 3; ++d) {
+            r[d] = (aa * bc[d] + bb * ca[d] + cc * ab[d]) / den;
+            sphere.center[d] = s0.coords[d] + r[d];
+        }
+
+        sphere.radius = sqrt(dot(r, r));
 
         return sphere;
     }
-- 
2.43.0


From 70ef67cdbf352e6c2e6974ebe96531cd08e3c895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:37 +0000
Subject: [PATCH 35/69] fix: compute circumspheres in double precision and
 round their radius up

---
 src/lib/Geometry.cpp | 88 +++++++++++++++++++++++++-------------------
 1 file changed, 51 insertions(+), 37 deletions(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index 594174d..b83753e 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -66,6 +66,35 @@ dVector<D, Precision> operator-(const dVector<D, Precision> &a, const dVector<D,
     return r;
 }
 
+// circumspheres are computed in double precision, single precision is too coarse for flat simplices
+typedef double CsPrecision;
+
+// difference of b and a in the precision of circumspheres
+template<std::size_t D, typename Precision>
+dVector<D, CsPrecision> csDiff(const dVector<D, Precision> &b, const dVector<D, Precision> &a) {
+    dVector<D, CsPrecision> r;
+    for (uint d = 0; d < D; ++d)
+        r[d] = (CsPrecision) b[d] - (CsPrecision) a[d];
+    return r;
+}
+
+/* sphere with its center at offset r from s0. The radius covers the rounding of the center and of the radius:
+ * a sphere must not miss a box that the exact circumsphere intersects */
+template<uint D, typename Precision>
+dSphere<D, Precision> csSphere(const dPoint<D, Precision> &s0, const dVector<D, CsPrecision> &r) {
+    dSphere<D, Precision> sphere;
+    CsPrecision slack = 0;
+    for (uint d = 0; d < D; ++d) {
+        sphere.center[d] = s0.coords[d] + r[d];
+        slack += std::abs(sphere.center[d]);
+    }
+
+    const CsPrecision radius = sqrt(dot(r, r));
+    sphere.radius = radius + 4 * std::numeric_limits<Precision>::epsilon() * (radius + slack);
+
+    return sphere;
+}
+
 // specializations
 
 template<typename Precision>
@@ -193,26 +222,17 @@ public:
     static dSphere<2, Precision>
     circumsphere(const dPoint<2, Precision> &s0, const dPoint<2, Precision> &s1, const dPoint<2, Precision> &s2) {
 
-        dSphere<2, Precision> sphere;
-
         // relative to the first vertex, absolute coordinates cancel for points away from the origin
-        const auto a = s0.coords - s1.coords; // operator- subtracts the left from the right
-        const auto b = s0.coords - s2.coords;
-
-        const Precision aa = dot(a, a);
-        const Precision bb = dot(b, b);
-
-        const Precision den = 2 * (a[0] * b[1] - a[1] * b[0]);
+        const auto a = csDiff(s1.coords, s0.coords);
+        const auto b = csDiff(s2.coords, s0.coords);
 
-        const dVector<2, Precision> c = {(b[1] * aa - a[1] * bb) / den,
-                                         (a[0] * bb - b[0] * aa) / den};
+        const auto aa = dot(a, a);
+        const auto bb = dot(b, b);
 
-        for (uint d = 0; d < 2; ++d)
-            sphere.center[d] = s0.coords[d] + c[d];
+        const auto den = 2 * (a[0] * b[1] - a[1] * b[0]);
 
-        sphere.radius = sqrt(dot(c, c));
-
-        return sphere;
+        return csSphere<2, Precision>(s0, {(b[1] * aa - a[1] * bb) / den,
+                                           (a[0] * bb - b[0] * aa) / den});
     }
 };
 
@@ -395,38 +415,32 @@ public:
     static dSphere<3, Precision>
     circumsphere(const dPoint<3, Precision> &s0, const dPoint<3, Precision> &s1, const dPoint<3, Precision> &s2, const dPoint<3, Precision> &s3) {
 
-        dSphere<3, Precision> sphere;
-
         // relative to the first vertex, absolute coordinates cancel for points away from the origin
-        const auto a = s0.coords - s1.coords; // operator- subtracts the left from the right
-        const auto b = s0.coords - s2.coords;
-        const auto c = s0.coords - s3.coords;
-
-        const auto cross = [](const dVector<3, Precision> &u, const dVector<3, Precision> &v) {
-            return dVector<3, Precision>({u[1] * v[2] - u[2] * v[1],
-                                          u[2] * v[0] - u[0] * v[2],
-                                          u[0] * v[1] - u[1] * v[0]});
+        const auto a = csDiff(s1.coords, s0.coords);
+        const auto b = csDiff(s2.coords, s0.coords);
+        const auto c = csDiff(s3.coords, s0.coords);
+
+        const auto cross = [](const dVector<3, CsPrecision> &u, const dVector<3, CsPrecision> &v) {
+            return dVector<3, CsPrecision>({u[1] * v[2] - u[2] * v[1],
+                                            u[2] * v[0] - u[0] * v[2],
+                                            u[0] * v[1] - u[1] * v[0]});
         };
 
         const auto bc = cross(b, c);
         const auto ca = cross(c, a);
         const auto ab = cross(a, b);
 
-        const Precision aa = dot(a, a);
-        const Precision bb = dot(b, b);
-        const Precision cc = dot(c, c);
+        const auto aa = dot(a, a);
+        const auto bb = dot(b, b);
+        const auto cc = dot(c, c);
 
-        const Precision den = 2 * dot(a, bc);
+        const auto den = 2 * dot(a, bc);
 
-        dVector<3, Precision> r;
-        for (uint d = 0; d < 3; ++d) {
+        dVector<3, CsPrecision> r;
+        for (uint d = 0; d < 3; ++d)
             r[d] = (aa * bc[d] + bb * ca[d] + cc * ab[d]) / den;
-            sphere.center[d] = s0.coords[d] + r[d];
-        }
-
-        sphere.radius = sqrt(dot(r, r));
 
-        return sphere;
+        return csSphere<3, Precision>(s0, r);
     }
 };
 
-- 
2.43.0


From 7ca9be64204a87258bdd111de949f0ef815560e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:27 +0000
Subject: [PATCH 36/69] fix: verification and cross-check missed unused points
 of subsets, wrong or additional neighbours and simplices after a missing one,
 and threw on dangling ids

---
 src/lib/Geometry.cpp | 123 ++++++++++++++++++++++++++++---------------
 1 file changed, 80 insertions(+), 43 deletions(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index b83753e..c1eaffe 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -547,27 +547,42 @@ CrossCheckReport<D, Precision> dSimplices<D, Precision>::crossCheck(
                 LOG("did not find simplex " << realSimplex << std::endl);
                 result.valid = false;
                 result.missing.push_back(realSimplex);
-                return;
+                continue;
             }
 
             // check neighbors
+            const auto &myNeighbors = thisHandle.at(mySimplex->second).neighbors;
             for (const auto &n : realSimplex.neighbors) {
                 if (!dSimplex<D, Precision>::isFinite(n))
                     continue;
 
-                bool found = false;
-                for (const auto &nn : thisHandle.at(mySimplex->second).neighbors) {
-                    if (dSimplex<D, Precision>::isFinite(nn) &&
-                        thisHandle.at(nn).equalVertices(realHandle[n])) {
-                        found = true;
-                        break;
-                    }
+                const bool found = realHandle.contains(n) &&
+                                   std::any_of(myNeighbors.begin(), myNeighbors.end(), [&](const auto &nn) {
+                                       return dSimplex<D, Precision>::isFinite(nn) && thisHandle.contains(nn)
+                                              && thisHandle.at(nn).equalVertices(realHandle.at(n));
+                                   });
+
+                if (!found) {
+                    tbb::spin_mutex::scoped_lock lock(mtx);
+                    LOG("did not find neighbor " << n << " of simplex " << realSimplex << std::endl);
+                    result.valid = false;
                 }
+            }
+
+            // and that there are no further ones
+            for (const auto &nn : myNeighbors) {
+                if (!dSimplex<D, Precision>::isFinite(nn))
+                    continue;
+
+                const bool found = thisHandle.contains(nn) &&
+                                   std::any_of(realSimplex.neighbors.begin(), realSimplex.neighbors.end(), [&](const auto &n) {
+                                       return dSimplex<D, Precision>::isFinite(n) && realHandle.contains(n)
+                                              && realHandle.at(n).equalVertices(thisHandle.at(nn));
+                                   });
 
                 if (!found) {
                     tbb::spin_mutex::scoped_lock lock(mtx);
-                    LOG("did not find neighbor " << realHandle[n] << " of simplex "
-                                                                 << realSimplex << std::endl);
+                    LOG("additional neighbor " << nn << " of simplex " << realSimplex << std::endl);
                     result.valid = false;
                 }
             }
@@ -637,49 +652,40 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
     for (const auto &s : *this) {
         usedPoints.insert(s.vertices.begin(), s.vertices.end());
     }
-    if (points != usedPoints) {
-        // not all points of input used
+    {
         std::stringstream sNotUsed;
+        bool allUsed = true;
+        const auto checkUsed = [&](const tIdType i) {
+            if (usedPoints.count(i) != 1 && dPoint<D, Precision>::isFinite(i)) {
+                sNotUsed << i << " - " << points[i] << " ";
+                allUsed = false;
+            }
+        };
 
         if (pointIds) {
-            for (const auto i : *pointIds) {
-                const auto &p = points[i];
-                if (usedPoints.count(i) != 1 && dPoint<D, Precision>::isFinite(i)) {
-                    sNotUsed << i << " - " << p << " ";
-                    result.valid = false;
-                }
-            }
+            for (const auto i : *pointIds)
+                checkUsed(i);
         } else {
-            for (std::size_t i = 0; i < points.finite_size(); ++i) {
-                const auto &p = points[i];
-                if (usedPoints.count(i) != 1 && dPoint<D, Precision>::isFinite(i)) {
-                    sNotUsed << i << " - " << p << " ";
-                    result.valid = false;
-                }
-            }
+            const auto ids = points.range();
+            for (auto i = ids.begin(); i < ids.end(); ++i)
+                checkUsed(i);
         }
-        if (!result.valid) {
+        if (!allUsed) {
             LOG("Points of input not used: " << sNotUsed.str() << std::endl);
+            result.valid = false;
         }
 
         std::stringstream sInvalidP;
-        if (pointIds) {
-            for (const auto &p : usedPoints) {
-                if (dPoint<D, Precision>::isFinite(p) && !pointIds->contains(p)) {
-                    sInvalidP << p << " ";
-                    result.valid = false;
-                }
-            }
-        } else {
-            for (const auto &p : usedPoints) {
-                if (dPoint<D, Precision>::isFinite(p) && !points.contains(p)) {
-                    sInvalidP << p << " ";
-                    result.valid = false;
-                }
+        bool allKnown = true;
+        for (const auto &p : usedPoints) {
+            if (dPoint<D, Precision>::isFinite(p) && !(pointIds ? pointIds->contains(p) : points.contains(p))) {
+                sInvalidP << p << " ";
+                allKnown = false;
             }
         }
-        if (!result.valid) {
+        if (!allKnown) {
             LOG("Used points not in input: " << sInvalidP.str() << std::endl);
+            result.valid = false;
         }
     }
 
@@ -704,6 +710,14 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
 
         for (auto i = r.begin(); i != r.end(); ++i) {
 
+            if (!thisHandle.contains(convexHull[i])) {
+                // the convex hull names a simplex that does not exist
+                tbb::spin_mutex::scoped_lock lock(mtx);
+                LOG("Non-existent simplex " << convexHull[i] << " IS in convex hull" << std::endl);
+                result.valid = false;
+                continue;
+            }
+
             const dSimplex<D, Precision> &s = thisHandle.at(convexHull[i]);
             if (s.isFinite()) {
                 // s is finite but part of convex hull
@@ -792,6 +806,11 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
                 for (auto it = range.first; it != range.second; ++it) {
 
                     const auto &b = thisHandle.at(it->second);
+
+                    // duplicates have already been reported
+                    if (a.id != b.id && a.equalVertices(b))
+                        continue;
+
                     // a and b are neighbors: the neighbor property is symmetric and the
                     // corresponding simplices must be present in the neighbors arrays
                     // accordingly
@@ -815,6 +834,24 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
                     }
                 }
             }
+
+            // the simplices without a common face must not be listed, nor one more than once
+            for (uint i = 0; i < D + 1; ++i) {
+                const auto &n = a.neighbors[i];
+                if (!dSimplex<D, Precision>::isFinite(n))
+                    continue;
+
+                const bool exists = thisHandle.contains(n);
+                if (!exists || a.equalVertices(thisHandle.at(n)) || !a.isNeighbor(thisHandle.at(n)) ||
+                    std::find(a.neighbors.begin(), a.neighbors.begin() + i, n) != a.neighbors.begin() + i) {
+
+                    tbb::spin_mutex::scoped_lock lock(mtx);
+                    LOG("Wrong neighbor " << n << " of " << a << std::endl);
+                    if (exists)
+                        result.wrongNeighbors.emplace_back(a, thisHandle.at(n));
+                    result.valid = false;
+                }
+            }
         }
     });
 
@@ -826,11 +863,11 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
 
         for (const auto &s : r) {
 
-            // we have established that the neighboorhood is correctly set
+            // missing neighbors have been reported above
             // we check for all neighbors whether the NOT shared point is in the circle
 
             for (const auto &n : s.neighbors) {
-                if (!dSimplex<D, Precision>::isFinite(n))
+                if (!dSimplex<D, Precision>::isFinite(n) || !thisHandle.contains(n))
                     continue;
 
                 const dSimplex<D, Precision> &nn = thisHandle.at(n);
-- 
2.43.0


From 97170cfd909f8f3db09e9bb020117c04f61500a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:13 +0000
Subject: [PATCH 37/69] fix: the squared distance to a face was not squared

---
 src/lib/Geometry.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index c1eaffe..a1be580 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -171,7 +171,9 @@ public:
 
         auto n = dVector<2, Precision>({ v[1], -v[0] });
 
-        return std::abs(dot(n,r) / dot(n, n));
+        const auto nr = dot(n, r);
+
+        return nr * nr / dot(n, n);
     }
 
     static bool inSphere(const dPoint<2, Precision> &p,
@@ -344,7 +346,9 @@ public:
                                          (u[2] * v[0] - u[0] * v[2]),
                                          (u[0] * v[1] - u[1] * v[0]) });
 
-        return std::abs(dot(w,n) / dot(n,n));
+        const auto nw = dot(n, w);
+
+        return nw * nw / dot(n, n);
     }
 
     static bool inSphere(const dPoint<3, Precision> &p,
-- 
2.43.0


From 80da309350549a0f3b786cc476a0af16a944e6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:13 +0000
Subject: [PATCH 38/69] fix: locating a point started at a possibly deleted
 simplex and could return no simplex id at all

---
 include/Geometry.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/Geometry.h b/include/Geometry.h
index dd8d86f..0feb5d9 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -842,7 +842,14 @@ public:
         auto cmp = [](const pqItem &a, const pqItem &b) { return a.first > b.first; };
 
         if(hintSimplex == dSimplex<D, Precision>::cINF){
-            hintSimplex = this->lowerBound();
+            // the first simplex that has not been deleted
+            for (const auto &s : *this) {
+                hintSimplex = s.id;
+                break;
+            }
+
+            if(hintSimplex == dSimplex<D, Precision>::cINF)
+                return hintSimplex;
         }
 
         std::priority_queue<pqItem, std::vector<pqItem>, decltype(cmp)> pQueue(cmp);
@@ -853,7 +860,7 @@ public:
 
         uint hintBlock = 0;
         Precision minD = std::numeric_limits<Precision>::max();
-        tIdType minDId = dPoint<D, Precision>::cINF;
+        tIdType minDId = hintSimplex;
 
         VTUNE_TASK(FindNearestSimplex);
         while (!pQueue.empty()) {
-- 
2.43.0


From 68a9d9572f1fe86b29f8f19f5fd4fed026c4c385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:43 +0000
Subject: [PATCH 39/69] fix: decide containment in a simplex by orientations,
 barycentric coordinates cancel for flat simplices

---
 src/lib/Geometry.cpp | 88 +++++++++-----------------------------------
 1 file changed, 17 insertions(+), 71 deletions(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index a1be580..04afbd6 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -130,37 +130,15 @@ public:
 
     static bool inSimplex(const dPoint<2, Precision> &p,
                           const dPoint<2, Precision> &s0, const dPoint<2, Precision> &s1, const dPoint<2, Precision> &s2) {
-        // Compute vectors
-        auto v1 = s1.coords - s0.coords;
-        auto v2 = s2.coords - s0.coords;
-        auto vp = p.coords  - s0.coords;
-
-        // Compute dot products
-        auto v1v1 = dot(v1, v1);
-        auto v1v2 = dot(v1, v2);
-        auto v1vp = dot(v1, vp);
-        auto v2v2 = dot(v2, v2);
-        auto v2vp = dot(v2, vp);
-
-        /*
-         * Solve[{v1vp == u*(v1v1) + v*(v1v2),
-         *        v2vp == u*(v1v2) + v*(v2v2)},
-         *        {u, v}]
-         *
-         * {{u->-((v1vp v2v2-v1v2 v2vp)  / (v1v2^2-v1v1 v2v2)),
-         *   v->-((-v1v2 v1vp+v1v1 v2vp) / (v1v2^2-v1v1 v2v2))}}
-         *
-         * */
-
-        // Compute barycentric coordinates
-        auto invDenom = Precision(1) / (v1v2 * v1v2 - v1v1 * v2v2);
-
-        auto u = -(( v1vp * v2v2 - v1v2 * v2vp) * invDenom);
-        auto v = -((-v1v2 * v1vp + v1v1 * v2vp) * invDenom);
-
-        // Check if point is in triangle
-        return (u >= 0) && (v >= 0) && (u + v <= 1);
+        // p is on the inner side of every face, barycentric coordinates cancel for flat simplices
+        const auto o = orientation(s0, s1, s2);
 
+        const auto o0 = orientation(p, s1, s2);
+        const auto o1 = orientation(s0, p, s2);
+        const auto o2 = orientation(s0, s1, p);
+
+        return o > 0 ? o0 >= 0 && o1 >= 0 && o2 >= 0
+                     : o < 0 && o0 <= 0 && o1 <= 0 && o2 <= 0;
     }
 
     static Precision sqDistanceToFace(const dPoint<2, Precision> &p,
@@ -291,48 +269,16 @@ public:
 
     static bool inSimplex(const dPoint<3, Precision> &p,
                           const dPoint<3, Precision> &s0, const dPoint<3, Precision> &s1, const dPoint<3, Precision> &s2, const dPoint<3, Precision> &s3) {
-        // Compute vectors
-        auto v1 = s1.coords - s0.coords;
-        auto v2 = s2.coords - s0.coords;
-        auto v3 = s3.coords - s0.coords;
-        auto vp = p.coords  - s0.coords;
-
-        // Compute dot products
-        auto v1v1 = dot(v1, v1);
-        auto v1v2 = dot(v1, v2);
-        auto v1v3 = dot(v1, v3);
-        auto v1vp = dot(v1, vp);
-        auto v2v2 = dot(v2, v2);
-        auto v2v3 = dot(v2, v3);
-        auto v2vp = dot(v2, vp);
-        auto v3v3 = dot(v3, v3);
-        auto v3vp = dot(v3, vp);
-
-        /*
-         * Solve[{v1vp == u*(v1v1) + v*(v1v2) + z*(v1v3),
-                  v2vp == u*(v1v2) + v*(v2v2) + z*(v2v3),
-                  v3vp == u*(v1v3) + v*(v2v3) + z*(v3v3)},
-                  {u, v, z}]
-         *
-         * {{u -> -((-v1vp v2v3^2 + v1v3 v2v3 v2vp + v1vp v2v2 v3v3 - v1v2 v2vp v3v3 - v1v3 v2v2 v3vp + v1v2 v2v3 v3vp)
-         *         /(v1v3^2 v2v2 - 2 v1v2 v1v3 v2v3 + v1v1 v2v3^2 + v1v2^2 v3v3 - v1v1 v2v2 v3v3)),
-         *   v -> -((v1v3 v1vp v2v3 - v1v3^2 v2vp - v1v2 v1vp v3v3 + v1v1 v2vp v3v3 + v1v2 v1v3 v3vp - v1v1 v2v3 v3vp)
-         *         /(v1v3^2 v2v2 - 2 v1v2 v1v3 v2v3 + v1v1 v2v3^2 + v1v2^2 v3v3 - v1v1 v2v2 v3v3)),
-         *   z -> -((-v1v3 v1vp v2v2 + v1v2 v1vp v2v3 + v1v2 v1v3 v2vp - v1v1 v2v3 v2vp - v1v2^2 v3vp + v1v1 v2v2 v3vp)
-         *         /(v1v3^2 v2v2 - 2 v1v2 v1v3 v2v3 + v1v1 v2v3^2 + v1v2^2 v3v3 - v1v1 v2v2 v3v3))}}
-         *
-         * */
-
-        // Compute barycentric coordinates
-        auto invDenom = Precision(1) / (v1v3 * v1v3 * v2v2 - 2 * v1v2 * v1v3 * v2v3 + v1v1 * v2v3 * v2v3 + v1v2 * v1v2 * v3v3 - v1v1 * v2v2 * v3v3);
-
-        auto u = -((-v1vp * v2v3 * v2v3 + v1v3 * v2v3 * v2vp + v1vp * v2v2 * v3v3 - v1v2 * v2vp * v3v3 - v1v3 * v2v2 * v3vp + v1v2 * v2v3 * v3vp) * invDenom);
-        auto v = -(( v1v3 * v1vp * v2v3 - v1v3 * v1v3 * v2vp - v1v2 * v1vp * v3v3 + v1v1 * v2vp * v3v3 + v1v2 * v1v3 * v3vp - v1v1 * v2v3 * v3vp) * invDenom);
-        auto z = -((-v1v3 * v1vp * v2v2 + v1v2 * v1vp * v2v3 + v1v2 * v1v3 * v2vp - v1v1 * v2v3 * v2vp - v1v2 * v1v2 * v3vp + v1v1 * v2v2 * v3vp) * invDenom);
-
-        // Check if point is in triangle
-        return (u >= 0) && (v >= 0) && (z >= 0) && (u + v + z <= 1);
+        // p is on the inner side of every face, barycentric coordinates cancel for flat simplices
+        const auto o = orientation(s0, s1, s2, s3);
+
+        const auto o0 = orientation(p, s1, s2, s3);
+        const auto o1 = orientation(s0, p, s2, s3);
+        const auto o2 = orientation(s0, s1, p, s3);
+        const auto o3 = orientation(s0, s1, s2, p);
 
+        return o > 0 ? o0 >= 0 && o1 >= 0 && o2 >= 0 && o3 >= 0
+                     : o < 0 && o0 <= 0 && o1 <= 0 && o2 <= 0 && o3 <= 0;
     }
 
     static Precision sqDistanceToFace(const dPoint<3, Precision> &p,
-- 
2.43.0


From e2f63d497fdeec8640bc21ae349b851ca413791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:18 +0000
Subject: [PATCH 40/69] fix: the simple partitioner did not take the monitor
 every partitioner takes and could not be instantiated

---
 include/load_balancing/SimplePartitioner.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/load_balancing/SimplePartitioner.h b/include/load_balancing/SimplePartitioner.h
index f7a0715..3e1e8a4 100644
--- a/include/load_balancing/SimplePartitioner.h
+++ b/include/load_balancing/SimplePartitioner.h
@@ -13,7 +13,8 @@ namespace LoadBalancing
     {        
         PartitionTree<D, Precision> partition(const dBox<D, Precision>& bounds,
                                         dPoints<D, Precision>& points,
-                                        const Point_Ids& pointIds) override
+                                        const Point_Ids& pointIds,
+                                        MonitorT& /*monitor*/) override
         {
             auto x = (bounds.low[0] + bounds.high[0])/2;            
             auto boxPair = splitBox(bounds, 0, x);
-- 
2.43.0


From 54e35f956d5e7355841a29cc3843599da90b6402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:18 +0000
Subject: [PATCH 41/69] fix: copying a partition tree dereferenced missing
 intersection tests, assigning one did not compile, printing one wrote to
 standard output

---
 include/load_balancing/PartitionTree.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/load_balancing/PartitionTree.h b/include/load_balancing/PartitionTree.h
index 1536757..834e24f 100644
--- a/include/load_balancing/PartitionTree.h
+++ b/include/load_balancing/PartitionTree.h
@@ -22,7 +22,8 @@ namespace LoadBalancing
 		PartitionTree() = default;
         
 		PartitionTree(const PartitionTree& obj)
-			: intersectionChecker(obj.intersectionChecker->copy()), attachment(obj.attachment)
+			: intersectionChecker(obj.intersectionChecker ? obj.intersectionChecker->copy() : nullptr),
+			  attachment(obj.attachment)
 		{
 		}
 
@@ -30,8 +31,7 @@ namespace LoadBalancing
 
 		PartitionTree& operator=(const PartitionTree& rhs)
 		{
-			intersectionChecker = rhs.intersectionChecker.copy();
-			attachment = rhs.attachment;
+			return *this = PartitionTree(rhs);
 		}
 
 		PartitionTree& operator=(PartitionTree&&) = default;
@@ -127,7 +127,6 @@ namespace LoadBalancing
 			std::ostream* out;
 			void operator()(const Point_Ids& ids)
 			{
-				std::cout << "ids\n";
 				*out << std::string(indent, '-') << " " << ids.size() << "\n";
 			}
 			
-- 
2.43.0


From 64a36cebb8332291bc2e1811a67fb55cc29dc2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:23 +0000
Subject: [PATCH 42/69] fix: samples were smaller than requested when infinite
 points had been drawn

---
 include/load_balancing/sample_partitioner/Sampler.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/load_balancing/sample_partitioner/Sampler.h b/include/load_balancing/sample_partitioner/Sampler.h
index c07ad68..3c20176 100644
--- a/include/load_balancing/sample_partitioner/Sampler.h
+++ b/include/load_balancing/sample_partitioner/Sampler.h
@@ -159,14 +159,15 @@ namespace LoadBalancing
         template <typename Generator_t>
         Point_Ids generateSample(size_t sampleSize, const Point_Ids& pointIds, Generator_t& rand) {
 			VTUNE_TASK(GenerateSample);
+            // draw from the finite points only, infinite ones would have to be removed from the sample
+            std::vector<tIdType> finiteIds;
+            finiteIds.reserve(pointIds.size());
+            std::copy_if(pointIds.begin(), pointIds.end(), std::back_inserter(finiteIds), [](tIdType id){
+                return dPoint<D, Precision>::isFinite(id);
+            });
             std::vector<tIdType> resultIds;
-            std::sample(pointIds.begin(), pointIds.end(), std::back_inserter(resultIds),
+            std::sample(finiteIds.begin(), finiteIds.end(), std::back_inserter(resultIds),
                         sampleSize, rand);
-            resultIds.erase(std::remove_if(resultIds.begin(), resultIds.end(), [](tIdType id){
-                return !dPoint<D, Precision>::isFinite(id);
-                
-            }),
-            resultIds.end());
             Point_Ids result;
             for(auto id : resultIds) {
 	            result.insert(id);
-- 
2.43.0


From e045b9802db52cfc9c4fdb6eb7f97f2799c3f43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:33 +0000
Subject: [PATCH 43/69] fix: the wrapped classic partitioners divided sets
 below the cutoff, the extend splitter threw for single points

---
 .../OldPartitionerPartitioner.h               | 28 +++++++------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/include/load_balancing/OldPartitionerPartitioner.h b/include/load_balancing/OldPartitionerPartitioner.h
index 2a156b1..362cfaa 100644
--- a/include/load_balancing/OldPartitionerPartitioner.h
+++ b/include/load_balancing/OldPartitionerPartitioner.h
@@ -33,29 +33,21 @@ namespace LoadBalancing
                                         size_t remainingRecursions,
                                         std::string provenance) const
         {
-            Partitioning<D, Precision> partitioning;
-
-            if(remainingRecursions > 0) {
-                partitioning = splitter->partition(pointIds, points, provenance);
-            } else {
-                partitioning.emplace_back(pointIds, bounds, 0);
+            if(remainingRecursions == 0 || pointIds.size() <= baseCutoff) {
+                PartitionTree<D, Precision> leaf;
+                leaf.attachment = Point_Ids(pointIds);
+                leaf.intersectionChecker = std::make_unique<BoundsIntersectionChecker<D, Precision>>(bounds);
+                return leaf;
             }
 
+            auto partitioning = splitter->partition(pointIds, points, provenance);
+
             typename PartitionTree<D, Precision>::ChildContainer children;
             size_t count = 0;
             for(auto& partition : partitioning) {
-	            auto prov = provenance;
-	            prov.append(std::to_string(count));
-                PartitionTree<D, Precision> subtree;
-                if(remainingRecursions > 0 && pointIds.size() > baseCutoff) {
-                    subtree = buildTree(partition.bounds, points,
-                                        partition.points, remainingRecursions - 1, prov);
-
-                } else {
-                    subtree.attachment = std::move(partition.points);
-            		subtree.intersectionChecker = std::make_unique<BoundsIntersectionChecker<D, Precision>>(partition.bounds);
-                }
-                children.push_back(std::move(subtree));
+                children.push_back(buildTree(partition.bounds, points, partition.points,
+                                             remainingRecursions - 1,
+                                             provenance + std::to_string(count)));
                 ++count;
             }
 
-- 
2.43.0


From 895a38264a7cf9ebde6fd3a697e7dbe164191253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:17 +0000
Subject: [PATCH 44/69] fix: edge weights of samples collapsed to the lowest
 one, the scale of their mapping was truncated to an integer

---
 include/load_balancing/sample_partitioner/Sampler.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/load_balancing/sample_partitioner/Sampler.h b/include/load_balancing/sample_partitioner/Sampler.h
index 3c20176..051ceec 100644
--- a/include/load_balancing/sample_partitioner/Sampler.h
+++ b/include/load_balancing/sample_partitioner/Sampler.h
@@ -23,7 +23,7 @@ namespace LoadBalancing
 	struct Mapper
 	{
 		Mapper(In minIn, In maxIn, Out minOut, Out maxOut)
-			: minIn(minIn), maxIn(maxIn), minOut(minOut), maxOut(maxOut), scale((maxOut - minOut)/(maxIn - minIn))
+			: minIn(minIn), maxIn(maxIn), minOut(minOut), maxOut(maxOut), scale((maxOut - minOut)/(maxIn - minIn)) // a fraction, in general
 		{
 			assert(minIn < maxIn);
 		}
@@ -36,7 +36,7 @@ namespace LoadBalancing
 	private:
 		const In minIn, maxIn;
 		const Out minOut, maxOut;
-		const Out scale;
+		const In scale;
 	};
 	
     struct Graph {
-- 
2.43.0


From d463c2be1be3f631d5a697fa5d76648237377e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:17 +0000
Subject: [PATCH 45/69] fix: trees of the nearest sample bipartitioner lacked
 an intersection test at their root

---
 .../NearestSamplePointAssigningSampleBipartitioner.h          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/load_balancing/sample_partitioner/NearestSamplePointAssigningSampleBipartitioner.h b/include/load_balancing/sample_partitioner/NearestSamplePointAssigningSampleBipartitioner.h
index 9a721f8..f29f4f1 100644
--- a/include/load_balancing/sample_partitioner/NearestSamplePointAssigningSampleBipartitioner.h
+++ b/include/load_balancing/sample_partitioner/NearestSamplePointAssigningSampleBipartitioner.h
@@ -84,10 +84,10 @@ namespace LoadBalancing
 				result.attachment = typename decltype(tree)::ChildContainer {
 					std::move(leftTree), std::move(rightTree)};
 			} else {
-				result.intersectionChecker =
-					std::make_unique<BoundsIntersectionChecker<D, Precision>>(bounds);
 				result.attachment = pointIds;
 			}
+			result.intersectionChecker =
+				std::make_unique<BoundsIntersectionChecker<D, Precision>>(bounds);
 			return result;
 		}
          
-- 
2.43.0


From 9a67e773a6a3a8d71561d11c0d3cef36bbebd6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:17 +0000
Subject: [PATCH 46/69] fix: bounds of empty partitions and of empty parts of a
 sample were uninitialised

---
 include/load_balancing/BoundsIntersectionChecker.h |  2 +-
 include/load_balancing/BoxUtils.h                  | 12 +++++++++++-
 include/load_balancing/GridIntersectionChecker.h   |  3 ++-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/load_balancing/BoundsIntersectionChecker.h b/include/load_balancing/BoundsIntersectionChecker.h
index 41016ef..265d76a 100644
--- a/include/load_balancing/BoundsIntersectionChecker.h
+++ b/include/load_balancing/BoundsIntersectionChecker.h
@@ -57,7 +57,7 @@ namespace LoadBalancing
 			for(auto& ids : idsets) {
 				idss.emplace_back(std::move(ids.data()));
 			}
-			std::vector<dBox<D, Precision>> boundss(partitions);
+			std::vector<dBox<D, Precision>> boundss(partitions, emptyBox<D, Precision>());
 			std::vector<char> initialized(partitions); // one object per partition, as they are set concurrently
 			
 			tbb::parallel_for(size_t(0), partitions, [&](auto partition) {
diff --git a/include/load_balancing/BoxUtils.h b/include/load_balancing/BoxUtils.h
index d59780c..b8e7693 100644
--- a/include/load_balancing/BoxUtils.h
+++ b/include/load_balancing/BoxUtils.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <cassert>
+#include <limits>
 #include "Geometry.h"
 #include "load_balancing/VectorOperations.h"
 
@@ -21,6 +22,15 @@ namespace LoadBalancing
         return std::make_tuple(std::move(leftBounds), std::move(rightBounds));
     }
     
+    // a box that contains and intersects nothing
+    template <uint D, typename Precision>
+    dBox<D, Precision> emptyBox() {
+        dBox<D, Precision> result;
+        result.low.fill(std::numeric_limits<Precision>::max());
+        result.high.fill(std::numeric_limits<Precision>::lowest());
+        return result;
+    }
+
     template <uint D, typename Precision>
     void enlargeBoxAroundVector(dBox<D, Precision>& box, const dVector<D, Precision>& v) {
         auto overlap = [](const dVector<D, Precision>& left, const dVector<D, Precision>& right) -> dVector<D, Precision> {
@@ -50,7 +60,7 @@ namespace LoadBalancing
         constexpr uint D = std::tuple_size<typename It::value_type>::value;
         using Precision = typename It::value_type::value_type;
         
-        dBox<D, Precision> result;
+        auto result = emptyBox<D, Precision>();
         if(vbegin != vend){
             result.low = *vbegin++;
             result.high = result.low;
diff --git a/include/load_balancing/GridIntersectionChecker.h b/include/load_balancing/GridIntersectionChecker.h
index dea3013..1128cf0 100644
--- a/include/load_balancing/GridIntersectionChecker.h
+++ b/include/load_balancing/GridIntersectionChecker.h
@@ -4,6 +4,7 @@
 #include <functional>
 #include "load_balancing/IntersectionChecker.h"
 #include "load_balancing/Grid.h"
+#include "load_balancing/BoxUtils.h"
 #include "datastructures/AABBTree.h"
 
 namespace LoadBalancing
@@ -123,7 +124,7 @@ namespace LoadBalancing
 			for(auto& ids : idsets) {
 				idss.emplace_back(std::move(ids.data()));
 			}
-			std::vector<dBox<D, Precision>> boundss(partitions);
+			std::vector<dBox<D, Precision>> boundss(partitions, emptyBox<D, Precision>());
 			std::vector<char> initialized(partitions); // one object per partition, as they are set concurrently
 			std::vector<std::unordered_set<dIndex<D, IndexPrecision>,
 				dIndexHasher<D, IndexPrecision>>> indices(partitions);
-- 
2.43.0


From a8aafa54231b530b1078c3fbe4444c27359e6499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:17 +0000
Subject: [PATCH 47/69] fix: the accurate grid test kept a pointer to the
 caller's ids, which may be gone, and leaked the grid test

---
 .../AccurateGridIntersectionChecker.h         | 34 +++++++------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/include/load_balancing/AccurateGridIntersectionChecker.h b/include/load_balancing/AccurateGridIntersectionChecker.h
index c6a878b..833910b 100644
--- a/include/load_balancing/AccurateGridIntersectionChecker.h
+++ b/include/load_balancing/AccurateGridIntersectionChecker.h
@@ -22,7 +22,6 @@ namespace LoadBalancing
 
 		private:
 		const dPoints<D, Precision>* points;
-		const Point_Ids* pointIds;
 		std::shared_ptr<CellsWithPoints> mCells;
 
 
@@ -41,11 +40,9 @@ namespace LoadBalancing
 
 		AccurateGridIntersectionChecker(GridIntersectionChecker<D, Precision> gic,
 		                                std::shared_ptr<CellsWithPoints> cells,
-		                                const dPoints<D, Precision>& points,
-		                                const Point_Ids& pointIds)
+		                                const dPoints<D, Precision>& points)
 			: GridIntersectionChecker<D, Precision>(std::move(gic)),
 			  points(&points),
-			  pointIds(&pointIds),
 			  mCells(std::move(cells)) { }
 		
 		virtual bool intersects(const dSphere<D, Precision>& sphere,
@@ -56,8 +53,7 @@ namespace LoadBalancing
 				auto it = mCells->find(cell);
 				assert(it != mCells->end());
 				for(tIdType pointId : it->second.pointIds) {
-					if(pointIds->contains(pointId)
-					   && checkCircumsphereContainsPoint((*points)[pointId], sphere, simplex))
+					if(checkCircumsphereContainsPoint((*points)[pointId], sphere, simplex))
 						return true;
 				}
 			}
@@ -120,27 +116,21 @@ namespace LoadBalancing
 				GridIntersectionPartitionMaker<D, Precision>::operator()(points, ids, partitions,
 																		  std::move(part));
 			using Cells = typename AGIC::CellsWithPoints;
-			Cells cells;
-			for(tIdType id : ids) {
-				auto index = GridIntersectionPartitionMaker<D, Precision>::mGrid.indexAt(points[id].coords);
-				auto it = cells.find(index);
-				if(it != cells.end()) {
-					it->second.pointIds.push_back(id);
-				} else {
-					cells[index] = typename AGIC::CellData{{id}};
+			for(auto& partition : gridIntersectionPartitioning) {
+				// the tests outlive the set of all ids, they need the partition's points only
+				auto cellsPtr = std::make_shared<Cells>();
+				for(tIdType id : partition.pointIds) {
+					if(dPoint<D, Precision>::isFinite(id)) {
+						auto index = GridIntersectionPartitionMaker<D, Precision>::mGrid.indexAt(points[id].coords);
+						(*cellsPtr)[index].pointIds.push_back(id);
+					}
 				}
-			}
 
-			auto cellsPtr = std::make_shared<decltype(cells)>(std::move(cells));
-			
-			std::vector<IntersectionPartition<D, Precision>> result;
-			for(auto& partition : gridIntersectionPartitioning) {
 				auto intersectionChecker = std::move(partition.intersectionChecker);
-				auto gridIntersectionChecker =
-					*(dynamic_cast<GIC*>(intersectionChecker.release()));
+				auto& gridIntersectionChecker = dynamic_cast<GIC&>(*intersectionChecker);
 				partition.intersectionChecker =
 					std::make_unique<AGIC>(std::move(gridIntersectionChecker),
-					                       cellsPtr, points, ids);
+					                       std::move(cellsPtr), points);
 			}
 
 			return gridIntersectionPartitioning;
-- 
2.43.0


From 6378cfdd0414b9afa11c619b849dc04f91405ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:17 +0000
Subject: [PATCH 48/69] fix: samples of few points could be empty, points were
 then assigned to uninitialised sample indices

---
 include/load_balancing/sample_partitioner/Sampler.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/load_balancing/sample_partitioner/Sampler.h b/include/load_balancing/sample_partitioner/Sampler.h
index 051ceec..6d518ac 100644
--- a/include/load_balancing/sample_partitioner/Sampler.h
+++ b/include/load_balancing/sample_partitioner/Sampler.h
@@ -132,7 +132,8 @@ namespace LoadBalancing
                                     const Point_Ids& pointIds,
                                     size_t partitionSize)
         {
-            auto sample = generateSample(mSampleSize(points.finite_size()), pointIds, mRand);
+            // points are assigned to samples, so at least one is needed
+            auto sample = generateSample(std::max(mSampleSize(points.finite_size()), size_t(1)), pointIds, mRand);
             auto simplices = triangulateSample(bounds, points, sample);
             auto idTranslation = generateIdTranslation(sample);
             auto graph = makeGraph(simplices, points, idTranslation,
-- 
2.43.0


From aa99c8a43b12286dc9456e5f962290a7561a39e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:17 +0000
Subject: [PATCH 49/69] fix: the hyperplane partitioner had no plane to
 separate points by if the sample was not cut, and sampled empty sets

---
 .../HyperplaneBipartitioner.h                 | 35 ++++++++++++++-----
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/include/load_balancing/sample_partitioner/HyperplaneBipartitioner.h b/include/load_balancing/sample_partitioner/HyperplaneBipartitioner.h
index 9b4b2d3..c5a844b 100644
--- a/include/load_balancing/sample_partitioner/HyperplaneBipartitioner.h
+++ b/include/load_balancing/sample_partitioner/HyperplaneBipartitioner.h
@@ -52,7 +52,10 @@ namespace LoadBalancing
 			                 MonitorT& monitor) {
 
 			PartitionTree<D, Precision> result;
-			if(numPartitions > 1) {
+			const bool hasPoints = std::any_of(pointIds.begin(), pointIds.end(), [](tIdType id) {
+				return dPoint<D, Precision>::isFinite(id);
+			});
+			if(numPartitions > 1 && hasPoints) {
            		mSampling = mSampler(bounds, points, pointIds, 2);
 				monitor.registerSampleTriangulation(mSampling.size(), "s0");
 
@@ -87,16 +90,30 @@ namespace LoadBalancing
 					matrix(i, D) = 1;
 				}
 
-				Eigen::JacobiSVD<Matrix> svd(matrix, Eigen::ComputeFullV);
-				Vector vector = svd.matrixV().col(D);
+				dVector<D, Precision> normal;
+				Precision offset = std::numeric_limits<Precision>::quiet_NaN();
+				if(m > 0) {
+					Eigen::JacobiSVD<Matrix> svd(matrix, Eigen::ComputeFullV);
+					Vector vector = svd.matrixV().col(D);
 
-				dVector<D, Precision> orthogonal;
-				for(size_t j = 0; j < D; ++j) {
-					orthogonal[j] = vector(j);
+					dVector<D, Precision> orthogonal;
+					for(size_t j = 0; j < D; ++j) {
+						orthogonal[j] = vector(j);
+					}
+
+					normal = 1/len(orthogonal) * orthogonal;
+					offset = -vector(D)/scalarProduct(normal, orthogonal);
+				}
+
+				// without any cut edges, or if they determine no plane, halve the points' longest extent
+				if(!std::isfinite(offset)) {
+					const auto stats = getPointStats(pointIds, points);
+					const auto extent = stats.max - stats.min;
+					const size_t dim = std::distance(extent.begin(), std::max_element(extent.begin(), extent.end()));
+					normal.fill(0);
+					normal[dim] = 1;
+					offset = stats.min[dim] + extent[dim] / 2;
 				}
-				
-				auto normal = 1/len(orthogonal) * orthogonal;
-				auto offset = -vector(D)/scalarProduct(normal, orthogonal);
 
 				// separate points
 				Concurrent_Growing_Point_Ids leftIdset(pointIds.size() / 2);
-- 
2.43.0


From 28ee4ac6f62ff401a902d5e5ba601b5d912de63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:17 +0000
Subject: [PATCH 50/69] fix: the hyperplane intersection test missed points
 close to the plane, its slack was absolute

---
 include/load_balancing/HyperplaneIntersectionChecker.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/load_balancing/HyperplaneIntersectionChecker.h b/include/load_balancing/HyperplaneIntersectionChecker.h
index 4566286..bd50dbe 100644
--- a/include/load_balancing/HyperplaneIntersectionChecker.h
+++ b/include/load_balancing/HyperplaneIntersectionChecker.h
@@ -1,4 +1,5 @@
 #pragma once
+#include <limits>
 #include "IntersectionChecker.h"
 #include <CGAL/Kernel_d/Point_d.h>
 #include <CGAL/Kernel_d/Hyperplane_d.h>
@@ -17,7 +18,10 @@ namespace LoadBalancing {
 		virtual bool intersects(const dSphere<D, Precision>& sphere,
 		                        const dSimplex<D, Precision>&) const
 		{
-			return distanceToPlane(sphere.center, mNormal, mOffset) + sphere.radius > 0;
+			// rounding errors are relative to the values involved
+			const Precision slack = 8 * D * std::numeric_limits<Precision>::epsilon()
+				* (len(sphere.center) + std::abs(mOffset) + sphere.radius);
+			return !(distanceToPlane(sphere.center, mNormal, mOffset) + sphere.radius + slack <= 0);
 		}
 		
 		virtual std::unique_ptr<IntersectionChecker<D, Precision>> copy() const
-- 
2.43.0


From 2a95fa9dc68ec75215d101617a5e260b866b1bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:47 +0000
Subject: [PATCH 51/69] fix: the load balanced triangulator kept simplices of
 the infinite points for empty partitions

---
 include/LoadBalancedDCTriangulator.tpp | 13 +++++++++++--
 include/load_balancing/PartitionTree.h | 12 ++++++++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/LoadBalancedDCTriangulator.tpp b/include/LoadBalancedDCTriangulator.tpp
index 9adb3b8..200632a 100644
--- a/include/LoadBalancedDCTriangulator.tpp
+++ b/include/LoadBalancedDCTriangulator.tpp
@@ -581,6 +581,15 @@ namespace LoadBalancing
 
         const auto& bounds = tree.intersectionChecker->bounds();
 
+        // partitions without points do not contribute, their triangulations of the infinite points would remain
+        if (auto children = std::get_if<typename PartitionTree<D, Precision>::ChildContainer>(&tree.attachment)) {
+            auto firstEmpty = std::stable_partition(children->begin(), children->end(),
+                                                    [](const auto &child) { return child.hasFinitePoints(); });
+            if (firstEmpty == children->begin() && firstEmpty != children->end())
+                ++firstEmpty;
+            children->erase(firstEmpty, children->end());
+        }
+
         if (std::holds_alternative<typename PartitionTree<D, Precision>::ChildContainer>(tree.attachment)
                 && std::get<typename PartitionTree<D, Precision>::ChildContainer>(tree.attachment).size() > 1) {
             VTUNE_TASK(TriangulateRecursive);
@@ -686,8 +695,8 @@ namespace LoadBalancing
 
         } else { // base case
             if (std::holds_alternative<typename PartitionTree<D, Precision>::ChildContainer>(tree.attachment)){
-                return _triangulateBase(std::get<Point_Ids>(
-                        std::get<typename PartitionTree<D, Precision>::ChildContainer>(tree.attachment)[0].attachment), bounds, provenance, mParallelBaseCase);
+                return recursiveTriangulate(std::move(
+                        std::get<typename PartitionTree<D, Precision>::ChildContainer>(tree.attachment)[0]), provenance);
             } else {
                 return _triangulateBase(std::get<Point_Ids>(tree.attachment), bounds, provenance, mParallelBaseCase);
             }
diff --git a/include/load_balancing/PartitionTree.h b/include/load_balancing/PartitionTree.h
index 834e24f..216d07c 100644
--- a/include/load_balancing/PartitionTree.h
+++ b/include/load_balancing/PartitionTree.h
@@ -70,6 +70,18 @@ namespace LoadBalancing
             return std::holds_alternative<Point_Ids>(attachment);
         }
 
+        bool hasFinitePoints() const {
+            if(auto children = std::get_if<ChildContainer>(&attachment)) {
+                return std::any_of(children->begin(), children->end(), [](const PartitionTree& child) {
+                    return child.hasFinitePoints();
+                });
+            }
+            auto& ids = std::get<Point_Ids>(attachment);
+            return std::any_of(ids.begin(), ids.end(), [](tIdType id) {
+                return dPoint<D, Precision>::isFinite(id);
+            });
+        }
+
 	private:
         static void flattenContainer(ChildContainer& children)
 		{
-- 
2.43.0


From 5eeaa65d0fa54bba1e6720dde567c6183302456f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:47 +0000
Subject: [PATCH 52/69] fix: the load balanced triangulator overlooked
 simplices around points of another partition enclosed by their own

---
 include/LoadBalancedDCTriangulator.tpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/LoadBalancedDCTriangulator.tpp b/include/LoadBalancedDCTriangulator.tpp
index 200632a..d7fc64e 100644
--- a/include/LoadBalancedDCTriangulator.tpp
+++ b/include/LoadBalancedDCTriangulator.tpp
@@ -151,10 +151,28 @@ namespace LoadBalancing
         * partition or not
         */
 
+        // the convex hull leads to all affected simplices, unless points of another partition lie within it
+        const auto &bounds = partitioning[partition].bounds;
+        const bool mayEnclose = std::any_of(partitioning.begin(), partitioning.end(), [&](const auto &other) {
+            if (&other == &partitioning[partition])
+                return false;
+            for (uint d = 0; d < D; ++d)
+                if (!(other.bounds.low[d] < bounds.high[d] && bounds.low[d] < other.bounds.high[d]))
+                    return false;
+            return true;
+        });
+
+        std::vector<tIdType> start(simplices.convexHull.begin(), simplices.convexHull.end());
+        if (mayEnclose) {
+            start.clear();
+            for (const auto &simplex : simplices)
+                start.push_back(simplex.id);
+        }
+
         INDENT
 
         VTUNE_TASK(IdentifyEdge);
-        tbb::parallel_do(simplices.convexHull, [&](const tIdType id,
+        tbb::parallel_do(start, [&](const tIdType id,
                                                 tbb::parallel_do_feeder<tIdType> &feeder) {
 
             if (!dSimplex<D, Precision>::isFinite(id))
-- 
2.43.0


From 3370d1f14164161aeb729de45d89cbf14b87e441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:24 +0000
Subject: [PATCH 53/69] fix: updating a neighbor published intermediate values,
 failing an assertion when a simplex is inspected by several threads at once

---
 include/LoadBalancedDCTriangulator.tpp | 9 ++++++---
 src/lib/DCTriangulator.cpp             | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/LoadBalancedDCTriangulator.tpp b/include/LoadBalancedDCTriangulator.tpp
index d7fc64e..b5f6ddd 100644
--- a/include/LoadBalancedDCTriangulator.tpp
+++ b/include/LoadBalancedDCTriangulator.tpp
@@ -351,7 +351,8 @@ namespace LoadBalancing
                         ) {
 
                     // update needed
-                    simplex.neighbors[d] = dSimplex<D, Precision>::cINF; // reset to infinite
+                    // the simplex may be inspected by several threads at once, hence set its neighbor only once determined
+                    tIdType neighbor = dSimplex<D, Precision>::cINF; // reset to infinite
     #ifndef NDEBUG
                     bool set = false;
     #endif
@@ -368,9 +369,9 @@ namespace LoadBalancing
                             && !simplicesHandle[cand].contains(simplex.vertices[d]) // its neighboring at the correct edge
                                 ) {
                             PLOG("Neighbor with " << simplicesHandle[cand] << std::endl);
-                            ASSERT(!set || cand == simplex.neighbors[d]); //second term is to guard against double entries
+                            ASSERT(!set || cand == neighbor); //second term is to guard against double entries
 
-                            simplex.neighbors[d] = cand;
+                            neighbor = cand;
                             if(simplicesHandle[cand].mark < queuedMark) {
                                 simplicesHandle[cand].mark = queuedMark;
                                 feeder.add(cand);
@@ -381,6 +382,8 @@ namespace LoadBalancing
     #endif
                         }
                     }
+
+                    simplex.neighbors[d] = neighbor;
                 }
             }
             DEDENT
diff --git a/src/lib/DCTriangulator.cpp b/src/lib/DCTriangulator.cpp
index 9bd87ce..9373a4e 100644
--- a/src/lib/DCTriangulator.cpp
+++ b/src/lib/DCTriangulator.cpp
@@ -309,7 +309,8 @@ void DCTriangulator<D, Precision>::updateNeighbors(
                     ) {
 
                 // update needed
-                simplex.neighbors[d] = dSimplex<D, Precision>::cINF; // reset to infinite
+                // the simplex may be inspected by several threads at once, hence set its neighbor only once determined
+                tIdType neighbor = dSimplex<D, Precision>::cINF; // reset to infinite
 #ifndef NDEBUG
                 bool set = false;
 #endif
@@ -326,9 +327,9 @@ void DCTriangulator<D, Precision>::updateNeighbors(
                         && !simplicesHandle[cand].contains(simplex.vertices[d]) // its neighboring at the correct edge
                             ) {
                         PLOG("Neighbor with " << simplicesHandle[cand] << std::endl);
-                        ASSERT(!set || cand == simplex.neighbors[d]); //second term is to guard against double entries
+                        ASSERT(!set || cand == neighbor); //second term is to guard against double entries
 
-                        simplex.neighbors[d] = cand;
+                        neighbor = cand;
                         if(simplicesHandle[cand].mark < queuedMark) {
                             simplicesHandle[cand].mark = queuedMark;
                             feeder.add(cand);
@@ -339,6 +340,8 @@ void DCTriangulator<D, Precision>::updateNeighbors(
 #endif
                     }
                 }
+
+                simplex.neighbors[d] = neighbor;
             }
         }
         DEDENT
-- 
2.43.0


From b9fd561cd9dc18e2460952113f1a3bff59791701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:19 +0000
Subject: [PATCH 54/69] fix: circumspheres of flat simplices were too
 inaccurate, their radius now covers the error

---
 src/lib/Geometry.cpp | 72 +++++++++++++++++++++++++++++---------------
 1 file changed, 48 insertions(+), 24 deletions(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index 04afbd6..27e15ae 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -78,19 +78,35 @@ dVector<D, CsPrecision> csDiff(const dVector<D, Precision> &b, const dVector<D,
     return r;
 }
 
-/* sphere with its center at offset r from s0. The radius covers the rounding of the center and of the radius:
- * a sphere must not miss a box that the exact circumsphere intersects */
+/* sphere with its center at offset num / den from s0, numMag and denMag are the sums of the magnitudes of their terms.
+ * The radius covers the rounding of the center and of the radius: a sphere must not miss a box that the exact
+ * circumsphere intersects. Nothing is known about the sphere if rounding determines den */
 template<uint D, typename Precision>
-dSphere<D, Precision> csSphere(const dPoint<D, Precision> &s0, const dVector<D, CsPrecision> &r) {
+dSphere<D, Precision> csSphere(const dPoint<D, Precision> &s0,
+                               const dVector<D, CsPrecision> &num, const dVector<D, CsPrecision> &numMag,
+                               const CsPrecision den, const CsPrecision denMag) {
     dSphere<D, Precision> sphere;
-    CsPrecision slack = 0;
+
+    constexpr CsPrecision eps = 8 * std::numeric_limits<CsPrecision>::epsilon();
+    const CsPrecision minDen = std::abs(den) - eps * denMag;
+    if (!(minDen > 0)) {
+        sphere.center = s0.coords;
+        sphere.radius = std::numeric_limits<Precision>::infinity();
+        return sphere;
+    }
+
+    CsPrecision slack = 0, sqRadius = 0, sqError = 0;
     for (uint d = 0; d < D; ++d) {
-        sphere.center[d] = s0.coords[d] + r[d];
+        const CsPrecision r = num[d] / den;
+        const CsPrecision error = eps * (numMag[d] + std::abs(r) * denMag) / minDen;
+        sphere.center[d] = s0.coords[d] + r;
         slack += std::abs(sphere.center[d]);
+        sqRadius += r * r;
+        sqError += error * error;
     }
 
-    const CsPrecision radius = sqrt(dot(r, r));
-    sphere.radius = radius + 4 * std::numeric_limits<Precision>::epsilon() * (radius + slack);
+    const CsPrecision radius = sqrt(sqRadius);
+    sphere.radius = radius + 2 * sqrt(sqError) + 4 * std::numeric_limits<Precision>::epsilon() * (radius + slack);
 
     return sphere;
 }
@@ -209,10 +225,11 @@ public:
         const auto aa = dot(a, a);
         const auto bb = dot(b, b);
 
-        const auto den = 2 * (a[0] * b[1] - a[1] * b[0]);
-
-        return csSphere<2, Precision>(s0, {(b[1] * aa - a[1] * bb) / den,
-                                           (a[0] * bb - b[0] * aa) / den});
+        return csSphere<2, Precision>(s0,
+                                      {b[1] * aa - a[1] * bb, a[0] * bb - b[0] * aa},
+                                      {std::abs(b[1]) * aa + std::abs(a[1]) * bb, std::abs(a[0]) * bb + std::abs(b[0]) * aa},
+                                      2 * (a[0] * b[1] - a[1] * b[0]),
+                                      2 * (std::abs(a[0] * b[1]) + std::abs(a[1] * b[0])));
     }
 };
 
@@ -370,27 +387,34 @@ public:
         const auto b = csDiff(s2.coords, s0.coords);
         const auto c = csDiff(s3.coords, s0.coords);
 
-        const auto cross = [](const dVector<3, CsPrecision> &u, const dVector<3, CsPrecision> &v) {
-            return dVector<3, CsPrecision>({u[1] * v[2] - u[2] * v[1],
-                                            u[2] * v[0] - u[0] * v[2],
-                                            u[0] * v[1] - u[1] * v[0]});
+        // factor -1 for the cross product, 1 for the magnitudes of its terms
+        const auto cross = [](const dVector<3, CsPrecision> &u, const dVector<3, CsPrecision> &v, const int f) {
+            return dVector<3, CsPrecision>({u[1] * v[2] + f * (u[2] * v[1]),
+                                            u[2] * v[0] + f * (u[0] * v[2]),
+                                            u[0] * v[1] + f * (u[1] * v[0])});
+        };
+        const auto abs = [](dVector<3, CsPrecision> u) {
+            for (auto &x : u)
+                x = std::abs(x);
+            return u;
         };
 
-        const auto bc = cross(b, c);
-        const auto ca = cross(c, a);
-        const auto ab = cross(a, b);
+        const auto absA = abs(a), absB = abs(b), absC = abs(c);
+        const auto bc = cross(b, c, -1), bcMag = cross(absB, absC, 1);
+        const auto ca = cross(c, a, -1), caMag = cross(absC, absA, 1);
+        const auto ab = cross(a, b, -1), abMag = cross(absA, absB, 1);
 
         const auto aa = dot(a, a);
         const auto bb = dot(b, b);
         const auto cc = dot(c, c);
 
-        const auto den = 2 * dot(a, bc);
-
-        dVector<3, CsPrecision> r;
-        for (uint d = 0; d < 3; ++d)
-            r[d] = (aa * bc[d] + bb * ca[d] + cc * ab[d]) / den;
+        dVector<3, CsPrecision> num, numMag;
+        for (uint d = 0; d < 3; ++d) {
+            num[d] = aa * bc[d] + bb * ca[d] + cc * ab[d];
+            numMag[d] = aa * bcMag[d] + bb * caMag[d] + cc * abMag[d];
+        }
 
-        return csSphere<3, Precision>(s0, r);
+        return csSphere<3, Precision>(s0, num, numMag, 2 * dot(a, bc), 2 * dot(absA, bcMag));
     }
 };
 
-- 
2.43.0


From 18bda248d2fd9264055096fb1652708b4fe43553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:47 +0000
Subject: [PATCH 55/69] fix: point generators drew from a copy of the random
 generator, repeated calls returned the same points

---
 include/utils/Generator.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/utils/Generator.h b/include/utils/Generator.h
index b71252d..a478f92 100644
--- a/include/utils/Generator.h
+++ b/include/utils/Generator.h
@@ -56,7 +56,7 @@ protected:
               tGenerator &gen) const {
 
         std::uniform_real_distribution<Precision> distribution(0, 1);
-        auto dice = std::bind(distribution, gen);
+        auto dice = std::bind(distribution, std::ref(gen));
 
         dVector<D, Precision> dim = bounds.high;
         for (uint d = 0; d < D; ++d) {
@@ -89,7 +89,7 @@ protected:
               tGenerator &gen) const {
 
         std::normal_distribution<Precision> distribution(0, 0.5);
-        auto dice = std::bind(distribution, gen);
+        auto dice = std::bind(distribution, std::ref(gen));
 
         dVector<D, Precision> midpoint = bounds.low;
         dVector<D, Precision> span = bounds.high;
@@ -129,7 +129,7 @@ protected:
               tGenerator &gen) const {
 
         std::normal_distribution<Precision> distribution(0, 0.5);
-        auto dice = std::bind(distribution, gen);
+        auto dice = std::bind(distribution, std::ref(gen));
 
         dVector<D, Precision> gMidpoint = bounds.low;
 
@@ -192,7 +192,7 @@ protected:
               tGenerator &gen) const {
 
         std::normal_distribution<Precision> distribution(0, 1);
-        auto dice = std::bind(distribution, gen);
+        auto dice = std::bind(distribution, std::ref(gen));
 
         dVector<D, Precision> radius;
         dVector<D, Precision> center = bounds.low;
@@ -252,7 +252,7 @@ protected:
               Precision skew) const {
 
         std::uniform_real_distribution<Precision> distribution(0, 1);
-        auto dice = std::bind(distribution, gen);
+        auto dice = std::bind(distribution, std::ref(gen));
 
         dVector<D, Precision> a = bounds.low;
         a[1] += skew * (bounds.high[1] - bounds.low[1]);
-- 
2.43.0


From efa4a075ed282d85c980d2dff9d98ebe1412f2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:47 +0000
Subject: [PATCH 56/69] fix: bubble and skew line generators left the last
 points undefined if their number did not divide evenly

---
 include/utils/Generator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/utils/Generator.h b/include/utils/Generator.h
index a478f92..3b54763 100644
--- a/include/utils/Generator.h
+++ b/include/utils/Generator.h
@@ -149,7 +149,6 @@ protected:
             }
         }
 
-        tIdType ppB = n / bubbles.size(); // points per bubble
         for(uint b = 0; b < bubbles.size(); ++b) {
             const auto & bubble = bubbles[b];
 
@@ -161,7 +160,7 @@ protected:
                 span[d] -= bubble.low[d];
             }
 
-            for (tIdType i = b*ppB + 1; i <= (b+1)*ppB; ++i) {
+            for (tIdType i = b * n / bubbles.size() + 1; i <= (b + 1) * n / bubbles.size(); ++i) {
                 dPoint<D, Precision> p;
 
                 do {
@@ -274,7 +273,7 @@ protected:
         // a is skewed
         // b crosses the opposite corner
 
-        for (tIdType i = 1; i < n; i += 2) {
+        for (tIdType i = 1; i <= n; i += 2) {
             dPoint<D, Precision> p1, p2;
 
             Precision r = dice();
@@ -286,7 +285,8 @@ protected:
 
 
             points[i] = std::move(p1);
-            points[i + 1] = std::move(p2);
+            if (i + 1 <= n)
+                points[i + 1] = std::move(p2);
         }
 
         // TODO checks for colliding points, straight lines, etc.
-- 
2.43.0


From 88b669e7d3f94806cb46f4c17261483b441e9879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:47 +0000
Subject: [PATCH 57/69] fix: unbound and malicious bubble generators wrote the
 reserved zero point and left the last one undefined, their bubble index could
 exceed the number of bubbles

---
 include/load_balancing/MaliciousBubbleGenerator.h | 4 ++--
 include/load_balancing/UnboundBubbleGenerator.h   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/load_balancing/MaliciousBubbleGenerator.h b/include/load_balancing/MaliciousBubbleGenerator.h
index 15b1186..2168184 100644
--- a/include/load_balancing/MaliciousBubbleGenerator.h
+++ b/include/load_balancing/MaliciousBubbleGenerator.h
@@ -32,7 +32,7 @@ protected:
         std::normal_distribution<Precision> pointDist(0.0, 0.5);
         
         for(size_t i = 0; i < n; ++i) {
-            size_t centerIndex = i * ((float)mNumBubbles / n);
+            size_t centerIndex = i * mNumBubbles / n;
             const auto& center = bubbleCenters[centerIndex];
             const auto& radius = bubbleRadiuses[centerIndex];
                   
@@ -43,7 +43,7 @@ protected:
                 });
                 coords = coords * radius + center;
             } while(!bounds.contains(coords));            
-            points[i] = coords;
+            points[i + 1] = coords;
         }
     }
     
diff --git a/include/load_balancing/UnboundBubbleGenerator.h b/include/load_balancing/UnboundBubbleGenerator.h
index 6c274c0..a51e9ea 100644
--- a/include/load_balancing/UnboundBubbleGenerator.h
+++ b/include/load_balancing/UnboundBubbleGenerator.h
@@ -54,14 +54,14 @@ protected:
         });
         
         for(size_t i = 0; i < n; ++i) {
-            size_t centerIndex = i * ((float)mNumBubbles / n);
+            size_t centerIndex = i * mNumBubbles / n;
             
             dVector<D, Precision> coords;
             std::generate(coords.begin(), coords.end(), [&pointDist, &gen]() -> auto {
                 return pointDist(gen);
             });
             
-            points[i] = bubbleCenters[centerIndex] + coords;
+            points[i + 1] = bubbleCenters[centerIndex] + coords;
         }
     }
 };
-- 
2.43.0


From 373e8802866ec6c93e7605ab5cc36621de368d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:47 +0000
Subject: [PATCH 58/69] fix: point generators are deleted through their base
 class, which lacked a virtual destructor

---
 include/utils/Generator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/utils/Generator.h b/include/utils/Generator.h
index 3b54763..63ef916 100644
--- a/include/utils/Generator.h
+++ b/include/utils/Generator.h
@@ -8,6 +8,8 @@ template<uint D, typename Precision>
 class PointGenerator {
 
 public:
+    virtual ~PointGenerator() = default;
+
     dPoints<D, Precision> generate(const tIdType n, const dBox<D, Precision> &bounds,
                                      tGenerator &gen) const {
 
-- 
2.43.0


From e98c530b5d2040a28a7658c88ed309ce55c1ce04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:01 +0000
Subject: [PATCH 59/69] fix: the multiscale sort divided ranges forever if one
 part was empty

---
 include/mods/Multiscale_sort.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mods/Multiscale_sort.h b/include/mods/Multiscale_sort.h
index a274474..088c6bd 100644
--- a/include/mods/Multiscale_sort.h
+++ b/include/mods/Multiscale_sort.h
@@ -45,9 +45,9 @@ public:
     void operator() (RandomAccessIterator begin, RandomAccessIterator end) const
     {
 	typedef typename std::iterator_traits<RandomAccessIterator>::difference_type difference_type;
-        if (end - begin >= _threshold) {
-            auto middle = begin + difference_type (double(end - begin) * _ratio);
-
+        auto middle = begin + difference_type (double(end - begin) * _ratio);
+        // a range of which one part is empty cannot be divided any further
+        if (end - begin >= _threshold && middle != begin && middle != end) {
             auto left = std::move(std::async(std::launch::async, &Multiscale_sort<Sort>::operator()<RandomAccessIterator>, this, begin, middle));
             auto right = std::move(std::async(std::launch::async, &Multiscale_sort<Sort>::operator()<RandomAccessIterator>, this, middle, end));
 
-- 
2.43.0


From 59c8d406bbf15c7b85865b8ce2423de3436eecc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:41 +0000
Subject: [PATCH 60/69] fix: the accumulator of an experiment was used before
 its construction

---
 include/load_balancing/Experiment.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/load_balancing/Experiment.h b/include/load_balancing/Experiment.h
index 187c71a..f3d7f17 100644
--- a/include/load_balancing/Experiment.h
+++ b/include/load_balancing/Experiment.h
@@ -34,8 +34,8 @@ namespace LoadBalancing
         Setup setup;
         std::ostream& out;
         std::string partitionerName;
+        ComprehensiveAccumulator acc; // the triangulator's monitor initialises it
         DCTriangulator<D, Precision, ComprehensiveMonitor> triangulator;
-        ComprehensiveAccumulator acc;
         size_t runs;
         
         void start();
-- 
2.43.0


From 08fefd48fd9a191719c3d99983fb0046c19b640f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:41 +0000
Subject: [PATCH 61/69] fix: the experiment read its partitioner in the same
 call that moves it away

---
 include/load_balancing/Experiment.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/load_balancing/Experiment.h b/include/load_balancing/Experiment.h
index f3d7f17..b03708f 100644
--- a/include/load_balancing/Experiment.h
+++ b/include/load_balancing/Experiment.h
@@ -49,7 +49,7 @@ namespace LoadBalancing
         : setup(std::move(setup)),
           out(out),
           partitionerName(partitioner->info()),
-          triangulator(this->setup.bounds, this->setup.points, this->setup.threads, std::move(partitioner), 100, false, (partitioner->info().find("bipartitioner") == std::string::npos), true, ComprehensiveMonitor(acc)),
+          triangulator(this->setup.bounds, this->setup.points, this->setup.threads, std::move(partitioner), 100, false, (partitionerName.find("bipartitioner") == std::string::npos), true, ComprehensiveMonitor(acc)),
           //triangulator(this->setup.bounds, this->setup.points, this->setup.threads, std::move(partitioner), 100, false, false, true, ComprehensiveMonitor(acc)),
           runs(0) {
         start();
-- 
2.43.0


From 998dba311630eba2c7015b89dbabe9e25296fbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:41 +0000
Subject: [PATCH 62/69] fix: the experiment counted the reserved point as one
 of the points

---
 include/load_balancing/Experiment.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/load_balancing/Experiment.h b/include/load_balancing/Experiment.h
index b03708f..cf5f90e 100644
--- a/include/load_balancing/Experiment.h
+++ b/include/load_balancing/Experiment.h
@@ -121,7 +121,7 @@ namespace LoadBalancing
             << "    \"triangulator\": \"" << "load balanced DC Triangulator\",\n"
             << "    \"partitioner\": \"" << partitionerName << "\",\n"
             << "    \"distribution\": \"" << setup.distribution << "\",\n"
-            << "    \"numpoints\": " << setup.points.finite_size() << ",\n"
+            << "    \"numpoints\": " << setup.points.finite_size() - 1 << ",\n" // id 0 is reserved
             << "    \"threads\": " << setup.threads << ",\n"
             << "    \"seed\": " << setup.seed << ",\n"
             << "    \"results\": [";
-- 
2.43.0


From 5b912edf5bfa781d1556b456c72dd9d8815c5881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:42 +0000
Subject: [PATCH 63/69] fix: the records of repeated experiment runs contained
 those of the runs before

---
 include/load_balancing/Experiment.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/load_balancing/Experiment.h b/include/load_balancing/Experiment.h
index cf5f90e..c978cd6 100644
--- a/include/load_balancing/Experiment.h
+++ b/include/load_balancing/Experiment.h
@@ -62,6 +62,11 @@ namespace LoadBalancing
     
     template<uint D, typename Precision>
     bool Experiment<D, Precision>::runOnce() {
+        // record this run only
+        acc.numTriangulatedPoints = 0;
+        acc.partitionSizes.clear();
+        acc.baseTriangulations.clear();
+
         auto dt = triangulator.triangulate();
         bool result = true;
             
-- 
2.43.0


From 1cb56b81f23751f4f3ac919f4d7edd6eb94baa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:36 +0000
Subject: [PATCH 64/69] fix: unknown names of partitioners and edge weights
 were dereferenced as missing objects or called as empty functions

---
 include/load_balancing/CommandLineInterface.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/load_balancing/CommandLineInterface.h b/include/load_balancing/CommandLineInterface.h
index 49f583e..0b93511 100644
--- a/include/load_balancing/CommandLineInterface.h
+++ b/include/load_balancing/CommandLineInterface.h
@@ -136,6 +136,8 @@ std::unique_ptr<lb::Partitioner<D, Precision, MonitorT>> createPartitioner(const
 			weight = [](Precision d) -> Precision { return 1.0 - d; };
 		} else if("log" == vm["edge-weights"].as<std::string>()) {
 			weight = [](Precision d) -> Precision { return -std::log(d + 0.0000001); };
+		} else {
+			throw std::runtime_error("unknown option for argument 'edge-weights'");
 		}
 	}
 	
@@ -192,6 +194,8 @@ std::unique_ptr<lb::Partitioner<D, Precision, MonitorT>> createPartitioner(const
             uint d = vm["split-dimension"].as<uint>();
             ASSERT(d < D);
             oldPartitioner = std::make_unique<OneDimPartitioner<D, Precision>>(d);
+		} else {
+			throw std::runtime_error("unknown option for argument 'partitioner'");
 		}
         auto maxRecursions = oldPartitioner->getRecursionDepth(threads);
         partitioner =
-- 
2.43.0


From 34c8f8529800316ae633e8da35f19494c11109bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:28 +0000
Subject: [PATCH 65/69] fix: the marks of simplices overflowed in partition
 trees of more than 42 levels

---
 include/Geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Geometry.h b/include/Geometry.h
index 0feb5d9..c62e675 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -37,7 +37,7 @@
 
 typedef uint32_t tHashType;
 typedef uint64_t tIdType;
-typedef uint8_t tMarkType;
+typedef uint32_t tMarkType;
 
 typedef std::vector<tIdType> Id_Vector;
 typedef tbb::concurrent_vector<tIdType> Concurrent_Id_Vector;
-- 
2.43.0


From 38324d21087efb7b515a7f9976135c311335a447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:45 +0000
Subject: [PATCH 66/69] fix: increments of the progress display returned a
 count read after giving up the lock

---
 include/utils/ProgressDisplay.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/utils/ProgressDisplay.h b/include/utils/ProgressDisplay.h
index 504e9be..d5c4731 100644
--- a/include/utils/ProgressDisplay.h
+++ b/include/utils/ProgressDisplay.h
@@ -55,9 +55,11 @@ public:
             display_tic();
         }
 
+        const unsigned long result = _count; // may change once the lock is released
+
         _mtx.clear(std::memory_order_release); // release lock
 
-        return _count;
+        return result;
     }
 
     unsigned long operator++() { return operator+=(1); }
-- 
2.43.0


From 722d8b62d70fed80086718facf38f624bc2dcf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:22 +0000
Subject: [PATCH 67/69] fix: concurrent insertions could fill a hash map or
 multimap, so that probing never ended

---
 include/datastructures/LP_Map.hxx      | 11 ++++++++---
 include/datastructures/LP_MultiMap.hxx |  9 ++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/datastructures/LP_Map.hxx b/include/datastructures/LP_Map.hxx
index b39755d..c74db04 100644
--- a/include/datastructures/LP_Map.hxx
+++ b/include/datastructures/LP_Map.hxx
@@ -302,8 +302,12 @@ public:
     InsertReturn insert(const K &key, const V &value) {
         ASSERT(key != 0);
 
-        if (m_items.load() >= m_arraySize >> 1)
-            return InsertReturn::State::Full;
+        // claim the cell beforehand: concurrent insertions must not fill the table, probing ends at a free cell
+        auto items = m_items.load();
+        do {
+            if (items >= m_arraySize >> 1)
+                return InsertReturn::State::Full;
+        } while (!m_items.compare_exchange_weak(items, items + 1));
 
         for (K idx = m_hasher(key); ; idx++) {
             idx &= m_arraySize - 1;
@@ -314,6 +318,7 @@ public:
 
             if (probedKey == key) {
                 m_values[idx].store(value, std::memory_order_relaxed); // update value
+                --m_items;
                 return false; // the key is already in the set, return false;
             }
             else {
@@ -325,11 +330,11 @@ public:
                 bool cas = m_keys[idx].compare_exchange_strong(prevKey, key);
                 if (cas) {
                     m_values[idx].store(value, std::memory_order_relaxed); // insert value
-                    ++m_items;
                     return true; // we just added the key to the set
                 }
                 else if (prevKey == key) {
                     m_values[idx].store(value, std::memory_order_relaxed); // update value
+                    --m_items;
                     return false; // the key was already added by another thread update it
                 } else
                     continue; // another thread inserted a different key in this position
diff --git a/include/datastructures/LP_MultiMap.hxx b/include/datastructures/LP_MultiMap.hxx
index 2a97298..d76fed4 100644
--- a/include/datastructures/LP_MultiMap.hxx
+++ b/include/datastructures/LP_MultiMap.hxx
@@ -404,8 +404,12 @@ public:
         ASSERT(key != 0);
 
 
-        if (m_items.load() >= m_arraySize >> 1)
-            return InsertReturn::State::Full;
+        // claim the cell beforehand: concurrent insertions must not fill the table, probing ends at a free cell
+        auto items = m_items.load();
+        do {
+            if (items >= m_arraySize >> 1)
+                return InsertReturn::State::Full;
+        } while (!m_items.compare_exchange_weak(items, items + 1));
 
         std::size_t cols = 0; //count number of steps
         for (K idx = m_hasher(key); ; idx++) {
@@ -429,7 +433,6 @@ public:
             bool cas = m_keys[idx].compare_exchange_strong(prevKey, key);
             if (cas) {
                 m_values[idx].store(value, std::memory_order_relaxed); // insert value
-                ++m_items;
                 return true; // we just added the key to the set
             } else {
                 cols += prevKey != key;
-- 
2.43.0


From 34cd73c63a10a96f171ff14f47c8c31f698b265b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:55 +0000
Subject: [PATCH 68/69] fix: experiment records escape quotes, backslashes and
 control characters in strings

---
 include/load_balancing/Experiment.h | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/load_balancing/Experiment.h b/include/load_balancing/Experiment.h
index c978cd6..c830999 100644
--- a/include/load_balancing/Experiment.h
+++ b/include/load_balancing/Experiment.h
@@ -1,5 +1,6 @@
 #pragma once
 #include <ctime>
+#include <iomanip>
 #include <ostream>
 #include <chrono>
 #include <sstream>
@@ -42,6 +43,7 @@ namespace LoadBalancing
         void finish();
         bool verify(const dSimplices<D, Precision>& dt);
         std::string makeDateTimeString() const;
+        static std::string escape(const std::string& text);
     };
     
     template<uint D, typename Precision>
@@ -122,10 +124,10 @@ namespace LoadBalancing
         out << "{\n"
             << "    \"commit\": \"" << GIT_COMMIT << "\",\n"
             << "    \"date\": \"" << makeDateTimeString() << "\",\n"
-            << "    \"args\": \"" << setup.argumentString <<"\",\n"
+            << "    \"args\": \"" << escape(setup.argumentString) <<"\",\n"
             << "    \"triangulator\": \"" << "load balanced DC Triangulator\",\n"
-            << "    \"partitioner\": \"" << partitionerName << "\",\n"
-            << "    \"distribution\": \"" << setup.distribution << "\",\n"
+            << "    \"partitioner\": \"" << escape(partitionerName) << "\",\n"
+            << "    \"distribution\": \"" << escape(setup.distribution) << "\",\n"
             << "    \"numpoints\": " << setup.points.finite_size() - 1 << ",\n" // id 0 is reserved
             << "    \"threads\": " << setup.threads << ",\n"
             << "    \"seed\": " << setup.seed << ",\n"
@@ -161,4 +163,19 @@ namespace LoadBalancing
         stream << std::put_time(&tm, "%FT%T%z");
         return stream.str();
     }
+    
+    // the text as it appears inside a JSON string
+    template<uint D, typename Precision>
+    std::string Experiment<D, Precision>::escape(const std::string& text) {
+        std::stringstream stream;
+        for(char c : text) {
+            if(c == '"' || c == '\\')
+                stream << '\\' << c;
+            else if(static_cast<unsigned char>(c) < 0x20)
+                stream << "\\u" << std::hex << std::setw(4) << std::setfill('0') << static_cast<int>(c);
+            else
+                stream << c;
+        }
+        return stream.str();
+    }
 }
-- 
2.43.0


From b4fbdf2cd362860e149ddba4ea7746f099b23781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:19 +0000
Subject: [PATCH 69/69] fix: patch bubbles in boxes of few representable
 numbers were larger than the boxes, generating points did not end

---
 include/load_balancing/BoxUtils.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/load_balancing/BoxUtils.h b/include/load_balancing/BoxUtils.h
index b8e7693..da144b1 100644
--- a/include/load_balancing/BoxUtils.h
+++ b/include/load_balancing/BoxUtils.h
@@ -113,7 +113,11 @@ namespace LoadBalancing
     
     template <uint D, typename Precision>
     dVector<D, Precision> vecToBoxBoundary(const dVector<D, Precision>& v, const dBox<D, Precision>& box) {
-        auto center = (box.high + box.low) * Precision(0.5);
-        return vecToCenteredBoxBoundary<D, Precision>(v - center, box.high - center);
+        // relative to the corners: the rounding of a center can exceed small boxes
+        dVector<D, Precision> result;
+        for(size_t d = 0; d < D; ++d) {
+            result[d] = std::max(box.low[d] - v[d], v[d] - box.high[d]);
+        }
+        return vecToLowerQuadrantBoundary<D, Precision>(result);
     }
 }
-- 
2.43.0

