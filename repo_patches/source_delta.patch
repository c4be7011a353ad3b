From 87d99607a159fc5283dc19e5caff53226d7722d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 01/25] fix: bound the literal match of the JSON reader by the
 text, not by the pattern's address

Parser::have(const char*) compared the end of the input with an address
inside the pattern literal, so whether "true" and "false" were accepted
depended on where the text and the literal happened to be placed.
---
 include/eni/json/Parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/json/Parser.h b/include/eni/json/Parser.h
index 20cd201..8231840 100644
--- a/include/eni/json/Parser.h
+++ b/include/eni/json/Parser.h
@@ -260,7 +260,7 @@ private:
   bool have(const char *pPat) {
     int i = 0;
     for(; pPat[i] != '\0'; ++i){
-      if((m_End <= pPat+i) || (pPat[i] != m_It[i])) return 0;
+      if((m_End <= m_It+i) || (pPat[i] != m_It[i])) return 0;
     }
     m_It += i;
     return 1;
-- 
2.43.0


From 09458a637fde0b726c880646c94da55b75777d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 02/25] fix: indexing a JSON value of the wrong kind yields an
 undefined value, not the integer 5

---
 lib/json/Value.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/Value.cpp b/lib/json/Value.cpp
index 1b428b9..2594e05 100644
--- a/lib/json/Value.cpp
+++ b/lib/json/Value.cpp
@@ -14,7 +14,7 @@
 using namespace eni;
 using namespace json;
 
-static Value g_NullValue(UNDEF); // XXX
+static Value g_NullValue; // undefined
 
 Value::Value(const Value& pCopy)
   : Notation(pCopy) {
-- 
2.43.0


From 6cb33c3f71c83b3fcc98780d7d495c04ff31a655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 03/25] fix: print the keys of a JSON object quoted and
 escaped, as strings

---
 lib/json/Object.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/json/Object.cpp b/lib/json/Object.cpp
index 24c388c..0245afe 100644
--- a/lib/json/Object.cpp
+++ b/lib/json/Object.cpp
@@ -33,7 +33,8 @@ void Object::print(std::ostream& pOs) const {
       pOs << ',';
     else
       first = false;
-    pOs << it->key() << ':';
+    Value(it->key()).print(pOs);
+    pOs << ':';
     it->value().print(pOs);
   }
   pOs << '\n';
-- 
2.43.0


From 1cef20a35262bb68830864a37400fdc4c119dcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 04/25] fix: return a value from the assignment operators of
 StringMap and PointerIterator

---
 include/eni/adt/StringMap.h              | 2 ++
 include/eni/adt/bits/PointerIterator.tcc | 1 +
 2 files changed, 3 insertions(+)

diff --git a/include/eni/adt/StringMap.h b/include/eni/adt/StringMap.h
index 4ee8814..f755b85 100644
--- a/include/eni/adt/StringMap.h
+++ b/include/eni/adt/StringMap.h
@@ -49,10 +49,12 @@ public:
 
   StringMap& operator=(const StringMap& pCopy) {
     super::operator=(pCopy);
+    return *this;
   }
 
   StringMap& operator=(StringMap&& pOther) {
     super::operator=(pOther);
+    return *this;
   }
 
   value_type& at(const key_type& pKey) {
diff --git a/include/eni/adt/bits/PointerIterator.tcc b/include/eni/adt/bits/PointerIterator.tcc
index 5771e0a..9ee7eff 100644
--- a/include/eni/adt/bits/PointerIterator.tcc
+++ b/include/eni/adt/bits/PointerIterator.tcc
@@ -24,6 +24,7 @@ template<typename ItemType> typename PointerIterator<ItemType>::iterator&
 PointerIterator<ItemType>::operator=(const_iterator& pOther)
 {
   m_Ptr = pOther.m_Ptr;
+  return *this;
 }
 
 template<typename ItemType> typename PointerIterator<ItemType>::reference
-- 
2.43.0


From 6e553c35db94c509dcb2e9c8b861ce1f977fcaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 05/25] fix: a copy of a hash table without buckets has no
 buckets either

---
 include/eni/adt/bits/HashBase.tcc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/eni/adt/bits/HashBase.tcc b/include/eni/adt/bits/HashBase.tcc
index 2b4a2a6..b9fe8f5 100644
--- a/include/eni/adt/bits/HashBase.tcc
+++ b/include/eni/adt/bits/HashBase.tcc
@@ -63,6 +63,9 @@ TableImpl<K, V, H, E>::TableImpl(const TableImpl& pCopy)
     m_NumOfEntries(pCopy.m_NumOfEntries),
     m_NumOfTombstones(pCopy.m_NumOfTombstones) {
 
+  if (!pCopy.isInit()) //< no bucket to be copied
+    return;
+
   m_Buckets = (Bucket*)malloc(m_NumOfBuckets * sizeof(Bucket));
   ::memcpy(m_Buckets, pCopy.m_Buckets, m_NumOfBuckets * sizeof(Bucket));
 
@@ -97,6 +100,9 @@ TableImpl<K, V, H, E>& TableImpl<K, V, H, E>::operator=(const TableImpl& pCopy)
   m_NumOfEntries = pCopy.m_NumOfEntries;
   m_NumOfTombstones = pCopy.m_NumOfTombstones;
 
+  if (!pCopy.isInit()) //< no bucket to be copied
+    return *this;
+
   m_Buckets = (Bucket*)malloc(m_NumOfBuckets * sizeof(Bucket));
   ::memcpy(m_Buckets, pCopy.m_Buckets, m_NumOfBuckets * sizeof(Bucket));
 
-- 
2.43.0


From 1874a940205a6a79e7a03535c7040c80a10c6f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 06/25] fix: the chain of a key that is absent from a hash
 table is empty

---
 include/eni/adt/bits/HashIterator.tcc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/eni/adt/bits/HashIterator.tcc b/include/eni/adt/bits/HashIterator.tcc
index 939e97a..6110f61 100644
--- a/include/eni/adt/bits/HashIterator.tcc
+++ b/include/eni/adt/bits/HashIterator.tcc
@@ -18,12 +18,17 @@ ChainIterBase<HT>::ChainIterBase(HT* pTable, const key_type& pKey)
   : m_pHashTable(pTable) {
   typename HT::hasher_type hasher;
   m_HashValue = hasher(pKey);
+  if (0 == m_pHashTable->numOfBuckets()) {
+    reset();
+    return;
+  }
   m_EndIndex = m_Index = m_HashValue % m_pHashTable->numOfBuckets();
   const unsigned int probe = 1;
   while(true) {
-    bucket_type &bucket = m_pHashTable->bucket(m_Index);
-    if (hash_table::Tombstone() == bucket.entry) {
-      // Ignore tombstones.
+    const bucket_type &bucket = m_pHashTable->bucket(m_Index);
+    if (hash_table::Tombstone() == bucket.entry ||
+        hash_table::EmptyBucket() == bucket.entry) {
+      // Ignore tombstones and empty buckets.
     }
     else if (m_HashValue == bucket.hash) {
       if (bucket.entry->key() == pKey) {
-- 
2.43.0


From b5efed4106dd0ea3f4601ecdc37349acaceb3591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 07/25] fix: dereferencing a hash iterator compiles

---
 include/eni/adt/HashIterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eni/adt/HashIterator.h b/include/eni/adt/HashIterator.h
index fc29f55..36d7256 100644
--- a/include/eni/adt/HashIterator.h
+++ b/include/eni/adt/HashIterator.h
@@ -176,8 +176,8 @@ public:
 
   /// @name C++ Iterator (dereferenceable)
   /// @{
-  const_reference operator*() const { return *m_Impl.operator->(); }
-  reference       operator*()       { return *m_Impl.operator->(); }
+  const_reference operator*() const { return *m_Impl.getEntry(); }
+  reference       operator*()       { return *m_Impl.getEntry(); }
   /// @}
 
   /// @name C++ Iterator (incrementable)
-- 
2.43.0


From 593f5bc0f9e6c3c1b1b049cffcab61b737be8465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 08/25] fix: keep the whole length of a string key in its hash
 table entry

---
 include/eni/adt/StringHashTable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/adt/StringHashTable.h b/include/eni/adt/StringHashTable.h
index 138b396..3ca6d71 100644
--- a/include/eni/adt/StringHashTable.h
+++ b/include/eni/adt/StringHashTable.h
@@ -45,7 +45,7 @@ public:
 protected:
   value_type m_Value;
 
-  uint16_t m_KeyLen;
+  std::size_t m_KeyLen;
 
   char m_Key[];
 };
-- 
2.43.0


From bf2c4c0b212220a6c409a1ff02cf8c185e2e7e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 09/25] fix: erase up to the end of a vector

---
 include/eni/adt/bits/Vector.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index 05b6c30..0506b6e 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -342,7 +342,7 @@ Vector<ElementType>::erase(size_type pIndex)
 template<class ElementType> void
 Vector<ElementType>::erase(size_type pFirst, size_type pLast)
 {
-  if (0 > pFirst || pFirst >= pLast || pLast >= size())
+  if (0 > pFirst || pFirst >= pLast || pLast > size())
     throw OutOfRange<InvalidVectorIndex>();
   size_type eraseSize = pLast - pFirst;
   std::copy(m_Data + pLast, m_Data + size(), m_Data + pFirst);
-- 
2.43.0


From 72bf1fafe7a488910f622dd476261dc9c3cf7994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 10/25] fix: refuse to grow a vector beyond what can be
 addressed

---
 include/eni/adt/bits/Vector.tcc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index 0506b6e..1474853 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -13,12 +13,16 @@ Vector<ElementType>::Vector()
 template<class ElementType>
 Vector<ElementType>::Vector(size_type pSize)
   : m_DataSize(pSize), m_AllocSize(pSize) {
+  if (pSize > max_size())
+    throw LengthError<InvalidVectorSize>();
   m_Data = (ElementType*)std::calloc(m_DataSize, sizeof(ElementType));
 }
 
 template<class ElementType>
 Vector<ElementType>::Vector(size_type pSize, const_reference pValue)
   : m_DataSize(pSize), m_AllocSize(pSize) {
+  if (pSize > max_size())
+    throw LengthError<InvalidVectorSize>();
   m_Data = (ElementType*)std::calloc(m_DataSize, sizeof(ElementType));
   std::fill_n(m_Data, m_DataSize, pValue);
 }
@@ -97,7 +101,7 @@ Vector<ElementType>::size() const
 template<class ElementType> typename Vector<ElementType>::size_type
 Vector<ElementType>::max_size() const
 {
-  return std::numeric_limits<size_t>::max();
+  return std::numeric_limits<difference_type>::max() / sizeof(ElementType);
 }
 
 template<class ElementType> void
@@ -290,6 +294,8 @@ Vector<ElementType>::insert(size_type pIndex, size_type pSize, const_reference p
   if (0 > pIndex || pIndex > size()) {
     throw OutOfRange<InvalidVectorIndex>();
   }
+  if (pSize > max_size() - size())
+    throw LengthError<InvalidVectorSize>();
   resize(size() + pSize);
   pointer ptr = m_Data + pIndex;
   pointer end = m_Data + size();
-- 
2.43.0


From 83c86b611af563c45b6a165e74036d40bde45036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 11/25] fix: arguments that refer to elements of the vector
 survive its reallocation

---
 include/eni/adt/bits/Vector.tcc | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index 1474853..e464305 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -113,9 +113,10 @@ Vector<ElementType>::resize(size_type pSize)
 template<class ElementType> void
 Vector<ElementType>::resize(size_t pSize, const ElementType& pValue)
 {
+  const value_type value(pValue);
   reserve(pSize);
   if (pSize > m_DataSize)
-    std::fill_n(end(), pSize - m_DataSize, pValue);
+    std::fill_n(end(), pSize - m_DataSize, value);
   m_DataSize = pSize;
 }
 
@@ -212,8 +213,9 @@ Vector<ElementType>::data()
 template<class ElementType> void
 Vector<ElementType>::assign(size_type pSize, const_reference pValue)
 {
+  const value_type value(pValue);
   resize(pSize);
-  std::fill_n(m_Data, pSize, pValue);
+  std::fill_n(m_Data, pSize, value);
 }
 
 template<class ElementType> void
@@ -232,8 +234,9 @@ Vector<ElementType>::assign(initializer_list pIList)
 template<class ElementType> void
 Vector<ElementType>::push_back(const_reference pValue)
 {
+  const value_type value(pValue);
   reserve(size() + 1);
-  m_Data[m_DataSize++] = pValue;
+  m_Data[m_DataSize++] = value;
 }
 
 template<class ElementType> typename Vector<ElementType>::value_type
@@ -246,8 +249,9 @@ template<class ElementType>
 template<class ...Args> void
 Vector<ElementType>::emplace_back(Args&& ...pArgs)
 {
+  const value_type value(std::forward<Args>(pArgs)...);
   reserve(size() + 1);
-  m_Data[m_DataSize++] = *(new ElementType(std::forward<Args>(pArgs)...));
+  m_Data[m_DataSize++] = value;
 }
 
 template<class ElementType> typename Vector<ElementType>::iterator
@@ -296,11 +300,12 @@ Vector<ElementType>::insert(size_type pIndex, size_type pSize, const_reference p
   }
   if (pSize > max_size() - size())
     throw LengthError<InvalidVectorSize>();
+  const value_type value(pValue);
   resize(size() + pSize);
   pointer ptr = m_Data + pIndex;
   pointer end = m_Data + size();
   std::copy_backward(ptr, end - pSize, end);
-  std::fill_n(ptr, pSize, pValue);
+  std::fill_n(ptr, pSize, value);
 }
 
 template<class ElementType> void
@@ -310,11 +315,13 @@ Vector<ElementType>::insert(size_type pIndex, const_iterator pFirst, const_itera
     throw OutOfRange<InvalidVectorIndex>();
   }
   size_type insertSize = pLast - pFirst;
+  Vector values;
+  values.assign(pFirst, pLast);
   resize(size() + insertSize);
   pointer ptr = m_Data + pIndex;
   pointer end = m_Data + size();
   std::copy_backward(ptr, end - insertSize, end);
-  std::copy(pFirst, pLast, ptr);
+  std::copy(values.begin(), values.end(), ptr);
 }
 
 template<class ElementType> void
-- 
2.43.0


From 66f544ee3e188fa8c1d4c281b3095a270f1d198f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 12/25] fix: assigning a hash table to itself keeps its entries

---
 include/eni/adt/bits/HashTable.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/eni/adt/bits/HashTable.tcc b/include/eni/adt/bits/HashTable.tcc
index 7a203c9..c7634fe 100644
--- a/include/eni/adt/bits/HashTable.tcc
+++ b/include/eni/adt/bits/HashTable.tcc
@@ -56,6 +56,8 @@ template<typename K, typename V, typename H,
 HashTable<K, V, H, E, A>&
 HashTable<K, V, H, E, A>::operator=(const HashTable& pCopy)
 {
+  if (this == &pCopy)
+    return *this;
 
   internal::TableImpl<K, V, H>::operator=(pCopy);
 
-- 
2.43.0


From f2f0ef6b08d8452acd9c8ff77f7089ab23ddfa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 13/25] fix: rehashing a hash table keeps room for its entries
 and an empty bucket

---
 include/eni/adt/bits/HashTable.tcc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/eni/adt/bits/HashTable.tcc b/include/eni/adt/bits/HashTable.tcc
index c7634fe..522a6f1 100644
--- a/include/eni/adt/bits/HashTable.tcc
+++ b/include/eni/adt/bits/HashTable.tcc
@@ -215,6 +215,9 @@ template<typename K, typename V, typename H,
          template<class, class> class E, template<class> class A>
 void HashTable<K, V, H, E, A>::rehash(size_type pCount)
 {
+  // probing ends at an empty bucket
+  if (pCount <= super::m_NumOfEntries)
+    pCount = super::m_NumOfEntries + 1;
   super::doRehash(pCount);
 }
 
-- 
2.43.0


From 407d5dffddc56cad043dbf48f9e58e08646be6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 14/25] fix: saturate the number of dots in the characteristic
 hash of a string

---
 include/eni/adt/StringHasher.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/eni/adt/StringHasher.h b/include/eni/adt/StringHasher.h
index 2846d56..a330cfb 100644
--- a/include/eni/adt/StringHasher.h
+++ b/include/eni/adt/StringHasher.h
@@ -283,7 +283,8 @@ struct StringHasher<ES> : public std::unary_function<const std::string&, uint32_
       int cur_char = pString[idx];
 
       if ('.' == cur_char) {
-        ++dot;
+        if (dot < 15) //< only 4 bits
+          ++dot;
         continue;
       }
 
-- 
2.43.0


From eef29709a7755718335915e0f268e098d2a1cbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 15/25] fix: reject operation arguments that are not an array,
 and start each run with no result

---
 include/eni/eni.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/eni/eni.h b/include/eni/eni.h
index 0153398..b267eae 100644
--- a/include/eni/eni.h
+++ b/include/eni/eni.h
@@ -57,6 +57,7 @@ public:
     if (!check(m_Args))
       return nullptr;
 
+    m_RetVals.asArray().clear();
     if (!run(m_RetVals.asArray()))
       return nullptr;
 
@@ -68,7 +69,7 @@ public:
 private:
   bool check(const json::Value& pArgs) {
     if (!m_Parsed) {
-      m_ParseSuccess = parse(pArgs.toArray());
+      m_ParseSuccess = pArgs.isArray() && parse(pArgs.toArray());
       m_Parsed = true;
     }
     return m_ParseSuccess;
-- 
2.43.0


From a831284e1aa7cc0b849fa16978ce260a9d8bd2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 16/25] fix: the scrypt operation refuses a missing or
 ill-typed argument

---
 tools/eni_scrypt/eni_scrypt.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/eni_scrypt/eni_scrypt.cpp b/tools/eni_scrypt/eni_scrypt.cpp
index 7f543a5..5675703 100644
--- a/tools/eni_scrypt/eni_scrypt.cpp
+++ b/tools/eni_scrypt/eni_scrypt.cpp
@@ -12,6 +12,8 @@
 
 bool Scrypt::parse(const json::Array& pArgs)
 {
+  if (pArgs.empty() || !pArgs[0].isString())
+    return false;
   m_Str = pArgs[0].toString();
 
   // input validation
-- 
2.43.0


From f50e6fdf8a75cfe9afe138433f2cce98be7d89db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 17/25] fix: the rsa operations refuse missing or ill-typed
 arguments

---
 tools/eni_crypto/eni_crypto.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 6873873..5c0aa13 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -132,6 +132,8 @@ bool rsa::priv_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 ==------------------------------------------------------------------------==*/
 bool RSAEncrypt::parse(const json::Array& pArgs)
 {
+  if (pArgs.size() < 2 || !pArgs[0].isString() || !pArgs[1].isString())
+    return false;
   m_Key = rsa::create_pubkey(pArgs[0].toString());
   if (nullptr == m_Key)
     return false;
@@ -161,6 +163,8 @@ bool RSAEncrypt::run(json::Array& pRetVal)
 ==------------------------------------------------------------------------==*/
 bool RSADecrypt::parse(const json::Array& pArgs)
 {
+  if (pArgs.size() < 2 || !pArgs[0].isString() || !pArgs[1].isString())
+    return false;
   m_Key = rsa::create_privkey(pArgs[0].toString());
   if (nullptr == m_Key)
     return false;
-- 
2.43.0


From 14225dae11684c04cd45e34e2d612821983fd60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 18/25] fix: decode hex digits of either case and refuse
 anything else

---
 tools/eni_crypto/eni_crypto.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 5c0aa13..c1df333 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -19,7 +19,9 @@ using namespace eni_crypto;
 ==------------------------------------------------------------------------==*/
 static inline unsigned char hex2digit(char h1, char h0)
 {
-  auto h2d = [](char h) { return (h < 'a') ? (h - '0') : (h - 'a' + 10); };
+  auto h2d = [](char h) {
+    return (h < 'A') ? (h - '0') : (h < 'a') ? (h - 'A' + 10) : (h - 'a' + 10);
+  };
   return h2d(h1) * 16 + h2d(h0);
 }
 
@@ -36,9 +38,11 @@ bool eni_crypto::str2hex(const std::string& pStr, std::string& pHex)
 
 bool eni_crypto::hex2str(const std::string& pHex, std::string& pStr)
 {
+  pStr.clear();
   if (0 != (pHex.length() % 2))
     return false;
-  pStr.clear();
+  if (std::string::npos != pHex.find_first_not_of("0123456789abcdefABCDEF"))
+    return false;
   std::string::const_iterator ic, end = pHex.end();
   for (ic = pHex.begin(); ic != end; ic += 2)
     pStr.push_back((char)hex2digit(*ic, *(ic + 1)));
-- 
2.43.0


From ecdd1bee9b4f054e32bee643a9c9c87917cd2d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 19/25] fix: do not read past the end of a decrypted message

---
 tools/eni_crypto/eni_crypto.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index c1df333..c76ca75 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -97,8 +97,8 @@ bool rsa::pub_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
     RSA_NO_PADDING);
   if (-1 == len)
     return false;
-  std::string result(reinterpret_cast<const char*>(decrypted));
-  pResult.assign(result.c_str(), result.length());
+  std::string result(reinterpret_cast<const char*>(decrypted), len);
+  pResult.assign(result.c_str()); //< without padding
   return true;
 }
 
@@ -126,8 +126,8 @@ bool rsa::priv_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
     RSA_NO_PADDING);
   if (-1 == len)
     return false;
-  std::string result(reinterpret_cast<const char*>(decrypted));
-  pResult.assign(result.c_str(), result.length());
+  std::string result(reinterpret_cast<const char*>(decrypted), len);
+  pResult.assign(result.c_str()); //< without padding
   return true;
 }
 
-- 
2.43.0


From 5091ef0bcf6a889dc72299fdfd8573b1ea0955e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 20/25] fix: refuse to encrypt a message that is longer than
 the key

---
 tools/eni_crypto/eni_crypto.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index c76ca75..0cfc823 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -78,6 +78,8 @@ bool rsa::pub_encrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
   int size = ::RSA_size(&pKey);
   unsigned char* encrypted = new unsigned char[size];
   std::string message(pMsg);
+  if (message.length() > size)
+    return false;
   if (message.length() < size)
       message.append(size - message.length(), '\0');
   int len = ::RSA_public_encrypt(size,
@@ -107,6 +109,8 @@ bool rsa::priv_encrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
   int size = ::RSA_size(&pKey);
   unsigned char* encrypted = new unsigned char[size];
   std::string message(pMsg);
+  if (message.length() > size)
+    return false;
   if (message.length() < size)
       message.append(size - message.length(), '\0');
   int len = ::RSA_private_encrypt(size,
-- 
2.43.0


From 786cd60d2529f61141421832bd24b65c205fd649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 21/25] fix: release the gas printed by eni_gas with the
 allocator it came from

---
 tools/eni_cli/eni_gas.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/eni_cli/eni_gas.cpp b/tools/eni_cli/eni_gas.cpp
index 0504115..403ac76 100644
--- a/tools/eni_cli/eni_gas.cpp
+++ b/tools/eni_cli/eni_gas.cpp
@@ -35,6 +35,6 @@ int main(int argc, char* argv[])
   ::dlclose(handle);
 
   std::cout << *gas << std::endl;
-  delete gas;
+  ::free(gas);
   return ExitSuccess;
 }
-- 
2.43.0


From 5ca898eec2e39ba77d4cb189cf004df7e3863feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 22/25] fix: eni_run reports bad arguments with its documented
 exit status

---
 tools/eni_cli/eni_run.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/eni_cli/eni_run.cpp b/tools/eni_cli/eni_run.cpp
index c26ee90..68cf4b8 100644
--- a/tools/eni_cli/eni_run.cpp
+++ b/tools/eni_cli/eni_run.cpp
@@ -21,7 +21,7 @@ int main(int argc, char* argv[])
     "run the ENI operation and print the result in JSON format");
   if (!opt.parse(argc, argv)) {
     opt.help(std::cerr);
-    return 1;
+    return ExitParseError;
   }
 
   void* handle = ::dlopen(opt.lib().c_str(), RTLD_LAZY);
-- 
2.43.0


From fee378d7ce977264a9155811903b9c27f89ab8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:23 +0000
Subject: [PATCH 23/25] fix: indexing a JSON object by a missing key raises an
 error and adds nothing

---
 lib/json/Value.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/Value.cpp b/lib/json/Value.cpp
index 2594e05..627820f 100644
--- a/lib/json/Value.cpp
+++ b/lib/json/Value.cpp
@@ -198,7 +198,7 @@ Value& Value::operator=(const Value& pCopy)
 const Value& Value::operator[](const std::string &key) const
 {
   if (m_Type == OBJECT) {
-    return (*m_Value.object_p)[key];
+    return toObject()[key]; // read-only: never adds the key
   }
   return g_NullValue;
 }
-- 
2.43.0


From 008a13f7357ea9cf33ac14222a332d4340fad27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:32 +0000
Subject: [PATCH 24/25] fix: assigning to a hash table releases the entries it
 had

---
 include/eni/adt/bits/HashTable.tcc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/eni/adt/bits/HashTable.tcc b/include/eni/adt/bits/HashTable.tcc
index 522a6f1..bd4522f 100644
--- a/include/eni/adt/bits/HashTable.tcc
+++ b/include/eni/adt/bits/HashTable.tcc
@@ -59,6 +59,7 @@ HashTable<K, V, H, E, A>::operator=(const HashTable& pCopy)
   if (this == &pCopy)
     return *this;
 
+  HashTable old(std::move(*this)); // releases the former entries on return
   internal::TableImpl<K, V, H>::operator=(pCopy);
 
   // for all entries in pCopy, allocate an entry.
@@ -81,6 +82,10 @@ template<typename K, typename V, typename H,
 HashTable<K, V, H, E, A>&
 HashTable<K, V, H, E, A>::operator=(HashTable&& pOther)
 {
+  if (this == &pOther)
+    return *this;
+
+  HashTable old(std::move(*this)); // releases the former entries on return
   internal::TableImpl<K, V, H>::operator=(std::move(pOther));
   if (std::is_move_assignable<allocator_type>::value)
     m_EntryAlloc = std::move(pOther.m_EntryAlloc);
-- 
2.43.0


From cd1527ca926f583212e5d781194c55b26bc0407d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:32 +0000
Subject: [PATCH 25/25] fix: the rsa functions release their streams and
 buffers

---
 tools/eni_crypto/eni_crypto.cpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 0cfc823..480a92b 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -6,6 +6,7 @@
 ==------------------------------------------------------------------------==*/
 #include "eni_crypto.h"
 #include <sstream>
+#include <vector>
 
 extern "C" {
 #include <openssl/pem.h>
@@ -55,6 +56,7 @@ RSA* rsa::create_pubkey(const std::string& pPemStr)
   if (NULL == bio)
     return NULL;
   RSA* key = PEM_read_bio_RSA_PUBKEY(bio, NULL, NULL, NULL);
+  BIO_free(bio);
   return key;
 }
 
@@ -64,6 +66,7 @@ RSA* rsa::create_privkey(const std::string& pPemStr)
   if (NULL == bio)
     return NULL;
   RSA* key = PEM_read_bio_RSAPrivateKey(bio, NULL, NULL, NULL);
+  BIO_free(bio);
   return key;
 }
 
@@ -76,30 +79,30 @@ void rsa::destroy(RSA*& pKey)
 bool rsa::pub_encrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 {
   int size = ::RSA_size(&pKey);
-  unsigned char* encrypted = new unsigned char[size];
+  std::vector<unsigned char> encrypted(size);
   std::string message(pMsg);
   if (message.length() > size)
     return false;
   if (message.length() < size)
       message.append(size - message.length(), '\0');
   int len = ::RSA_public_encrypt(size,
-    reinterpret_cast<const unsigned char*>(message.c_str()), encrypted, &pKey,
+    reinterpret_cast<const unsigned char*>(message.c_str()), encrypted.data(), &pKey,
     RSA_NO_PADDING);
   if (-1 == len)
     return false;
-  pResult.assign(reinterpret_cast<char*>(encrypted), len);
+  pResult.assign(reinterpret_cast<char*>(encrypted.data()), len);
   return true;
 }
 
 bool rsa::pub_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 {
-  unsigned char* decrypted = new unsigned char[::RSA_size(&pKey)];
+  std::vector<unsigned char> decrypted(::RSA_size(&pKey));
   int len = ::RSA_public_decrypt(pMsg.length(),
-    reinterpret_cast<const unsigned char*>(pMsg.c_str()), decrypted, &pKey,
+    reinterpret_cast<const unsigned char*>(pMsg.c_str()), decrypted.data(), &pKey,
     RSA_NO_PADDING);
   if (-1 == len)
     return false;
-  std::string result(reinterpret_cast<const char*>(decrypted), len);
+  std::string result(reinterpret_cast<const char*>(decrypted.data()), len);
   pResult.assign(result.c_str()); //< without padding
   return true;
 }
@@ -107,30 +110,30 @@ bool rsa::pub_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 bool rsa::priv_encrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 {
   int size = ::RSA_size(&pKey);
-  unsigned char* encrypted = new unsigned char[size];
+  std::vector<unsigned char> encrypted(size);
   std::string message(pMsg);
   if (message.length() > size)
     return false;
   if (message.length() < size)
       message.append(size - message.length(), '\0');
   int len = ::RSA_private_encrypt(size,
-    reinterpret_cast<const unsigned char*>(message.c_str()), encrypted, &pKey,
+    reinterpret_cast<const unsigned char*>(message.c_str()), encrypted.data(), &pKey,
     RSA_NO_PADDING);
   if (-1 == len)
     return false;
-  pResult.assign(reinterpret_cast<char*>(encrypted), len);
+  pResult.assign(reinterpret_cast<char*>(encrypted.data()), len);
   return true;
 }
 
 bool rsa::priv_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 {
-  unsigned char* decrypted = new unsigned char[::RSA_size(&pKey)];
+  std::vector<unsigned char> decrypted(::RSA_size(&pKey));
   int len = ::RSA_private_decrypt(pMsg.length(),
-    reinterpret_cast<const unsigned char*>(pMsg.c_str()), decrypted, &pKey,
+    reinterpret_cast<const unsigned char*>(pMsg.c_str()), decrypted.data(), &pKey,
     RSA_NO_PADDING);
   if (-1 == len)
     return false;
-  std::string result(reinterpret_cast<const char*>(decrypted), len);
+  std::string result(reinterpret_cast<const char*>(decrypted.data()), len);
   pResult.assign(result.c_str()); //< without padding
   return true;
 }
-- 
2.43.0

