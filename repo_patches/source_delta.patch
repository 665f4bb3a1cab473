From 6aa36da90743ef9acd940aa40338535124d85ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 01/43] fix: String hash code is the same on first and on later
 calls

---
 src/core/String.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 92edf01..dcd959d 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -288,17 +288,17 @@ int64 String::hashCode()
 {
    if(mHash != 0)return mHash;
    uint32 hash = 0;
-   for(int32 a = 0; a < mStrLength; a++)hash = (hash << 5) - hash + mValue[a].unicode();
+   for(int64 a = 0; a < mStrLength; a++)hash = (hash << 5) - hash + mValue[a].unicode();
    mHash = (int32) hash;
-   return hash;
+   return mHash;
 }
 
 int64 String::constHashCode() const
 {
    if(mHash != 0)return mHash;
    uint32 hash = 0;
-   for(int32 a = 0; a < mStrLength; a++)hash = (hash << 5) - hash + mValue[a].unicode();
-   return hash;
+   for(int64 a = 0; a < mStrLength; a++)hash = (hash << 5) - hash + mValue[a].unicode();
+   return (int32) hash;
 }
 
 String String::toLowerCase() const
-- 
2.43.0


From b14411f8f3880f892b3d0a74c956df14d768d683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 02/43] fix: no stale String hash code after case conversion,
 replace, reverse and assignment

---
 src/core/String.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index dcd959d..70286f8 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -309,6 +309,7 @@ String String::toLowerCase() const
    {
       ret.mValue[a] = ret.mValue[a].toLowerCase();;
    }
+   ret.mHash = 0;
 
    return ret;
 }
@@ -321,6 +322,7 @@ String String::toUpperCase() const
    {
       ret.mValue[a] = ret.mValue[a].toUpperCase();
    }
+   ret.mHash = 0;
 
    return ret;
 }
@@ -438,6 +440,7 @@ String String::replace(Char oldChar, Char newChar) const
    {
       if(ret.mValue[a] == oldChar)ret.mValue[a] = newChar;
    }
+   ret.mHash = 0;
 
    return ret;
 }
@@ -483,6 +486,7 @@ String String::reverse() const
       ret.mValue[last] = tmp;
       last--;
    }
+   ret.mHash = 0;
 
    return ret;
 }
@@ -1239,6 +1243,7 @@ namespace jm
          mArrLength = another.mArrLength;
          mValue = new Char[mArrLength];
          memcpy(mValue, another.mValue, sizeof(Char) * mStrLength);
+         mHash = another.mHash;
       }
 
       return *this;
-- 
2.43.0


From ac68e7f2933bf72c3d7a75fd4c849064d751f09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 03/43] fix: String::atIs does not read in front of the string

---
 src/core/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 70286f8..1c8b75a 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -260,7 +260,7 @@ bool String::endsWith(const String& another) const
 
 bool String::atIs(int64 position, const String& another)
 {
-   if(position + another.mStrLength > mStrLength)return false;
+   if(position < 0 || position > mStrLength - another.mStrLength)return false;
 
    for(int64 a = 0; a < another.mStrLength; a++)
    {
@@ -272,7 +272,7 @@ bool String::atIs(int64 position, const String& another)
 
 bool String::atIsIgnoreCase(int64 position, const String& another)
 {
-   if(position + another.mStrLength > mStrLength)return false;
+   if(position < 0 || position > mStrLength - another.mStrLength)return false;
 
    for(int64 a = 0; a < another.mStrLength; a++)
    {
-- 
2.43.0


From aee5e56b19429a506dfede510f5a924c6b92fb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 04/43] fix: String::indexOf compares only characters of the
 string

---
 src/core/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 1c8b75a..0836c41 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -370,7 +370,7 @@ int64 String::indexOf(const String& str, int64 fromIndex) const
 {
    if(fromIndex < 0)fromIndex = 0;
 
-   for(int64 a = fromIndex; a < mStrLength; a++)
+   for(int64 a = fromIndex; a <= mStrLength - str.mStrLength; a++)
    {
       bool found = true;
       for(int64 b = 0 ; b < str.mStrLength; b++)
@@ -449,7 +449,7 @@ String String::replace(const String& oldStr, const String& newStr)const
 {
    int64 pos1 = 0;
    int64 pos2 = indexOf(oldStr);
-   if(pos2 < 0)return *this;
+   if(pos2 < 0 || oldStr.mStrLength == 0)return *this;
 
    String output;
 
-- 
2.43.0


From bed9ce6d98c787443315d561ac911e5651ae00e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 05/43] fix: a String can be inserted into itself

---
 src/core/String.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 0836c41..d063499 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -553,6 +553,12 @@ void String::insert(int64 index, const String& str)
    if(index < 0 || index > mStrLength)
       throw Exception(Tr("Index out of Bounds: %1 of %2").arg(index).arg(mStrLength));
 
+   if(&str == this)
+   {
+      insert(index, String(str));
+      return;
+   }
+
    int64 len = str.size();
    checkCapacity(len);
 
-- 
2.43.0


From eb955857134f1f7379bfd785bba745d415b25321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 06/43] fix: String::deleteCharRangeAt never makes the length
 negative

---
 src/core/String.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index d063499..89fddbd 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -588,6 +588,10 @@ void String::deleteCharRangeAt(int64 index, int64 length)
    if(index < 0 || index > mStrLength)
       throw Exception(Tr("Index out of Bounds: %1 of %2").arg(index).arg(mStrLength));
 
+   if(length < 0)
+      throw Exception(Tr("Negative length: %1").arg(length));
+   if(length > mStrLength - index)length = mStrLength - index;
+
    for(int64 a = index ; a < mStrLength - length; a++)
    {
       mValue[a] = mValue[a + length];
-- 
2.43.0


From 47c3761078dd63c44caf3598bb1043cfb3b48164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 07/43] fix: String::equals terminates for strings of more than
 2^32 characters

---
 src/core/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 89fddbd..2cda444 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -643,7 +643,7 @@ bool String::equals(const String& another) const
 {
    if(mStrLength != another.mStrLength)return false;
 
-   uint32 cnt = 0;
+   int64 cnt = 0;
    while(cnt < mStrLength)
    {
       if(mValue[cnt] != another.mValue[cnt])return false;
@@ -657,7 +657,7 @@ bool String::equalsIgnoreCase(const String& another) const
 {
    if(mStrLength != another.mStrLength)return false;
 
-   uint32 cnt = 0;
+   int64 cnt = 0;
    while(cnt < mStrLength)
    {
       Char c1 = mValue[cnt].toLowerCase();
-- 
2.43.0


From b9e4a08733527fad616724bccc2d1062d61e6811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 08/43] fix: String::valueOf works for the smallest 64 bit
 integer

---
 src/core/String.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 2cda444..2a01b69 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -980,24 +980,22 @@ String String::valueOf(int64 number)
 {
    String ret;
    bool neg = false;
+   uint64 magnitude = (uint64) number;
 
-   // Check sign
    if(number < 0)
    {
-      number *= -1;
+      magnitude = 0 - magnitude;
       neg = true;
    }
-   // Check 0
    else if(number == 0)
    {
       ret.append('0');
    }
 
-   // Solve the individual digits... Attention: the last digit comes first
-   while(number > 0)
+   while(magnitude > 0)
    {
-      int64 digit = number % 10;
-      number = number / 10;
+      uint64 digit = magnitude % 10;
+      magnitude = magnitude / 10;
       ret.append(Char(digit + '0'));
    }
    if(neg)ret.append('-');
-- 
2.43.0


From 17668ad2100f92a6b8b30621216a6f1b390770f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 09/43] fix: String::toInt accepts a minus sign only in front
 of the digits and the smallest integer

---
 src/core/String.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 2a01b69..c8085cf 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -1119,7 +1119,7 @@ double String::toDouble() const
 
 int64 String::toInt() const
 {
-   int64 val = 0;
+   uint64 val = 0;
    bool neg = false;
 
    for(int64 a = 0; a < size(); a++)
@@ -1131,12 +1131,12 @@ int64 String::toInt() const
          val *= 10;
          val += c.digitValue();
       }
-      else if(c == '-')neg = true;
+      else if(c == '-' && a == 0)neg = true;
       else throw jm::Exception("Number format exception for input string: \"" + *this + "\"");
    }
 
-   if(neg)val *= -1;
-   return val;
+   if(neg)val = 0 - val;
+   return (int64) val;
 }
 
 bool String::isEmpty() const
-- 
2.43.0


From 1358262cd5249e8a17b5afb8e4cae76351c8480c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 10/43] fix: String::arg writes unsigned 64 bit integers as
 unsigned numbers

---
 src/core/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index c8085cf..e7f17b7 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -903,7 +903,7 @@ String String::arg(uint64 value,
                    int64 fieldWidth,
                    Char fillchar) const
 {
-   return arg(static_cast<int64>(value), fieldWidth, fillchar);
+   return arg(String::valueOf(value), fieldWidth, fillchar);
 }
 
 String String::arg(const String& value,
-- 
2.43.0


From 1d6627356f3022d24b16e0de1107443358c9ac92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 11/43] fix: String::arg leaves a text without placeholder
 unchanged and replaces both digits of a placeholder with leading zero

---
 src/core/String.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index e7f17b7..9904065 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -804,22 +804,23 @@ bool String::argIndicies(int64& first, int64& second) const
       if(charAt(index) == Char('%') && charAt(index + 1).isDigit())
       {
          int64 number = charAt(index + 1).digitValue();
+         int64 end = index + 2;
          if(index + 2 < mStrLength && charAt(index + 2).isDigit())
          {
             number *= 10;
             number += charAt(index + 2).digitValue();
+            end++;
          }
          if(number < lowest)
          {
             first = index;
-            second = index + 2;
-            if(number > 9)second++;
+            second = end;
             lowest = number;
          }
       }
    }
 
-   return true;
+   return first >= 0;
 }
 
 String String::arg(Char character,
-- 
2.43.0


From 01920a87ad7d0cfeaaef08fce075bbabf5764b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 12/43] fix: Integer::digits works for the smallest 64 bit
 integer

---
 src/core/Integer.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/Integer.cpp b/src/core/Integer.cpp
index 99e21ab..473d66d 100644
--- a/src/core/Integer.cpp
+++ b/src/core/Integer.cpp
@@ -40,15 +40,16 @@ const jm::String gRoman[] = {"I", "IV", "V", "IX", "X", "XL", "L", "XC", "C", "C
 uint8 Integer::digits(int64 number)
 {
    uint8 i = 1;
+   uint64 magnitude = (uint64) number;
    if(number < 0)
    {
-      number *= -1;
+      magnitude = 0 - magnitude;
       i++;
    }
 
-   while(number > 9)
+   while(magnitude > 9)
    {
-      number = number / 10;
+      magnitude = magnitude / 10;
       i++;
    }
    return i;
-- 
2.43.0


From de12c8aa5b5cbcf2d4a1a2471020cc8b59d51859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 13/43] fix: Integer::toHexString writes negative numbers as
 their 64 bit pattern

---
 src/core/Integer.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/core/Integer.cpp b/src/core/Integer.cpp
index 473d66d..da201db 100644
--- a/src/core/Integer.cpp
+++ b/src/core/Integer.cpp
@@ -107,13 +107,12 @@ jm::String Integer::toHexString(int64 number)
       return ret;
    }
 
-   int32 base = 16;
+   uint64 rest = (uint64) number;
 
-   //Löse die einzelnen Zahlen auf... Achtung: die letzte Ziffer kommt zuerst
-   while(number > 0)
+   while(rest > 0)
    {
-      int64 digit = number % base;
-      number = number / base;
+      uint64 digit = rest % 16;
+      rest = rest / 16;
       ret.append(gMask[digit]);
    }
 
-- 
2.43.0


From 162268ab0353ed3083fd4ef1365eb631a5462f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 14/43] fix: Integer::toLatinAlphabetString: Z follows Y, and
 numbers above 2^31 * 26 are not cut off

---
 src/core/Integer.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/core/Integer.cpp b/src/core/Integer.cpp
index da201db..389b453 100644
--- a/src/core/Integer.cpp
+++ b/src/core/Integer.cpp
@@ -149,12 +149,11 @@ jm::String Integer::toLatinAlphabetString(int64 number)
 
    while(number > 0)
    {
-      int32 div = static_cast<int32>(number / 26);
-      int16 rest = (int16)(number % 26 - 1);
+      number--;
 
-      output.append('A' + rest);
+      output.append(Char('A' + number % 26));
 
-      number = div;
+      number /= 26;
    }
 
    //Zahlen umkehren
-- 
2.43.0


From 84616b0b528e96ed1c81793764ea23c6678dc5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:06 +0000
Subject: [PATCH 15/43] fix: ByteArray::replace writes at the target offset and
 reads only inside the source

---
 src/core/ByteArray.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/ByteArray.cpp b/src/core/ByteArray.cpp
index 93f8c0a..a195caa 100644
--- a/src/core/ByteArray.cpp
+++ b/src/core/ByteArray.cpp
@@ -196,11 +196,14 @@ void ByteArray::set(int64 index, uint8 item)
 void ByteArray::replace(int64 tgtOffset, int64 srcOffset, const ByteArray& buffer,
                         int64 length)
 {
+   if(tgtOffset < 0 || srcOffset < 0)return;
+
    int64 range = std::min(length, mArrSize - tgtOffset);
+   range = std::min(range, buffer.mArrSize - srcOffset);
 
    for(int64 a = 0; a < range; a++)
    {
-      mData[a] = buffer.mData[srcOffset + a];
+      mData[tgtOffset + a] = buffer.mData[srcOffset + a];
    }
 }
 
-- 
2.43.0


From 0c93f7a6d324356e18f7cfca551ec46909dae3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:06 +0000
Subject: [PATCH 16/43] fix: ByteArray::resize zeroes added bytes, terminates
 the data and releases the array with delete[]

---
 src/core/ByteArray.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/ByteArray.cpp b/src/core/ByteArray.cpp
index a195caa..62ee2f1 100644
--- a/src/core/ByteArray.cpp
+++ b/src/core/ByteArray.cpp
@@ -220,6 +220,10 @@ void ByteArray::resize(int64 newSize)
 {
    if(newSize <= mRawSize - 1)
    {
+      for(int64 index = mArrSize; index < newSize; index++)
+      {
+         mData[index] = 0;
+      }
       mArrSize = newSize;
       mData[mArrSize] = 0;
    }
@@ -230,13 +234,13 @@ void ByteArray::resize(int64 newSize)
       {
          tmp[index] = mData[index];
       }
-      for(int64 index = mArrSize; index < newSize; index++)
+      for(int64 index = mArrSize; index <= newSize; index++)
       {
          tmp[index] = 0;
       }
       mRawSize = newSize + 1;
       mArrSize = newSize;
-      if(mData != nullptr)delete mData;
+      if(mData != nullptr)delete[] mData;
       mData = tmp;
    }
 }
-- 
2.43.0


From 722a5da6c837a086199b9eea648dfd1f9d6e908a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:25 +0000
Subject: [PATCH 17/43] fix: Base64::decode gives no extra bytes for padding
 and reads only inside the text

---
 src/core/Base64.cpp | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/core/Base64.cpp b/src/core/Base64.cpp
index 08eccd9..12263cd 100644
--- a/src/core/Base64.cpp
+++ b/src/core/Base64.cpp
@@ -123,20 +123,20 @@ uint8* Base64::decode(const uint8* data, uint32& length)
 {
    uint8 c1 = 0, c2 = 0, c3 = 0, c4 = 0;
    uint8 b1 = 0, b2 = 0, b3 = 0;
-   int len = length;
+   int64 len = length;
 
-   uint32 lenb64 = (len * 3) / 4 ;
+   int64 lenb64 = ((len + 3) / 4) * 3;
 
    uint8* ret = new uint8[lenb64];
    uint32 index = 0;
    bool brk = false;
 
-   for(int32 i = 0; i < len; i = i + 4)
+   for(int64 i = 0; i < len; i = i + 4)
    {
       c1 = gBase64rcvt[data[i]];
-      c2 = gBase64rcvt[data[i + 1]];
-      c3 = gBase64rcvt[data[i + 2]];
-      c4 = gBase64rcvt[data[i + 3]];
+      c2 = (i + 1 < len) ? gBase64rcvt[data[i + 1]] : 65;
+      c3 = (i + 2 < len) ? gBase64rcvt[data[i + 2]] : 65;
+      c4 = (i + 3 < len) ? gBase64rcvt[data[i + 3]] : 65;
 
       if(c2 >= 65)
       {
@@ -148,24 +148,16 @@ uint8* Base64::decode(const uint8* data, uint32& length)
       if(brk)break;
 
 
-      if(c3 >= 65)
-      {
-         c3 = 0;
-         brk = true;
-      }
+      if(c3 >= 65)break;
+
       b2 = ((c2 << 4) & 0xf0) | ((c3 >> 2) & 0xf);
       ret[index++] = b2;
       if(brk)break;
 
-      if(c4 >= 65)
-      {
-         c4 = 0;
-         brk = true;
-      }
+      if(c4 >= 65)break;
+
       b3 = ((c3 << 6) & 0xc0) | c4;
       ret[index++] = b3;
-      if(brk)break;
-
    }
    length = index;
    return ret;
-- 
2.43.0


From 6dc3d466c2b3898b0d2890d4f98380bb7fce8312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 18/43] fix: swap keeps the value when both references name the
 same variable

---
 src/core/Math.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/core/Math.cpp b/src/core/Math.cpp
index 2f0e4a9..39573b8 100644
--- a/src/core/Math.cpp
+++ b/src/core/Math.cpp
@@ -124,30 +124,30 @@ void jm::swap(double& v1, double& v2)
 
 void jm::swap(int32& v1, int32& v2)
 {
-   v1 = v1 ^ v2;
-   v2 = v2 ^ v1;
-   v1 = v1 ^ v2;
+   int32 tmp = v1;
+   v1 = v2;
+   v2 = tmp;
 }
 
 void jm::swap(uint32& v1, uint32& v2)
 {
-   v1 = v1 ^ v2;
-   v2 = v2 ^ v1;
-   v1 = v1 ^ v2;
+   uint32 tmp = v1;
+   v1 = v2;
+   v2 = tmp;
 }
 
 void jm::swap(uint16& v1, uint16& v2)
 {
-   v1 = v1 ^ v2;
-   v2 = v2 ^ v1;
-   v1 = v1 ^ v2;
+   uint16 tmp = v1;
+   v1 = v2;
+   v2 = tmp;
 }
 
 void jm::swap(uint8& v1, uint8& v2)
 {
-   v1 = v1 ^ v2;
-   v2 = v2 ^ v1;
-   v1 = v1 ^ v2;
+   uint8 tmp = v1;
+   v1 = v2;
+   v2 = tmp;
 }
 
 double jm::random()
-- 
2.43.0


From 4582e0cd504309a5762726c40806611dd3974791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 19/43] fix: modFloor does not trap for the smallest value and
 divisor -1

---
 src/core/Math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Math.cpp b/src/core/Math.cpp
index 39573b8..63e0fec 100644
--- a/src/core/Math.cpp
+++ b/src/core/Math.cpp
@@ -242,7 +242,7 @@ int64 jm::divFloor(int64 x, int64 y)
 
 int64 jm::modFloor(int64 x, int64 y)
 {
-   if(y == 0)return 0;
+   if(y == 0 || y == -1)return 0;
    int64 r = x % y;
    if((r != 0) && ((r < 0) != (y < 0)))
    {
-- 
2.43.0


From fada81b82004d817b32d1f404137c1c6483849de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 20/43] fix: round does not go up for the value just below one
 half and for large odd values

---
 src/core/Math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Math.cpp b/src/core/Math.cpp
index 63e0fec..20f5e63 100644
--- a/src/core/Math.cpp
+++ b/src/core/Math.cpp
@@ -58,7 +58,7 @@ int64 jm::round(double number)
         return std::ceil(d - 0.5);
     else
         return std::floor(d + 0.5);*/
-   return ((number > 0.0) ? std::floor(number + 0.5) : std::ceil(number - 0.5));
+   return static_cast<int64>(std::round(number));
 }
 
 float jm::roundFrac(float f, int32 digits)
-- 
2.43.0


From af394db1df848e3a698040ff74a2016b857a3644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 21/43] fix: MemoryStream reads and writes at most the bytes
 left in its memory

---
 src/core/MemoryStream.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/MemoryStream.cpp b/src/core/MemoryStream.cpp
index 16da9d3..0c94273 100644
--- a/src/core/MemoryStream.cpp
+++ b/src/core/MemoryStream.cpp
@@ -66,7 +66,7 @@ void MemoryStream::close()
 
 int64 MemoryStream::read(uint8* buffer, int64 length)
 {
-   int64 available = (mPosition + length < mStreamlength) ? length : mStreamlength - mPosition;
+   int64 available = std::min(length, mStreamlength - mPosition);
    if(available > 0)memcpy(buffer, &mStream[mPosition], available);
    else return 0;
 
@@ -97,8 +97,10 @@ int64 MemoryStream::position()
 
 int64 MemoryStream::write(const uint8* buffer, int64 length)
 {
-   int64 available = (mPosition + length < mStreamlength) ? length : mStreamlength - mPosition;
-   memcpy(&mStream[mPosition], buffer, length);
+   int64 available = std::min(length, mStreamlength - mPosition);
+   if(available > 0)memcpy(&mStream[mPosition], buffer, available);
+   else return 0;
+
    mPosition += available;
    if(mPosition > mWritelength) mWritelength = mPosition;
    return available;
-- 
2.43.0


From fb84119b2552ad8867315b5914f8d37e6d2a144a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 22/43] fix: MemoryStream::readFully does not write past the
 end of the target array

---
 src/core/MemoryStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/MemoryStream.cpp b/src/core/MemoryStream.cpp
index 0c94273..6e4d4ba 100644
--- a/src/core/MemoryStream.cpp
+++ b/src/core/MemoryStream.cpp
@@ -76,7 +76,7 @@ int64 MemoryStream::read(uint8* buffer, int64 length)
 
 int64 MemoryStream::readFully(ByteArray& buffer, int64 length)
 {
-   return read((uint8*)buffer.data(), length);
+   return read((uint8*)buffer.data(), std::min(length, buffer.size()));
 }
 
 void MemoryStream::seek(int64 newPosition)
-- 
2.43.0


From c36b765962f40493d92fa28b3d8a939d07cddd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 23/43] fix: MemoryStream does not seek or move outside its
 memory

---
 src/core/MemoryStream.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/MemoryStream.cpp b/src/core/MemoryStream.cpp
index 6e4d4ba..a55ffed 100644
--- a/src/core/MemoryStream.cpp
+++ b/src/core/MemoryStream.cpp
@@ -81,13 +81,13 @@ int64 MemoryStream::readFully(ByteArray& buffer, int64 length)
 
 void MemoryStream::seek(int64 newPosition)
 {
-   mPosition = (newPosition < mStreamlength) ? newPosition : mPosition;
+   mPosition = (newPosition >= 0 && newPosition < mStreamlength) ? newPosition : mPosition;
 }
 
 void MemoryStream::move(int64 offset)
 {
-   int64 newPosition = mPosition + offset;
-   mPosition = (newPosition < mStreamlength) ? newPosition : mPosition;
+   if(offset < -mPosition || offset >= mStreamlength - mPosition)return;
+   mPosition += offset;
 }
 
 int64 MemoryStream::position()
-- 
2.43.0


From 5ae56bdcdf0c7514ffa269bf2309b5d2de099c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 24/43] fix: adding extents built from 2D points keeps the z
 range

---
 src/core/Extents.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/Extents.cpp b/src/core/Extents.cpp
index c8f1036..a1b7154 100644
--- a/src/core/Extents.cpp
+++ b/src/core/Extents.cpp
@@ -62,8 +62,13 @@ void Extents::add(const Extents& ext)
 {
    if(!ext.isValid())return;
 
-   add(ext.mPtMin);
-   add(ext.mPtMax);
+   mPtMin.x = std::min(mPtMin.x, ext.mPtMin.x);
+   mPtMin.y = std::min(mPtMin.y, ext.mPtMin.y);
+   mPtMin.z = std::min(mPtMin.z, ext.mPtMin.z);
+
+   mPtMax.x = std::max(mPtMax.x, ext.mPtMax.x);
+   mPtMax.y = std::max(mPtMax.y, ext.mPtMax.y);
+   mPtMax.z = std::max(mPtMax.z, ext.mPtMax.z);
 }
 
 const Vertex3& Extents::minPoint()const
-- 
2.43.0


From f8105e41cbff06a21355a62b084bcfd09c615a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 25/43] fix: toGreyScale computes the luminance of dark colours

---
 src/core/Color.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Color.cpp b/src/core/Color.cpp
index 6dbdcaf..bc1d526 100644
--- a/src/core/Color.cpp
+++ b/src/core/Color.cpp
@@ -127,8 +127,8 @@ void Color::toGreyScale()
          // G = 0.2126 R + 0.7152 G + 0.0722 B.
          float grey = 0.2126f * col.rgb.red +
                       0.7152f * col.rgb.green +
-                      0.0733f * col.rgb.blue;
-         col.g.grey = std::min(static_cast<int8>(255), static_cast<int8>(grey));
+                      0.0722f * col.rgb.blue;
+         col.g.grey = static_cast<uint8>(std::min(255.0f, grey + 0.5f));
          mAlpha = 255;
          break;
       }
-- 
2.43.0


From 2972af12f1226858fbfa0abb21f499b62da71336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 26/43] fix: toCmyk does not divide by zero for black

---
 src/core/Color.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/Color.cpp b/src/core/Color.cpp
index bc1d526..64383c8 100644
--- a/src/core/Color.cpp
+++ b/src/core/Color.cpp
@@ -165,13 +165,14 @@ void Color::toCmyk()
          float k = 1.0f - std::max(r, std::max(g, b));
          //The cyan colour (C) is calculated from the red (R') and black (K) colours:
          //C = (1-R'-K) / (1-K)
-         float c = (1 - r - k) / (1 - k);
+         float div = (k < 1.0f) ? 1 - k : 1.0f; // Black has no colour portion.
+         float c = (1 - r - k) / div;
          //The magenta colour (M) is calculated from the green (G') and black (K) colours:
          //M = (1-G'-K) / (1-K)
-         float m = (1 - g - k) / (1 - k);
+         float m = (1 - g - k) / div;
          //The yellow colour (Y) is calculated from the blue (B') and black (K) colours:
          //Y = (1-B'-K) / (1-K)
-         float y = (1 - b - k) / (1 - k);
+         float y = (1 - b - k) / div;
          mMode = ColorMode::kCmyk;
          col.cmyk.cyan = static_cast<uint8>(255.0f * c);
          col.cmyk.magenta = static_cast<uint8>(255.0f * m);
-- 
2.43.0


From 462efba6ed335896f9029ca64883bacbb751b576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 27/43] fix: blending two transparent colors does not divide by
 zero

---
 src/core/Color.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/Color.cpp b/src/core/Color.cpp
index 64383c8..72915cb 100644
--- a/src/core/Color.cpp
+++ b/src/core/Color.cpp
@@ -465,6 +465,8 @@ uint8 PorterDuffColour(uint8 colourBackground, uint8 alphaBackground, uint8 colo
    float B = colourBackground / 255.0f;
    float alphaC = PorterDuffAlpha(alphaBackground, alphaForeground) / 255.0f;
 
+   if(alphaC <= 0.0f)return 0;
+
    float C = (alphaA * A + (1 - alphaA) * alphaB * B) / alphaC;
 
    return (uint8)(C * 255);
-- 
2.43.0


From c85d9e74d028dd9453d18b7fdd0996d7d32918b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 28/43] fix: weekDay of dates before 1970 is in the range 0 to
 6

---
 src/core/Date.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Date.cpp b/src/core/Date.cpp
index bcc3622..92776cb 100644
--- a/src/core/Date.cpp
+++ b/src/core/Date.cpp
@@ -233,7 +233,7 @@ int64 Date::dateFromTime(int64 t) const
 int64 Date::weekDay(int64 t) const
 {
    //01.01.1970 = Donnerstag (=4)
-   return (day(t) + 4) % 7;
+   return modFloor(day(t) + 4, 7);
 }
 
 int64 Date::localTimeZoneAdjustment() const
-- 
2.43.0


From 0ed78b68fa599b7082970454bdb9ab804c1a88f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 29/43] fix: makeDay and timeWithinDay handle negative values

---
 src/core/Date.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Date.cpp b/src/core/Date.cpp
index 92776cb..c474cde 100644
--- a/src/core/Date.cpp
+++ b/src/core/Date.cpp
@@ -101,7 +101,7 @@ int64 Date::day(int64 t) const
 
 int64 Date::timeWithinDay(int64 t) const
 {
-   return t % MS_PER_DAY;
+   return modFloor(t, MS_PER_DAY);
 }
 
 int64 Date::daysInYear(int64 y) const
@@ -284,7 +284,7 @@ int64 Date::makeTime(int64 hour, int64 minute, int64 second, int64 milli) const
 int64 Date::makeDay(int64 year, int64 month, int64 date) const
 {
    int64 theYear = year + divFloor(month, 12);
-   int64 theMonth = month % 12;
+   int64 theMonth = modFloor(month, 12);
 
    //Find t with: (==r7)
    //YearFromTime(t) == r5
-- 
2.43.0


From fc3a422562796d9a2aa85573414062cdbfb09d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:09 +0000
Subject: [PATCH 30/43] fix: blending transparent colors keeps the channels in
 the range 0 to 255

---
 src/core/Color.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Color.cpp b/src/core/Color.cpp
index 72915cb..60672ac 100644
--- a/src/core/Color.cpp
+++ b/src/core/Color.cpp
@@ -463,13 +463,13 @@ uint8 PorterDuffColour(uint8 colourBackground, uint8 alphaBackground, uint8 colo
    float alphaB = alphaBackground / 255.0f;
    float A = colourForeground / 255.0f;
    float B = colourBackground / 255.0f;
-   float alphaC = PorterDuffAlpha(alphaBackground, alphaForeground) / 255.0f;
+   float alphaC = alphaA + (1 - alphaA) * alphaB;
 
    if(alphaC <= 0.0f)return 0;
 
    float C = (alphaA * A + (1 - alphaA) * alphaB * B) / alphaC;
 
-   return (uint8)(C * 255);
+   return (uint8)(C * 255 + 0.5f);
 }
 
 Color jm::blend(Color background, Color foreground, uint8 alpha)
-- 
2.43.0


From 91f1a7a917d1ed31b55b96b5aba9b6d88e356f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:09 +0000
Subject: [PATCH 31/43] fix: UTF-8 decoding does not read past the end of a
 truncated sequence

---
 src/core/UTF8Decoder.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/core/UTF8Decoder.cpp b/src/core/UTF8Decoder.cpp
index a659076..f7291b1 100644
--- a/src/core/UTF8Decoder.cpp
+++ b/src/core/UTF8Decoder.cpp
@@ -75,21 +75,23 @@ CharArray UTF8Decoder::decode(const char* cstring)
          strLength++;
          cntC++;
       }
-      else if((c & 0xE0) == 0xC0)     //2 Zeichen
+      else if((c & 0xE0) == 0xC0 && cstring[cntC + 1] != 0)     //2 Zeichen
       {
          strLength++;
          cntC += 2;
       }
-      else if((c & 0xF0) == 0xE0)     //3 Zeichen
+      else if((c & 0xF0) == 0xE0 && cstring[cntC + 1] != 0 && cstring[cntC + 2] != 0)     //3 Zeichen
       {
          strLength++;
          cntC += 3;
       }
-      else if((c & 0xF8) == 0xF0)     //4 Zeichen
+      else if((c & 0xF8) == 0xF0 && cstring[cntC + 1] != 0 && cstring[cntC + 2] != 0
+              && cstring[cntC + 3] != 0)     //4 Zeichen
       {
          strLength++;
          cntC += 4;
       }
+      else if(c == 0xFF && ((uint8)cstring[cntC + 1]) == 0xFE)cntC += 2; //Ignored, see below
       else
       {
          // In fact an encoding error, but we then take the byte as a single character
@@ -111,7 +113,7 @@ CharArray UTF8Decoder::decode(const char* cstring)
          cntV++;
          cntC++;
       }
-      else if((c & 0xE0) == 0xC0)     //2 Zeichen
+      else if((c & 0xE0) == 0xC0 && cstring[cntC + 1] != 0)     //2 Zeichen
       {
          c = (c & 0x001F) << 6;
          d = cstring[cntC + 1] & 0x3F;
@@ -119,7 +121,7 @@ CharArray UTF8Decoder::decode(const char* cstring)
          cntV++;
          cntC += 2;
       }
-      else if((c & 0xF0) == 0xE0)     //3 Zeichen
+      else if((c & 0xF0) == 0xE0 && cstring[cntC + 1] != 0 && cstring[cntC + 2] != 0)     //3 Zeichen
       {
          c = (c & 0x000F) << 12;
          d = (cstring[cntC + 1] & 0x3F) << 6;
@@ -128,7 +130,8 @@ CharArray UTF8Decoder::decode(const char* cstring)
          cntV++;
          cntC += 3;
       }
-      else if((c & 0xF8) == 0xF0)     //4 Zeichen
+      else if((c & 0xF8) == 0xF0 && cstring[cntC + 1] != 0 && cstring[cntC + 2] != 0
+              && cstring[cntC + 3] != 0)     //4 Zeichen
       {
          c = (c & 0x0007) << 18;
          d = (cstring[cntC + 1] & 0x3F) << 12;
-- 
2.43.0


From a9abb7cbe7b356c38da7823504385a26bd0acc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:09 +0000
Subject: [PATCH 32/43] fix: UTF-16 decoding ends at a 16 bit zero, encoding
 honours the byte order

---
 src/core/String.cpp       |  9 ++++++++-
 src/core/UTF16Decoder.cpp | 13 ++++++++-----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 9904065..7478310 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -134,8 +134,15 @@ String::String(const char* cstring, Charset* charset): Object(), Comparable<Stri
 String::String(const ByteArray& buffer, Charset* charset) : Object(), Comparable<String>(),
    mHash(0)
 {
-   CharArray array = charset->decode(buffer.constData());
+   // UTF-16 requires two terminating zeros, the byte array has one
+   int64 size = buffer.size();
+   char* cstring = new char[size + 2];
+   if(size > 0)memcpy(cstring, buffer.constData(), size);
+   cstring[size] = 0;
+   cstring[size + 1] = 0;
+   CharArray array = charset->decode(cstring);
    copy(array);
+   delete[] cstring;
 }
 
 String::~String()
diff --git a/src/core/UTF16Decoder.cpp b/src/core/UTF16Decoder.cpp
index d13e37b..2bc5ecb 100644
--- a/src/core/UTF16Decoder.cpp
+++ b/src/core/UTF16Decoder.cpp
@@ -43,8 +43,9 @@ CharArray UTF16Decoder::decode(const char* cstring)
    //Bestimme Länge
    uint32 strLength = 0;
    uint32 cntV = 0;
-   uint32 cntC = be ? 1 : 0;
+   uint32 cntC = 0;
    uint32 start = 0;
+   bool isBE = be;
 
    //Prüfe auf Steuerzeichen am Anfang des cstring. Wenn vorhanden ignoriere
    if(cstring[0] == static_cast<char>(0xFE) &&
@@ -52,12 +53,14 @@ CharArray UTF16Decoder::decode(const char* cstring)
    {
       cntC = 2;
       start = 2;
+      isBE = true;
    }
    else if(cstring[0] == static_cast<char>(0xFF) &&
            cstring[1] == static_cast<char>(0xFE))
    {
       cntC = 2;
       start = 2;
+      isBE = false;
    }
    else if(cstring[0] == static_cast<char>(0xEF) &&
            cstring[1] == static_cast<char>(0xBB) &&
@@ -67,7 +70,7 @@ CharArray UTF16Decoder::decode(const char* cstring)
    }
 
 
-   while(cstring[cntC] != 0)
+   while(cstring[cntC] != 0 || cstring[cntC + 1] != 0)
    {
       cntC += 2;
       strLength++;
@@ -80,7 +83,7 @@ CharArray UTF16Decoder::decode(const char* cstring)
       uint16 c1 = (uint8)cstring[cntC++];
       uint16 c2 = (uint8)cstring[cntC++];
 
-      if(be)ret.buffer[cntV] = Char((c1 << 8) | c2);
+      if(isBE)ret.buffer[cntV] = Char((c1 << 8) | c2);
       else ret.buffer[cntV] = Char(c1 | (c2 << 8));
       cntV++;
    }
@@ -97,9 +100,9 @@ ByteArray UTF16Decoder::encode(const CharArray& string)
    for(uint32 a = 0; a < string.length; a++)
    {
       uint16 character = string.buffer[a].unicode();
-      cstring[idx] = (int8)(character >> 8);
+      cstring[idx] = (int8)(be ? character >> 8 : character);
       idx++;
-      cstring[idx] = (int8)character;
+      cstring[idx] = (int8)(be ? character : character >> 8);
       idx++;
    }
    return cstring;
-- 
2.43.0


From 7ab1a0d838de05a90f1bb80528a698fa3693199b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:09 +0000
Subject: [PATCH 33/43] fix: Mac Roman table and encoder agree on 0x92, 0x93,
 0xB0 and 0x7F

---
 src/core/MacRomanDecoder.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/MacRomanDecoder.cpp b/src/core/MacRomanDecoder.cpp
index 058cfd2..3f61518 100644
--- a/src/core/MacRomanDecoder.cpp
+++ b/src/core/MacRomanDecoder.cpp
@@ -47,9 +47,9 @@ MacRomanDecoder::MacRomanDecoder(): CharsetDecoder()
       0x0060, 0x0061, 0x0062, 0x0063, 0x0064, 0x0065, 0x0066, 0x0067, 0x0068, 0x0069, 0x006A, 0x006B, 0x006C, 0x006D, 0x006E, 0x006F,
       0x0070, 0x0071, 0x0072, 0x0073, 0x0074, 0x0075, 0x0076, 0x0077, 0x0078, 0x0079, 0x007A, 0x007B, 0x007C, 0x007D, 0x007E, 0x007F,
       0x00C4, 0x00C5, 0x00C7, 0x00C9, 0x00D1, 0x00D6, 0x00DC, 0x00E1, 0x00E0, 0x00E2, 0x00E4, 0x00E3, 0x00E5, 0x00E7, 0x00E9, 0x00E8, //
-      0x00EA, 0x00EB, 0x00EC, 0x00ED, 0x00EE, 0x00EF, 0x00F1, 0x00F3, 0x00F2, 0x00F4, 0x00F6, 0x00F5, 0x00FA, 0x00F9, 0x00FB, 0x00FC, //
+      0x00EA, 0x00EB, 0x00ED, 0x00EC, 0x00EE, 0x00EF, 0x00F1, 0x00F3, 0x00F2, 0x00F4, 0x00F6, 0x00F5, 0x00FA, 0x00F9, 0x00FB, 0x00FC, //
       0x2020, 0x00B0, 0x00A2, 0x00A3, 0x00A7, 0x2022, 0x00B6, 0x00DF, 0x00AE, 0x00A9, 0x2122, 0x00B4, 0x00A8, 0x2260, 0x00C6, 0x00D8, //
-      0x211E, 0x00B1, 0x2264, 0x2265, 0x00A5, 0x00B5, 0x2202, 0x2211, 0x220F, 0x03C0, 0x222B, 0x00AA, 0x00BA, 0x03A9, 0x00E6, 0x00F8, //
+      0x221E, 0x00B1, 0x2264, 0x2265, 0x00A5, 0x00B5, 0x2202, 0x2211, 0x220F, 0x03C0, 0x222B, 0x00AA, 0x00BA, 0x03A9, 0x00E6, 0x00F8, //
       0x00BF, 0x00A1, 0x00AC, 0x221A, 0x0192, 0x2248, 0x2206, 0x00AB, 0x00BB, 0x2026, 0x00A0, 0x00C0, 0x00C3, 0x00D5, 0x0152, 0x0153, //
       0x2013, 0x2014, 0x201C, 0x201D, 0x2018, 0x2019, 0x00F7, 0x25CA, 0x00FF, 0x0178, 0x2044, 0x20AC, 0x2039, 0x203A, 0xFB01, 0xFB02, //
       0x2021, 0x00B7, 0x201A, 0x201E, 0x2030, 0x00C2, 0x00CA, 0x00C1, 0x00CB, 0x00C8, 0x00CD, 0x00CE, 0x00CF, 0x00CC, 0x00D3, 0x00D4, //
@@ -327,7 +327,8 @@ uint8 MacRomanDecoder::encodeCharacter(uint16 unicode)
          return 0x7D;
       case '~':
          return 0x7E;
-      //0x7f is DEL (invisible)
+      case 0x007F:
+         return 0x7F; //DEL (invisible)
       case 0x00C4:
          return 0x80; //Adieresis (Ä)
       case 0x00C5:
-- 
2.43.0


From 2c7eea6fbdb1f6b921f6ea33222057b7f38283e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:09 +0000
Subject: [PATCH 34/43] fix: Windows-1252 circumflex, NUL and characters
 outside of the page

---
 src/core/Windows1252Decoder.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/core/Windows1252Decoder.cpp b/src/core/Windows1252Decoder.cpp
index b3014b5..9ecd69e 100644
--- a/src/core/Windows1252Decoder.cpp
+++ b/src/core/Windows1252Decoder.cpp
@@ -46,7 +46,7 @@ Windows1252Decoder::Windows1252Decoder(): CharsetDecoder()
       0x0050, 0x0051, 0x0052, 0x0053, 0x0054, 0x0055, 0x0056, 0x0057, 0x0058, 0x0059, 0x005A, 0x005B, 0x005C, 0x005D, 0x005E, 0x005F,
       0x0060, 0x0061, 0x0062, 0x0063, 0x0064, 0x0065, 0x0066, 0x0067, 0x0068, 0x0069, 0x006A, 0x006B, 0x006C, 0x006D, 0x006E, 0x006F,
       0x0070, 0x0071, 0x0072, 0x0073, 0x0074, 0x0075, 0x0076, 0x0077, 0x0078, 0x0079, 0x007A, 0x007B, 0x007C, 0x007D, 0x007E, 0x007F,
-      0x20AC, 0x0000, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021, 0x20C6, 0x2030, 0x0160, 0x2039, 0x0152, 0x0000, 0x017D, 0x0000, //
+      0x20AC, 0x0000, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021, 0x02C6, 0x2030, 0x0160, 0x2039, 0x0152, 0x0000, 0x017D, 0x0000, //
       0x0000, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014, 0x02DC, 0x2122, 0x0161, 0x203A, 0x0153, 0x0000, 0x017E, 0x0178, //
       0x00A0, 0x00A1, 0x00A2, 0x00A3, 0x00A4, 0x00A5, 0x00A6, 0x00A7, 0x00A8, 0x00A9, 0x00AA, 0x00AB, 0x00AC, 0x00AD, 0x00AE, 0x00AF,
       0x00B0, 0x00B1, 0x00B2, 0x00B3, 0x00B4, 0x00B5, 0x00B6, 0x00B7, 0x00B8, 0x00B9, 0x00BA, 0x00BB, 0x00BC, 0x00BD, 0x00BE, 0x00BF,
@@ -116,7 +116,7 @@ ByteArray Windows1252Decoder::encode(const CharArray& string)
             cstring[a] = (uint8)0x87;
             break;
 
-         case 0x20C6:
+         case 0x02C6:
             cstring[a] = (uint8)0x88;
             break;
 
@@ -136,10 +136,6 @@ ByteArray Windows1252Decoder::encode(const CharArray& string)
             cstring[a] = (uint8)0x8C;
             break;
 
-         case 0x0000:
-            cstring[a] = (uint8)0x8D;
-            break;
-
          case 0x017D:
             cstring[a] = (uint8)0x8E;
             break;
@@ -201,7 +197,11 @@ ByteArray Windows1252Decoder::encode(const CharArray& string)
             break;
 
          default:
-            cstring[a] = (uint8)string.buffer[a].unicode();
+         {
+            uint16 unicode = string.buffer[a].unicode();
+            if(unicode < 0x80 || (unicode >= 0xA0 && unicode <= 0xFF))cstring[a] = (uint8)unicode;
+            else cstring[a] = 0; // Character does not exist in this code page
+         }
       }
    }
 
-- 
2.43.0


From d69d369c16a53d9a7c07b699d8b20d9001217e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:09 +0000
Subject: [PATCH 35/43] fix: raw decoding does not sign extend the bytes

---
 src/core/CharsetDecoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/CharsetDecoder.cpp b/src/core/CharsetDecoder.cpp
index 051df0f..a797360 100644
--- a/src/core/CharsetDecoder.cpp
+++ b/src/core/CharsetDecoder.cpp
@@ -58,7 +58,7 @@ CharArray RawDecoder::decode(const char* cstring)
 
    for(uint32 a = 0; a < length; a++)
    {
-      array.buffer[a] = Char(cstring[a]);
+      array.buffer[a] = Char(static_cast<uint8>(cstring[a]));
    }
 
    return array;
-- 
2.43.0


From 582385dfd3cb1f581ccd6b4019ac270faadf12b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:55 +0000
Subject: [PATCH 36/43] fix: exchanging two list elements works without an undo
 manager

---
 src/core/LinkedList.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/LinkedList.cpp b/src/core/LinkedList.cpp
index 0ee10a3..699ae69 100644
--- a/src/core/LinkedList.cpp
+++ b/src/core/LinkedList.cpp
@@ -291,9 +291,9 @@ void LinkedList::swapData(Object* data1, Object* data2, UndoManager* um)
       {
          um->registerChange(elem1, (Object**) & (elem1->data));
          um->registerChange(elem2, (Object**) & (elem2->data));
-         elem1->data = data2;
-         elem2->data = data1;
       }
+      elem1->data = data2;
+      elem2->data = data1;
    }
 }
 
-- 
2.43.0


From 3f888b35133baf291a6c54cd09fcbfe1b6f2c849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:55 +0000
Subject: [PATCH 37/43] fix: copying an object neither copies nor overwrites
 the reference count

---
 include/core/Object.h | 10 ++++++++++
 src/core/Object.cpp   |  9 +++++++++
 2 files changed, 19 insertions(+)

diff --git a/include/core/Object.h b/include/core/Object.h
index cea0532..1cf2ac3 100644
--- a/include/core/Object.h
+++ b/include/core/Object.h
@@ -54,6 +54,16 @@ namespace jm
           */
          Object() noexcept;
 
+         /*!
+          \brief Copy constructor. The copy is a new object with a reference counter of its own.
+          */
+         Object(const Object& other) noexcept;
+
+         /*!
+          \brief Assignment. The reference counter belongs to the object and is not assigned.
+          */
+         Object& operator=(const Object& other) noexcept;
+
          /*!
           \brief Destructor.
           */
diff --git a/src/core/Object.cpp b/src/core/Object.cpp
index ea2b55a..e2b71e8 100644
--- a/src/core/Object.cpp
+++ b/src/core/Object.cpp
@@ -41,6 +41,15 @@ Object::Object() noexcept:
    //mRefCount=2;
 }
 
+Object::Object(const Object&) noexcept: Object()
+{
+}
+
+Object& Object::operator=(const Object&) noexcept
+{
+   return *this;
+}
+
 Object::~Object() noexcept
 {
    mPool = nullptr;
-- 
2.43.0


From 952fc8542bd332190d77fd5fe6369a309981792c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:20 +0000
Subject: [PATCH 38/43] fix: an interrupt right after starting a thread is not
 overwritten

---
 src/core/Thread.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/core/Thread.cpp b/src/core/Thread.cpp
index 8ce9893..baba82c 100644
--- a/src/core/Thread.cpp
+++ b/src/core/Thread.cpp
@@ -39,10 +39,6 @@ void* StartThread(void* arg)
 {
    Thread* t = (Thread*)arg;
 
-   pthread_mutex_lock(&t->criticalSection);
-   t->alive = true;
-   pthread_mutex_unlock(&t->criticalSection);
-
    t->run();
    pthread_exit(nullptr);
 }
@@ -96,8 +92,19 @@ void Thread::start()
    #if defined __APPLE__ || defined __linux__
    void* arg = (void*)this;
 
+   // Set before the thread is running, so that an interrupt() right after start() is not overwritten.
+   pthread_mutex_lock(&criticalSection);
+   alive = true;
+   pthread_mutex_unlock(&criticalSection);
+
    int ret = pthread_create(&thread, nullptr, StartThread, arg);
-   if(ret != 0)throw Exception("Error on starting Thread");
+   if(ret != 0)
+   {
+      pthread_mutex_lock(&criticalSection);
+      alive = false;
+      pthread_mutex_unlock(&criticalSection);
+      throw Exception("Error on starting Thread");
+   }
    #elif defined _WIN32
    void* arg = (void*)this;
    mHandle = CreateThread(0, 0, StartThread, arg, 0, &mThreadID);
-- 
2.43.0


From 51fbeb1b2637bc97f6ca8fdecaf4b8acbcd9683b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:20 +0000
Subject: [PATCH 39/43] fix: setting the high bit does not lose concurrent
 reference changes

---
 src/core/Object.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/Object.cpp b/src/core/Object.cpp
index e2b71e8..0b0b50d 100644
--- a/src/core/Object.cpp
+++ b/src/core/Object.cpp
@@ -114,7 +114,12 @@ void Object::printDiffInfo(DiffOperation, Object*) const
 
 void Object::setHighBit(bool status) noexcept
 {
+   // The bit shares its word with the reference counter, see retain() and release()
+   Mutex* mutex = mPool != nullptr ? mPool->mutex() : nullptr;
+
+   if(mutex != nullptr)mutex->lock();
    mRefCount = referenceCount() | (status ? 0x80000000 : 0x00000000);
+   if(mutex != nullptr)mutex->unlock();
 }
 
 bool Object::highBit()const noexcept
-- 
2.43.0


From fc5cb0f3297b7c08b49a9d8170027fec93263950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:06 +0000
Subject: [PATCH 40/43] fix: appending or removing an element of the list
 itself uses its own copy

---
 src/core/StringList.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/StringList.cpp b/src/core/StringList.cpp
index 1ae6fee..a434256 100644
--- a/src/core/StringList.cpp
+++ b/src/core/StringList.cpp
@@ -82,15 +82,17 @@ void StringList::reserve(int64 size)
 
 void StringList::append(const jm::String& string)
 {
+   String item = string; // The string may be an element of this list.
    checkSize(1);
-   mData[mSize++] = string;
+   mData[mSize++] = item;
 }
 
 void StringList::remove(const jm::String& string)
 {
+   String item = string; // The string may be an element of this list.
    for(int64 index = 0; index < mSize; index++)
    {
-      if(mData[index] == string)
+      if(mData[index] == item)
       {
          for(int64 index2 = index + 1; index2 < mSize; index2++)
          {
-- 
2.43.0


From 0aa869ae9f2c34c35143dfa8a392c4ed8b461ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:31 +0000
Subject: [PATCH 41/43] fix: matrix sum and difference compare both dimensions

The check compared the columns of the one matrix with the rows of the
other: sums of equal non-square matrices were refused, and a 2x3 plus a
3x5 matrix was accepted and read outside the smaller one.
---
 src/core/Matrix.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/Matrix.cpp b/src/core/Matrix.cpp
index eacf59e..fb7ed20 100644
--- a/src/core/Matrix.cpp
+++ b/src/core/Matrix.cpp
@@ -910,8 +910,8 @@ const Matrix jm::operator*(Matrix const& A, Matrix const& B)
 
 const Matrix jm::operator+(Matrix const& A, Matrix const& B)
 {
-   //Die Spaltenanzahl der linken Matrix muss mit der Zeilenanzahl der Rechten Matrix übereinstimmen
-   if(A.n != B.m) throw
+   // Both matrices must have the same number of rows and columns
+   if(A.m != B.m || A.n != B.n) throw
       jm::Exception("Die Matrizen passen nicht zusammen! A: ");   //'+IntToStr(A.m)+'x'+IntToStr(A.n)+' B:'+IntToStr(B.m)+'x'+IntToStr(B.n));
 
    Matrix R = Matrix(A.m, B.n);
@@ -935,8 +935,8 @@ const Matrix jm::operator+(Matrix const& A, Matrix const& B)
 
 const Matrix jm::operator-(Matrix const& A, Matrix const& B)
 {
-   //Die Spaltenanzahl der linken Matrix muss mit der Zeilenanzahl der Rechten Matrix übereinstimmen
-   if(A.n != B.m) throw
+   // Both matrices must have the same number of rows and columns
+   if(A.m != B.m || A.n != B.n) throw
       jm::Exception("Die Matrizen passen nicht zusammen! A: ");   //'+IntToStr(A.m)+'x'+IntToStr(A.n)+' B:'+IntToStr(B.m)+'x'+IntToStr(B.n));
 
    Matrix R = Matrix(A.m, B.n);
-- 
2.43.0


From e124293daec2ade57ac364e1d2511274b294266e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:31 +0000
Subject: [PATCH 42/43] fix: Vertex3::biggest() for equal components

With x == y > z the smallest component was returned.
---
 src/core/Vertex3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Vertex3.cpp b/src/core/Vertex3.cpp
index b50d91e..04b6679 100644
--- a/src/core/Vertex3.cpp
+++ b/src/core/Vertex3.cpp
@@ -165,7 +165,7 @@ Vertex3 Vertex3::scale(const Vertex3& another)const
 
 double Vertex3::biggest() const
 {
-   return (x > y && x > z) ? x : ((y > x && y > z) ? y : z);
+   return (x >= y && x >= z) ? x : ((y >= x && y >= z) ? y : z);
 }
 
 /*
-- 
2.43.0


From bfd3ef847be7d539107dbc6e53f920ea3973f91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:38 +0000
Subject: [PATCH 43/43] fix: File::extension() of a name without a dot

Without a dot the whole path was returned, and a dot in a folder's name
made the rest of the path the extension.
---
 src/core/File.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index ded478b..972d35a 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -570,7 +570,10 @@ String File::name() const
 
 String File::extension() const
 {
-   return mPathname.substring(mPathname.lastIndexOf('.') + 1);
+   String filename = name();
+   int64 index = filename.lastIndexOf('.');
+   if(index < 0)return String();
+   return filename.substring(index + 1);
 }
 
 bool File::isAbsolute() const
-- 
2.43.0

