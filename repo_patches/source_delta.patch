From f68f1ffc4c08e34cd8cfb9ef74876e588e20027c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 01/28] fix: string fragments lost text on append and searched
 outside of themselves

Appending to a borrowed fragment whose neighbour is not adjacent dropped the
text gathered so far, find() looked past the end of the fragment, and a
fragment of an owning fragment read an unrelated string.
---
 common/string_frag.cpp | 5 +++--
 common/string_frag.hpp | 9 ++++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/common/string_frag.cpp b/common/string_frag.cpp
index 22ea01a..0590a39 100644
--- a/common/string_frag.cpp
+++ b/common/string_frag.cpp
@@ -74,7 +74,7 @@ void StringFrag::append(const StringFrag & other) {
     ) {
         len_ += other.len_;
         contents_ = src_.substr(begin_, (std::min)(len_, (size_t)ABBR_LENGTH));
-    } else if (contents_=="" && this != &other) {
+    } else if (length() == 0 && this != &other) {
         this->StringFrag::~StringFrag();
         new (this) StringFrag(other);
     } else {
@@ -95,7 +95,8 @@ size_t StringFrag::find(char c, size_t pos) const {
     if (stored_()) {
         return contents_.find(c, pos);
     }
-    return src_.find(c, begin_ + pos) - begin_;
+    size_t found = src_.find(c, begin_ + pos);
+    return found < begin_ + len_ ? found - begin_ : std::string::npos;
 }
 
 
diff --git a/common/string_frag.hpp b/common/string_frag.hpp
index e6b49ea..4ec75d6 100644
--- a/common/string_frag.hpp
+++ b/common/string_frag.hpp
@@ -56,12 +56,15 @@ public:
         size_t len
     ) :
 #if STRING_FRAG_VALIDATION
-        contents_(sf.src_.substr(sf.begin_ + begin, (std::min)(len, (size_t)ABBR_LENGTH))),
+        contents_(
+            sf.stored_()
+            ? sf.contents_.substr(begin, len)
+            : sf.src_.substr(sf.begin_ + begin, (std::min)(len, (size_t)ABBR_LENGTH))),
 #else
-        contents_(""),
+        contents_(sf.stored_() ? sf.contents_.substr(begin, len) : std::string()),
 #endif
         src_(sf.src_),
-        begin_(sf.begin_ + begin),
+        begin_(sf.stored_() ? std::string::npos : sf.begin_ + begin),
         len_(len)
     {
 #if STRING_FRAG_VALIDATION
-- 
2.43.0


From dc585c590cca106bda206ecf4c2e735d662aec04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:40 +0000
Subject: [PATCH 02/28] fix: attribute integers of 2^30 and more were stored
 corrupted

---
 common/zvalue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/zvalue.hpp b/common/zvalue.hpp
index 0ab36ce..3978095 100644
--- a/common/zvalue.hpp
+++ b/common/zvalue.hpp
@@ -34,7 +34,7 @@ class zobject;
 #define TRUEP(z)    ( !( NULLP((z)) || ZEROP((z)) ) )
 
 #define ZVALUE_TO_INTEGER(z) ( reinterpret_cast<zint_t>(z) >> 1 )
-#define INTEGER_TO_ZVALUE(i) ( reinterpret_cast<zvalue>(((i) << 1) | 1) )
+#define INTEGER_TO_ZVALUE(i) ( reinterpret_cast<zvalue>((static_cast<zint_t>(i) << 1) | 1) )
 #define INTEGERP(z)          ( reinterpret_cast<zint_t>(z) & 1 )
 
 #define ZVALUE_TO_ZOBJECT(z) ( reinterpret_cast<zobject*>(z) )
-- 
2.43.0


From 5b0c4deb3a001e40f333e522f05f8436eb47d801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:40 +0000
Subject: [PATCH 03/28] fix: segment globs matched ? and * inside multibyte
 characters

---
 common/segment_glob.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/common/segment_glob.cpp b/common/segment_glob.cpp
index 9b40639..229cd8c 100644
--- a/common/segment_glob.cpp
+++ b/common/segment_glob.cpp
@@ -1,6 +1,15 @@
 #include "segment_glob.hpp"
 
-#include "utf8/utf8.h"
+namespace {
+    // moves to the next UTF-8 character (never beyond the end of the text)
+    void nextCharacter(const char*& s) {
+        if (*s)
+            ++s;
+
+        while ((*s & 0xC0) == 0x80)
+            ++s;
+    }
+}
 
 SegmentGlob::SegmentGlob(const std::string& glob):glob_(glob) {
     checkIfFixed_();
@@ -22,7 +31,7 @@ bool SegmentGlob::matches(const std::string& segment) const {
             return false;
         }
         if (*g == '?')
-            utf8::unchecked::next(s);
+            nextCharacter(s);
         else
             ++s;
 
@@ -35,16 +44,18 @@ bool SegmentGlob::matches(const std::string& segment) const {
                 return true;
             }
             mp = g;
-            cp = s+1;
+            cp = s;
+            nextCharacter(cp);
         } else if (*g == '?') {
             ++g;
-            utf8::unchecked::next(s);
+            nextCharacter(s);
         } else if (*g == *s) {
             ++g;
             ++s;
         } else {
             g = mp;
-            s = cp++;
+            s = cp;
+            nextCharacter(cp);
         }
     }
 
-- 
2.43.0


From b2c6593b32d3ef8dae48468cbc641b84d0fef45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:40 +0000
Subject: [PATCH 04/28] fix: looking up an alias in a cyclic alias table never
 ended

---
 framework/aliaser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework/aliaser.cpp b/framework/aliaser.cpp
index a32e67c..befc324 100644
--- a/framework/aliaser.cpp
+++ b/framework/aliaser.cpp
@@ -90,9 +90,11 @@ void Aliaser::findAliases_(
     if (isAlias(name))
         aliases.insert(name);
 
-    if (depthLimit == 0)
+    if (depthLimit == 0) {
         WARN("search depth limit exceeded for `" << name
              << "` , there might be a loop in alias definitions");
+        return;
+    }
 
     std::map<std::string, std::set<std::string> >::const_iterator it
         = destinationAliases_.find(name);
-- 
2.43.0


From 618bc27774af3a83ccb358e317c2d683c2614d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:40 +0000
Subject: [PATCH 05/28] fix: empty arguments and arguments with tabs or
 newlines were lost when a pipeline was rebuilt

---
 framework/shallow_aliaser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/shallow_aliaser.cpp b/framework/shallow_aliaser.cpp
index 1dcb4b5..2528b61 100644
--- a/framework/shallow_aliaser.cpp
+++ b/framework/shallow_aliaser.cpp
@@ -101,7 +101,8 @@ std::vector<std::string> ShallowAliaser::replace(std::vector<std::string> pipeli
         boost::replace_all(pipeline[i], "\\\\\\\\n", "\\\\n");
         boost::replace_all(pipeline[i], "\\\\\\\\\\\\n", "\\\\\\\\n");
         boost::replace_all(pipeline[i], "\"", "\\\"");
-        if (pipeline[i].find(" ") != std::string::npos) {
+        if (pipeline[i].empty()
+            || pipeline[i].find_first_of(" \t\n\v\f\r") != std::string::npos) {
             pipeline[i] = "\"" + pipeline[i] + "\"";
         }
     }
-- 
2.43.0


From 14021903ea5d0cb211b37fe44b64b2f13a5a156f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 06/28] fix: special casing of characters above U+00DF was not
 found in the unsorted table

---
 utf8case/case_tables.cpp         | 210 +++++++++++++++----------------
 utf8case/generate_case_tables.pl |   3 +-
 2 files changed, 107 insertions(+), 106 deletions(-)

diff --git a/utf8case/case_tables.cpp b/utf8case/case_tables.cpp
index 4816d59..4ac195d 100644
--- a/utf8case/case_tables.cpp
+++ b/utf8case/case_tables.cpp
@@ -488,23 +488,11 @@ const size_t LOWER_SPECIAL_CASING_SIZE = 103;
 const SpecialCasingConversionRecord LOWER_SPECIAL_CASING[LOWER_SPECIAL_CASING_SIZE] = {
     {223, "\xc3\x9f"},
     {304, "\x69\xcc\x87"},
-    {64256, "\xef\xac\x80"},
-    {64257, "\xef\xac\x81"},
-    {64258, "\xef\xac\x82"},
-    {64259, "\xef\xac\x83"},
-    {64260, "\xef\xac\x84"},
-    {64261, "\xef\xac\x85"},
-    {64262, "\xef\xac\x86"},
-    {1415, "\xd6\x87"},
-    {64275, "\xef\xac\x93"},
-    {64276, "\xef\xac\x94"},
-    {64277, "\xef\xac\x95"},
-    {64278, "\xef\xac\x96"},
-    {64279, "\xef\xac\x97"},
     {329, "\xc5\x89"},
+    {496, "\xc7\xb0"},
     {912, "\xce\x90"},
     {944, "\xce\xb0"},
-    {496, "\xc7\xb0"},
+    {1415, "\xd6\x87"},
     {7830, "\xe1\xba\x96"},
     {7831, "\xe1\xba\x97"},
     {7832, "\xe1\xba\x98"},
@@ -514,18 +502,6 @@ const SpecialCasingConversionRecord LOWER_SPECIAL_CASING[LOWER_SPECIAL_CASING_SI
     {8018, "\xe1\xbd\x92"},
     {8020, "\xe1\xbd\x94"},
     {8022, "\xe1\xbd\x96"},
-    {8118, "\xe1\xbe\xb6"},
-    {8134, "\xe1\xbf\x86"},
-    {8146, "\xe1\xbf\x92"},
-    {8147, "\xe1\xbf\x93"},
-    {8150, "\xe1\xbf\x96"},
-    {8151, "\xe1\xbf\x97"},
-    {8162, "\xe1\xbf\xa2"},
-    {8163, "\xe1\xbf\xa3"},
-    {8164, "\xe1\xbf\xa4"},
-    {8166, "\xe1\xbf\xa6"},
-    {8167, "\xe1\xbf\xa7"},
-    {8182, "\xe1\xbf\xb6"},
     {8064, "\xe1\xbe\x80"},
     {8065, "\xe1\xbe\x81"},
     {8066, "\xe1\xbe\x82"},
@@ -574,43 +550,55 @@ const SpecialCasingConversionRecord LOWER_SPECIAL_CASING[LOWER_SPECIAL_CASING_SI
     {8109, "\xe1\xbe\xa5"},
     {8110, "\xe1\xbe\xa6"},
     {8111, "\xe1\xbe\xa7"},
-    {8115, "\xe1\xbe\xb3"},
-    {8124, "\xe1\xbe\xb3"},
-    {8131, "\xe1\xbf\x83"},
-    {8140, "\xe1\xbf\x83"},
-    {8179, "\xe1\xbf\xb3"},
-    {8188, "\xe1\xbf\xb3"},
     {8114, "\xe1\xbe\xb2"},
+    {8115, "\xe1\xbe\xb3"},
     {8116, "\xe1\xbe\xb4"},
+    {8118, "\xe1\xbe\xb6"},
+    {8119, "\xe1\xbe\xb7"},
+    {8124, "\xe1\xbe\xb3"},
     {8130, "\xe1\xbf\x82"},
+    {8131, "\xe1\xbf\x83"},
     {8132, "\xe1\xbf\x84"},
+    {8134, "\xe1\xbf\x86"},
+    {8135, "\xe1\xbf\x87"},
+    {8140, "\xe1\xbf\x83"},
+    {8146, "\xe1\xbf\x92"},
+    {8147, "\xe1\xbf\x93"},
+    {8150, "\xe1\xbf\x96"},
+    {8151, "\xe1\xbf\x97"},
+    {8162, "\xe1\xbf\xa2"},
+    {8163, "\xe1\xbf\xa3"},
+    {8164, "\xe1\xbf\xa4"},
+    {8166, "\xe1\xbf\xa6"},
+    {8167, "\xe1\xbf\xa7"},
     {8178, "\xe1\xbf\xb2"},
+    {8179, "\xe1\xbf\xb3"},
     {8180, "\xe1\xbf\xb4"},
-    {8119, "\xe1\xbe\xb7"},
-    {8135, "\xe1\xbf\x87"},
-    {8183, "\xe1\xbf\xb7"}
+    {8182, "\xe1\xbf\xb6"},
+    {8183, "\xe1\xbf\xb7"},
+    {8188, "\xe1\xbf\xb3"},
+    {64256, "\xef\xac\x80"},
+    {64257, "\xef\xac\x81"},
+    {64258, "\xef\xac\x82"},
+    {64259, "\xef\xac\x83"},
+    {64260, "\xef\xac\x84"},
+    {64261, "\xef\xac\x85"},
+    {64262, "\xef\xac\x86"},
+    {64275, "\xef\xac\x93"},
+    {64276, "\xef\xac\x94"},
+    {64277, "\xef\xac\x95"},
+    {64278, "\xef\xac\x96"},
+    {64279, "\xef\xac\x97"}
 };
 const size_t TITLE_SPECIAL_CASING_SIZE = 103;
 const SpecialCasingConversionRecord TITLE_SPECIAL_CASING[TITLE_SPECIAL_CASING_SIZE] = {
     {223, "\x53\x73"},
     {304, "\xc4\xb0"},
-    {64256, "\x46\x66"},
-    {64257, "\x46\x69"},
-    {64258, "\x46\x6c"},
-    {64259, "\x46\x66\x69"},
-    {64260, "\x46\x66\x6c"},
-    {64261, "\x53\x74"},
-    {64262, "\x53\x74"},
-    {1415, "\xd4\xb5\xd6\x82"},
-    {64275, "\xd5\x84\xd5\xb6"},
-    {64276, "\xd5\x84\xd5\xa5"},
-    {64277, "\xd5\x84\xd5\xab"},
-    {64278, "\xd5\x8e\xd5\xb6"},
-    {64279, "\xd5\x84\xd5\xad"},
     {329, "\xca\xbc\x4e"},
+    {496, "\x4a\xcc\x8c"},
     {912, "\xce\x99\xcc\x88\xcc\x81"},
     {944, "\xce\xa5\xcc\x88\xcc\x81"},
-    {496, "\x4a\xcc\x8c"},
+    {1415, "\xd4\xb5\xd6\x82"},
     {7830, "\x48\xcc\xb1"},
     {7831, "\x54\xcc\x88"},
     {7832, "\x57\xcc\x8a"},
@@ -620,18 +608,6 @@ const SpecialCasingConversionRecord TITLE_SPECIAL_CASING[TITLE_SPECIAL_CASING_SI
     {8018, "\xce\xa5\xcc\x93\xcc\x80"},
     {8020, "\xce\xa5\xcc\x93\xcc\x81"},
     {8022, "\xce\xa5\xcc\x93\xcd\x82"},
-    {8118, "\xce\x91\xcd\x82"},
-    {8134, "\xce\x97\xcd\x82"},
-    {8146, "\xce\x99\xcc\x88\xcc\x80"},
-    {8147, "\xce\x99\xcc\x88\xcc\x81"},
-    {8150, "\xce\x99\xcd\x82"},
-    {8151, "\xce\x99\xcc\x88\xcd\x82"},
-    {8162, "\xce\xa5\xcc\x88\xcc\x80"},
-    {8163, "\xce\xa5\xcc\x88\xcc\x81"},
-    {8164, "\xce\xa1\xcc\x93"},
-    {8166, "\xce\xa5\xcd\x82"},
-    {8167, "\xce\xa5\xcc\x88\xcd\x82"},
-    {8182, "\xce\xa9\xcd\x82"},
     {8064, "\xe1\xbe\x88"},
     {8065, "\xe1\xbe\x89"},
     {8066, "\xe1\xbe\x8a"},
@@ -680,43 +656,55 @@ const SpecialCasingConversionRecord TITLE_SPECIAL_CASING[TITLE_SPECIAL_CASING_SI
     {8109, "\xe1\xbe\xad"},
     {8110, "\xe1\xbe\xae"},
     {8111, "\xe1\xbe\xaf"},
-    {8115, "\xe1\xbe\xbc"},
-    {8124, "\xe1\xbe\xbc"},
-    {8131, "\xe1\xbf\x8c"},
-    {8140, "\xe1\xbf\x8c"},
-    {8179, "\xe1\xbf\xbc"},
-    {8188, "\xe1\xbf\xbc"},
     {8114, "\xe1\xbe\xba\xcd\x85"},
+    {8115, "\xe1\xbe\xbc"},
     {8116, "\xce\x86\xcd\x85"},
+    {8118, "\xce\x91\xcd\x82"},
+    {8119, "\xce\x91\xcd\x82\xcd\x85"},
+    {8124, "\xe1\xbe\xbc"},
     {8130, "\xe1\xbf\x8a\xcd\x85"},
+    {8131, "\xe1\xbf\x8c"},
     {8132, "\xce\x89\xcd\x85"},
+    {8134, "\xce\x97\xcd\x82"},
+    {8135, "\xce\x97\xcd\x82\xcd\x85"},
+    {8140, "\xe1\xbf\x8c"},
+    {8146, "\xce\x99\xcc\x88\xcc\x80"},
+    {8147, "\xce\x99\xcc\x88\xcc\x81"},
+    {8150, "\xce\x99\xcd\x82"},
+    {8151, "\xce\x99\xcc\x88\xcd\x82"},
+    {8162, "\xce\xa5\xcc\x88\xcc\x80"},
+    {8163, "\xce\xa5\xcc\x88\xcc\x81"},
+    {8164, "\xce\xa1\xcc\x93"},
+    {8166, "\xce\xa5\xcd\x82"},
+    {8167, "\xce\xa5\xcc\x88\xcd\x82"},
     {8178, "\xe1\xbf\xba\xcd\x85"},
+    {8179, "\xe1\xbf\xbc"},
     {8180, "\xce\x8f\xcd\x85"},
-    {8119, "\xce\x91\xcd\x82\xcd\x85"},
-    {8135, "\xce\x97\xcd\x82\xcd\x85"},
-    {8183, "\xce\xa9\xcd\x82\xcd\x85"}
+    {8182, "\xce\xa9\xcd\x82"},
+    {8183, "\xce\xa9\xcd\x82\xcd\x85"},
+    {8188, "\xe1\xbf\xbc"},
+    {64256, "\x46\x66"},
+    {64257, "\x46\x69"},
+    {64258, "\x46\x6c"},
+    {64259, "\x46\x66\x69"},
+    {64260, "\x46\x66\x6c"},
+    {64261, "\x53\x74"},
+    {64262, "\x53\x74"},
+    {64275, "\xd5\x84\xd5\xb6"},
+    {64276, "\xd5\x84\xd5\xa5"},
+    {64277, "\xd5\x84\xd5\xab"},
+    {64278, "\xd5\x8e\xd5\xb6"},
+    {64279, "\xd5\x84\xd5\xad"}
 };
 const size_t UPPER_SPECIAL_CASING_SIZE = 103;
 const SpecialCasingConversionRecord UPPER_SPECIAL_CASING[UPPER_SPECIAL_CASING_SIZE] = {
     {223, "\x53\x53"},
     {304, "\xc4\xb0"},
-    {64256, "\x46\x46"},
-    {64257, "\x46\x49"},
-    {64258, "\x46\x4c"},
-    {64259, "\x46\x46\x49"},
-    {64260, "\x46\x46\x4c"},
-    {64261, "\x53\x54"},
-    {64262, "\x53\x54"},
-    {1415, "\xd4\xb5\xd5\x92"},
-    {64275, "\xd5\x84\xd5\x86"},
-    {64276, "\xd5\x84\xd4\xb5"},
-    {64277, "\xd5\x84\xd4\xbb"},
-    {64278, "\xd5\x8e\xd5\x86"},
-    {64279, "\xd5\x84\xd4\xbd"},
     {329, "\xca\xbc\x4e"},
+    {496, "\x4a\xcc\x8c"},
     {912, "\xce\x99\xcc\x88\xcc\x81"},
     {944, "\xce\xa5\xcc\x88\xcc\x81"},
-    {496, "\x4a\xcc\x8c"},
+    {1415, "\xd4\xb5\xd5\x92"},
     {7830, "\x48\xcc\xb1"},
     {7831, "\x54\xcc\x88"},
     {7832, "\x57\xcc\x8a"},
@@ -726,18 +714,6 @@ const SpecialCasingConversionRecord UPPER_SPECIAL_CASING[UPPER_SPECIAL_CASING_SI
     {8018, "\xce\xa5\xcc\x93\xcc\x80"},
     {8020, "\xce\xa5\xcc\x93\xcc\x81"},
     {8022, "\xce\xa5\xcc\x93\xcd\x82"},
-    {8118, "\xce\x91\xcd\x82"},
-    {8134, "\xce\x97\xcd\x82"},
-    {8146, "\xce\x99\xcc\x88\xcc\x80"},
-    {8147, "\xce\x99\xcc\x88\xcc\x81"},
-    {8150, "\xce\x99\xcd\x82"},
-    {8151, "\xce\x99\xcc\x88\xcd\x82"},
-    {8162, "\xce\xa5\xcc\x88\xcc\x80"},
-    {8163, "\xce\xa5\xcc\x88\xcc\x81"},
-    {8164, "\xce\xa1\xcc\x93"},
-    {8166, "\xce\xa5\xcd\x82"},
-    {8167, "\xce\xa5\xcc\x88\xcd\x82"},
-    {8182, "\xce\xa9\xcd\x82"},
     {8064, "\xe1\xbc\x88\xce\x99"},
     {8065, "\xe1\xbc\x89\xce\x99"},
     {8066, "\xe1\xbc\x8a\xce\x99"},
@@ -786,19 +762,43 @@ const SpecialCasingConversionRecord UPPER_SPECIAL_CASING[UPPER_SPECIAL_CASING_SI
     {8109, "\xe1\xbd\xad\xce\x99"},
     {8110, "\xe1\xbd\xae\xce\x99"},
     {8111, "\xe1\xbd\xaf\xce\x99"},
-    {8115, "\xce\x91\xce\x99"},
-    {8124, "\xce\x91\xce\x99"},
-    {8131, "\xce\x97\xce\x99"},
-    {8140, "\xce\x97\xce\x99"},
-    {8179, "\xce\xa9\xce\x99"},
-    {8188, "\xce\xa9\xce\x99"},
     {8114, "\xe1\xbe\xba\xce\x99"},
+    {8115, "\xce\x91\xce\x99"},
     {8116, "\xce\x86\xce\x99"},
+    {8118, "\xce\x91\xcd\x82"},
+    {8119, "\xce\x91\xcd\x82\xce\x99"},
+    {8124, "\xce\x91\xce\x99"},
     {8130, "\xe1\xbf\x8a\xce\x99"},
+    {8131, "\xce\x97\xce\x99"},
     {8132, "\xce\x89\xce\x99"},
+    {8134, "\xce\x97\xcd\x82"},
+    {8135, "\xce\x97\xcd\x82\xce\x99"},
+    {8140, "\xce\x97\xce\x99"},
+    {8146, "\xce\x99\xcc\x88\xcc\x80"},
+    {8147, "\xce\x99\xcc\x88\xcc\x81"},
+    {8150, "\xce\x99\xcd\x82"},
+    {8151, "\xce\x99\xcc\x88\xcd\x82"},
+    {8162, "\xce\xa5\xcc\x88\xcc\x80"},
+    {8163, "\xce\xa5\xcc\x88\xcc\x81"},
+    {8164, "\xce\xa1\xcc\x93"},
+    {8166, "\xce\xa5\xcd\x82"},
+    {8167, "\xce\xa5\xcc\x88\xcd\x82"},
     {8178, "\xe1\xbf\xba\xce\x99"},
+    {8179, "\xce\xa9\xce\x99"},
     {8180, "\xce\x8f\xce\x99"},
-    {8119, "\xce\x91\xcd\x82\xce\x99"},
-    {8135, "\xce\x97\xcd\x82\xce\x99"},
-    {8183, "\xce\xa9\xcd\x82\xce\x99"}
+    {8182, "\xce\xa9\xcd\x82"},
+    {8183, "\xce\xa9\xcd\x82\xce\x99"},
+    {8188, "\xce\xa9\xce\x99"},
+    {64256, "\x46\x46"},
+    {64257, "\x46\x49"},
+    {64258, "\x46\x4c"},
+    {64259, "\x46\x46\x49"},
+    {64260, "\x46\x46\x4c"},
+    {64261, "\x53\x54"},
+    {64262, "\x53\x54"},
+    {64275, "\xd5\x84\xd5\x86"},
+    {64276, "\xd5\x84\xd4\xb5"},
+    {64277, "\xd5\x84\xd4\xbb"},
+    {64278, "\xd5\x8e\xd5\x86"},
+    {64279, "\xd5\x84\xd4\xbd"}
 };
diff --git a/utf8case/generate_case_tables.pl b/utf8case/generate_case_tables.pl
index 6a163c1..41b1fa6 100755
--- a/utf8case/generate_case_tables.pl
+++ b/utf8case/generate_case_tables.pl
@@ -191,7 +191,8 @@ END_OF_INTRO
 
     my $string_to_prepend = '';
 
-    for my $item (@{$special_casing_table_ref}) {
+    # the look-up relies on the order
+    for my $item (sort { $a->[0] <=> $b->[0] } @{$special_casing_table_ref}) {
         my $code_point = $item->[0];
         my $replacement = $item->[1];
 
-- 
2.43.0


From a0322583f3c34428dd38c24bc1ec1eeeb1243194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:14 +0000
Subject: [PATCH 07/28] fix: edges that got new tags were listed twice or not
 found under a tag mask

---
 common/lattice.cpp | 34 +++++++++++++++++++++++++++++-----
 common/lattice.hpp |  7 +++++++
 2 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 51f6e03..70848bf 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -58,7 +58,7 @@ void Lattice::addSymbols(VertexDescriptor startVertex, VertexDescriptor endVerte
         addEdge(
             vd,
             vd + symbol.length(),
-            AnnotationItem("'" + symbol),
+            AnnotationItem("'" + symbol, StringFrag(symbol)),
             getSymbolTag());
         vd += symbol.length();
     }
@@ -210,6 +210,7 @@ Lattice::EdgeDescriptor Lattice::addEdge(
         if (edge.isExplicit()) {
             if (tags != oldTags) {
                 graph_[edge.descriptor].tagList = tags;
+                updateTagMaskIndices_(edge.descriptor, oldTags, tags);
             }
             if (score > oldScore) {
                 graph_[edge.descriptor].score = score;
@@ -217,8 +218,14 @@ Lattice::EdgeDescriptor Lattice::addEdge(
             graph_[edge.descriptor].partitions.push_back(
                 Partition(tags, sequence, score, ruleId, treeChoice));
         } else {
+            if (tags == oldTags) {
+                return edge;
+            }
+            // the implicit edge is replaced with an explicit one
             implicitOutEdges_.set(from, false);
-            edge.implicitIndex = -1;
+            std::vector<EdgeDescriptor> & edges = (insertResult.first)->second;
+            edges.erase(std::remove(edges.begin(), edges.end(), edge), edges.end());
+            --edgeCounterHash_[vpair];
             needToAddEdge = true;
         }
     }
@@ -237,9 +244,13 @@ Lattice::EdgeDescriptor Lattice::addEdge(
         if (tags == getSymbolTag()) {
             try {
                 firstOutEdge(from, symbolMask_);
-                visibleImplicitOutEdges_[from] = true;
-                EdgeDescriptor ed = firstInEdge(to, symbolMask_);
-                visibleImplicitOutEdges_[getEdgeSource(ed)] = true;
+                if (!isLooseVertex(from)) {
+                    visibleImplicitOutEdges_[from] = true;
+                }
+                VertexDescriptor source = getEdgeSource(firstInEdge(to, symbolMask_));
+                if (!isLooseVertex(source)) {
+                    visibleImplicitOutEdges_[source] = true;
+                }
             } catch (NoEdgeException) {
             }
         }
@@ -942,6 +953,19 @@ int Lattice::addTagMaskIndex_(LayerTagMask tagMask) {
     }
 }
 
+void Lattice::updateTagMaskIndices_(
+    Graph::edge_descriptor edge,
+    const LayerTagCollection & oldTags,
+    const LayerTagCollection & newTags
+) {
+    BOOST_FOREACH(const TagMasksHash::value_type & maskIndex, indexedTagMasks_) {
+        if (matches(newTags, maskIndex.first) && !matches(oldTags, maskIndex.first)) {
+            graph_[boost::source(edge, graph_)].outEdgesIndex[maskIndex.second].push_back(edge);
+            graph_[boost::target(edge, graph_)].inEdgesIndex[maskIndex.second].push_back(edge);
+        }
+    }
+}
+
 void Lattice::resizeImplicitEdgesStructures_() {
     implicitOutEdges_.resize(allText_.length()+1);
     hiddenImplicitOutEdges_.resize(allText_.length()+1);
diff --git a/common/lattice.hpp b/common/lattice.hpp
index 2f8a788..2e3588e 100644
--- a/common/lattice.hpp
+++ b/common/lattice.hpp
@@ -742,6 +742,13 @@ private:
      */
     int nLooseVertices_;
 
+    // lists an edge that has got new tags under the masks which it has begun to match
+    void updateTagMaskIndices_(
+        Graph::edge_descriptor edge,
+        const LayerTagCollection & oldTags,
+        const LayerTagCollection & newTags
+    );
+
     void resizeImplicitEdgesStructures_();
 
     VertexDescriptor priorVertex_(VertexDescriptor vertex);
-- 
2.43.0


From 1b071763e31c1932046f3d145bb4d96e78d7ea79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:14 +0000
Subject: [PATCH 08/28] fix: asking the lattice about a new tag mask broke
 running edge iterations

---
 common/lattice.cpp | 30 ------------------------------
 common/lattice.hpp |  6 ++++--
 2 files changed, 4 insertions(+), 32 deletions(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 70848bf..ea2e943 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -74,14 +74,6 @@ Lattice::VertexDescriptor Lattice::addLooseVertex() {
     ++nLooseVertices_;
     Graph::vertex_descriptor vertex = boost::add_vertex(VertexEntry(-nLooseVertices_), graph_);
     vertices_[-nLooseVertices_] = vertex;
-    for (size_t i = 0; i < indexedTagMasks_.size(); ++i) {
-        graph_[vertex].outEdgesIndex.push_back(
-            std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>()
-        );
-        graph_[vertex].inEdgesIndex.push_back(
-            std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>()
-        );
-    }
     return -nLooseVertices_;
 }
 
@@ -281,14 +273,6 @@ Lattice::EdgeDescriptor Lattice::addEdge(
         } else {
             boost_from = boost::add_vertex(VertexEntry(from), graph_);
             vertices_[from] = boost_from;
-            for (size_t i = 0; i < indexedTagMasks_.size(); ++i) {
-                graph_[boost_from].outEdgesIndex.push_back(
-                    std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>()
-                );
-                graph_[boost_from].inEdgesIndex.push_back(
-                    std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>()
-                );
-            }
         }
 
         if (iterTo != vertices_.end()) {
@@ -296,14 +280,6 @@ Lattice::EdgeDescriptor Lattice::addEdge(
         } else {
             boost_to = boost::add_vertex(VertexEntry(to), graph_);
             vertices_[to] = boost_to;
-            for (size_t i = 0; i < indexedTagMasks_.size(); ++i) {
-                graph_[boost_to].outEdgesIndex.push_back(
-                    std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>()
-                );
-                graph_[boost_to].inEdgesIndex.push_back(
-                    std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>()
-                );
-            }
         }
 
         result = boost::add_edge(
@@ -931,17 +907,11 @@ int Lattice::addTagMaskIndex_(LayerTagMask tagMask) {
     } else {
         int ix = indexedTagMasks_.size();
         BOOST_FOREACH(VerticesMap::value_type iv, vertices_) {
-            graph_[iv.second].outEdgesIndex.push_back(
-                std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>()
-            );
             BOOST_FOREACH(Graph::edge_descriptor edge, boost::out_edges(iv.second, graph_)) {
                 if (matches(graph_[edge].tagList, tagMask)) {
                     graph_[iv.second].outEdgesIndex[ix].push_back(edge);
                 }
             }
-            graph_[iv.second].inEdgesIndex.push_back(
-                std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>()
-            );
             BOOST_FOREACH(Graph::edge_descriptor edge, boost::in_edges(iv.second, graph_)) {
                 if (matches(graph_[edge].tagList, tagMask)) {
                     graph_[iv.second].inEdgesIndex[ix].push_back(edge);
diff --git a/common/lattice.hpp b/common/lattice.hpp
index 2e3588e..3903ad3 100644
--- a/common/lattice.hpp
+++ b/common/lattice.hpp
@@ -74,8 +74,10 @@ public:
          */
         int index;
 
-        std::vector< std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461> > outEdgesIndex;
-        std::vector< std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461> > inEdgesIndex;
+        // The edges for each indexed tag mask. These are maps, as a list must
+        // not be moved while it is iterated over (a new mask may be indexed then).
+        std::map< int, std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461> > outEdgesIndex;
+        std::map< int, std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461> > inEdgesIndex;
 
         VertexEntry() : index(-1) { }
         VertexEntry(int ix) : index(ix) { }
-- 
2.43.0


From 5f2788b11d4d6be74a8597c07d35b14873fa8ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:14 +0000
Subject: [PATCH 09/28] fix: lattice corrections inserted text twice or lost it
 at the end of the text

---
 common/lattice.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index ea2e943..735f9a0 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -810,12 +810,22 @@ int Lattice::getLooseVertexIndex(VertexDescriptor vd) const {
 }
 
 void Lattice::correctionInsert(VertexDescriptor here, std::string text) {
+    if (text.empty()) {
+        return;
+    }
+    bool hasNextEdge = true;
+    EdgeDescriptor nextEdge;
+    try {
+        // it has to be found before the new edges, which also start here, are added
+        nextEdge = firstOutEdge(here, symbolMask_);
+    } catch (NoEdgeException) {
+        hasNextEdge = false;
+    }
     VertexDescriptor from = here;
-    VertexDescriptor to;
     std::string::iterator iter = text.begin();
     std::string::iterator end = text.end();
     while (iter != end) {
-        to = addLooseVertex();
+        VertexDescriptor to = addLooseVertex();
         std::string symbol;
         utf8::append(utf8::next(iter, end), std::back_inserter(symbol));
         addEdge(
@@ -826,11 +836,13 @@ void Lattice::correctionInsert(VertexDescriptor here, std::string text) {
         );
         from = to;
     }
-    try {
-        EdgeDescriptor nextEdge
-            = firstOutEdge(here, symbolMask_);
-        addEdge(to, getEdgeTarget(nextEdge), getEdgeAnnotationItem(nextEdge), getSymbolTag());
-    } catch (NoEdgeException) {
+    if (hasNextEdge) {
+        addEdge(
+            from,
+            getEdgeTarget(nextEdge),
+            getEdgeAnnotationItem(nextEdge),
+            getSymbolTag()
+        );
     }
 }
 
@@ -868,7 +880,7 @@ void Lattice::correctionReplace(VertexDescriptor from, VertexDescriptor to, std:
         std::string::iterator end = text.end();
         while (iter != end) {
             if (from == to) {
-                return correctionInsert(from, text);
+                return correctionInsert(from, std::string(iter, end));
             }
             std::string symbol;
             utf8::append(utf8::next(iter, end), std::back_inserter(symbol));
-- 
2.43.0


From 5b6961b710291d8835428bcfcc7da47be7710058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:14 +0000
Subject: [PATCH 10/28] fix: an edge sequence with a gap lost the edges added
 before the gap

---
 common/lattice.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 735f9a0..e11eb25 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -1154,6 +1154,7 @@ Lattice::EdgeSequence::Builder& Lattice::EdgeSequence::Builder::addEdge(
         } else if (lattice_.getEdgeBeginIndex(edge) == end) {
             end = lattice_.getEdgeEndIndex(edge);
         } else {
+            begin = 1;
             end = 0;
         }
     } else {
-- 
2.43.0


From 1db85dbc1fc2da71e714b4a3fb2d3560251fe2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:15 +0000
Subject: [PATCH 11/28] fix: a path skipping blanks read past the last edge
 instead of taking the blank

---
 common/lattice.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/lattice.hpp b/common/lattice.hpp
index 3903ad3..35ee6c0 100644
--- a/common/lattice.hpp
+++ b/common/lattice.hpp
@@ -922,7 +922,7 @@ Lattice::EdgeSequence Lattice::getPathWithSkipping(
                 while (iter.hasNext()) {
                     EdgeDescriptor currentOne = iter.next();
                     if (skippingPredicate(*this, currentOne)) {
-                        bestOne = iter.next();
+                        bestOne = currentOne;
                     }
                 }
                 pathBuilder.addEdge(bestOne);
-- 
2.43.0


From c68bae34f6e17ae3f83439f5729487ade71ee921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 12/28] fix: HTTP request bodies lost their last byte, must not
 hold line ends and could not be empty

---
 server/server/request_parser.cpp | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/server/server/request_parser.cpp b/server/server/request_parser.cpp
index b7fc184..88c762c 100644
--- a/server/server/request_parser.cpp
+++ b/server/server/request_parser.cpp
@@ -296,6 +296,12 @@ boost::tribool request_parser::consume(request& req, char input)
                 state_ = multipart_start;
             }
             set_post_data_length(req);
+            if (post_data_length_ < 0) {
+                return false;
+            }
+            if (post_data_length_ == 0) {
+                return true;
+            }
             return boost::indeterminate;
         }
         else {
@@ -308,30 +314,12 @@ boost::tribool request_parser::consume(request& req, char input)
         return false;
     }
   case post_line_start:
-    if (input != '\n' && input != '\r') {
-
-        if (post_data_length_counter_ < post_data_length_) {
-            post_data_length_counter_++;
-            req.post_data += input;
-            return boost::indeterminate;
-        }
-        else {
-            req.post_data += input;
-            return true;
-        }
-    }
-    else {
-        return false;
-    }
   case multipart_start:
-    if (post_data_length_counter_ < post_data_length_) {
-        post_data_length_counter_++;
-        req.post_data += input;
+    req.post_data += input;
+    if (++post_data_length_counter_ < post_data_length_) {
         return boost::indeterminate;
     }
-    else {
-        return true;
-    }
+    return true;
   default:
     return false;
   }
@@ -347,7 +335,7 @@ bool request_parser::is_multipart(request& req) {
 }
 
 void request_parser::set_post_data_length(request& req) {
-    post_data_length_counter_ = 1;
+    post_data_length_counter_ = 0;
     post_data_length_ = 0;
 
     std::string val = req.get_header_value("Content-Length");
-- 
2.43.0


From e67f99825aa7a336b31327a80d98c6d907b52eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 13/28] fix: percent escapes with a sign or one hexadecimal
 digit were accepted in addresses

---
 server/server/request_handler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/server/request_handler.cpp b/server/server/request_handler.cpp
index d25e1a0..5be51d7 100644
--- a/server/server/request_handler.cpp
+++ b/server/server/request_handler.cpp
@@ -4,6 +4,7 @@
 //
 
 #include "request_handler.hpp"
+#include <cctype>
 #include <fstream>
 #include <sstream>
 #include <string>
@@ -82,7 +83,9 @@ bool request_handler::url_decode(const std::string& in, std::string& out)
   {
     if (in[i] == '%')
     {
-      if (i + 3 <= in.size())
+      if (i + 3 <= in.size()
+          && std::isxdigit(static_cast<unsigned char>(in[i + 1]))
+          && std::isxdigit(static_cast<unsigned char>(in[i + 2])))
       {
         int value = 0;
         std::istringstream is(in.substr(i + 1, 2));
-- 
2.43.0


From ad5178c2dbd00ca521d05182010569869607f1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 14/28] fix: a cookie ending in the session identifier's name
 raised an exception

---
 server/session_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/session_manager.cpp b/server/session_manager.cpp
index 684ba30..e5ddf0f 100644
--- a/server/session_manager.cpp
+++ b/server/session_manager.cpp
@@ -10,7 +10,7 @@ std::string SessionManager::SessionId(std::string cookies) {
     size_t hasId = cookies.find(cookieIdentifier);
 
     std::string id = "";
-    if (hasId != std::string::npos) {
+    if (hasId != std::string::npos && hasId + cookieIdentifier.size() < cookies.size()) {
         id = cookies.substr(hasId + cookieIdentifier.size() + 1, sessionIdLength);
     }
     return id;
-- 
2.43.0


From 78342aef139d39ca3a8fa7ce6a0057d0145ac157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 15/28] fix: decoding a form whose last field has no value did
 not end, incomplete percent escapes gave garbage

---
 server/psi_server.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/server/psi_server.cpp b/server/psi_server.cpp
index 9e7a0c7..c2030c9 100644
--- a/server/psi_server.cpp
+++ b/server/psi_server.cpp
@@ -8,6 +8,7 @@
 #include <boost/bind.hpp>
 #include <boost/lexical_cast.hpp>
 
+#include <cctype>
 #include <iostream>
 
 typedef std::multimap <std::string, std::string> psis_mmp_name_value;
@@ -182,16 +183,20 @@ void PsiServer::parseNamesAndValues(std::string uri, int q) {
     int flag_done = 0;
 
     while (!flag_done) {
-        q = uri.find("=", p);
-        name = uri.substr(p, q-p);
-        p = q + 1;
-        q = uri.find("&", p);
+        int end = uri.find("&", p);
+        if (end == -1) {
+            end = uri.length();
+            flag_done = 1;
+        }
 
-        if (q != -1) {
-            value = uri.substr(p, q-p);
+        q = uri.find("=", p);
+        if (q == -1 || q >= end) {
+            // a name without value
+            name = uri.substr(p, end - p);
+            value = "";
         } else {
-            value = uri.substr(p);
-            flag_done = 1;
+            name = uri.substr(p, q - p);
+            value = uri.substr(q + 1, end - q - 1);
         }
 
         // the browser sends blanks as +
@@ -202,7 +207,7 @@ void PsiServer::parseNamesAndValues(std::string uri, int q) {
         }
 
         addDataToCurrentSession(name, urlDecode(value));
-        p = q + 1;
+        p = end + 1;
     }
 }
 
@@ -219,7 +224,9 @@ std::string PsiServer::urlDecode(std::string & encodedString) {
 
     for (i = 0; i < encodedString.length(); i++) {
 
-        if (int(encodedString[i]) == 37) {
+        if (encodedString[i] == '%' && i + 2 < encodedString.length()
+                && isxdigit((unsigned char)encodedString[i + 1])
+                && isxdigit((unsigned char)encodedString[i + 2])) {
             sscanf(encodedString.substr(i+1, 2).c_str(), "%2x", &j);
 
             ch = static_cast<char>(j);
-- 
2.43.0


From 526463c5004fd10c1825f943eedcd9ccf3488174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 16/28] fix: text fields of uploads that arrive in pieces were
 overwritten, file types lost a letter, wrong delete

---
 server/mpfd-parser/Field.cpp  |  9 +++++----
 server/mpfd-parser/Parser.cpp | 23 +++++++++++------------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/server/mpfd-parser/Field.cpp b/server/mpfd-parser/Field.cpp
index 610ae2d..c1cd932 100644
--- a/server/mpfd-parser/Field.cpp
+++ b/server/mpfd-parser/Field.cpp
@@ -17,7 +17,7 @@ MPFD::Field::Field() {
 MPFD::Field::~Field() {
 
     if (FieldContent) {
-        delete FieldContent;
+        free(FieldContent);
     }
 
     if (type == FileType) {
@@ -50,13 +50,14 @@ int MPFD::Field::GetType() {
 void MPFD::Field::AcceptSomeData(char *data, long length) {
     if (type == TextType) {
         if (FieldContent == NULL) {
-            FieldContent = new char[length + 1];
+            FieldContent = (char*) malloc(length + 1);
         } else {
             FieldContent = (char*) realloc(FieldContent, FieldContentLength + length + 1);
         }
 
         memcpy(FieldContent + FieldContentLength, data, length);
-        FieldContent[FieldContentLength + length] = 0;
+        FieldContentLength += length;
+        FieldContent[FieldContentLength] = 0;
     } else if (type == FileType) {
         if (WhereToStoreUploadedFiles == Parser::StoreUploadedFilesInFilesystem) {
             if (TempDir.length() > 0) {
@@ -93,7 +94,7 @@ void MPFD::Field::AcceptSomeData(char *data, long length) {
             }
         } else { // If files are stored in memory
             if (FieldContent == NULL) {
-                FieldContent = new char[length];
+                FieldContent = (char*) malloc(length);
             } else {
                 FieldContent = (char*) realloc(FieldContent, FieldContentLength + length);
             }
diff --git a/server/mpfd-parser/Parser.cpp b/server/mpfd-parser/Parser.cpp
index 5941706..9ccc4a7 100644
--- a/server/mpfd-parser/Parser.cpp
+++ b/server/mpfd-parser/Parser.cpp
@@ -28,7 +28,7 @@ MPFD::Parser::~Parser() {
     }
 
     if (DataCollector) {
-        delete DataCollector;
+        free(DataCollector);
     }
 }
 
@@ -53,7 +53,7 @@ void MPFD::Parser::AcceptSomeData(const char *data, const long length) {
     if (Boundary.length() > 0) {
         // Append data to existing accumulator
         if (DataCollector == NULL) {
-            DataCollector = new char[length];
+            DataCollector = (char*) malloc(length);
             memcpy(DataCollector, data, length);
             DataCollectorLength = length;
         } else {
@@ -137,11 +137,12 @@ bool MPFD::Parser::WaitForHeadersEndAndParseThem() {
             memset(headers, 0, headers_length + 1);
             memcpy(headers, DataCollector, headers_length);
 
-            _ParseHeaders(std::string(headers));
+            std::string headers_string(headers);
+            delete[] headers;
 
-            TruncateDataCollectorFromTheBeginning(i + 4);
+            _ParseHeaders(headers_string);
 
-            //delete headers;
+            TruncateDataCollectorFromTheBeginning(i + 4);
 
             return true;
         }
@@ -197,11 +198,9 @@ void MPFD::Parser::_ParseHeaders(std::string headers) {
             // find Content-Type if exists
             unsigned long content_type_pos = headers.find("Content-Type: ");
             if (content_type_pos != std::string::npos) {
-                long content_type_end_pos = 0;
-                for (unsigned int i = content_type_pos + 14; (i < headers.length()) && (!content_type_end_pos); i++) {
-                    if ((headers[i] == ' ') || (headers[i] == 10) || (headers[i] == 13)) {
-                        content_type_end_pos = i - 1;
-                    }
+                unsigned long content_type_end_pos = headers.find_first_of(" \r\n", content_type_pos + 14);
+                if (content_type_end_pos == std::string::npos) {
+                    content_type_end_pos = headers.length();
                 }
                 std::string content_type = headers.substr(content_type_pos + 14, content_type_end_pos - (content_type_pos + 14));
                 Fields[ProcessingFieldName]->SetFileContentType(content_type);
@@ -224,12 +223,12 @@ void MPFD::Parser::TruncateDataCollectorFromTheBeginning(long n) {
 
     char *tmp = DataCollector;
 
-    DataCollector = new char[TruncatedDataCollectorLength];
+    DataCollector = (char*) malloc(TruncatedDataCollectorLength + 1);
     memcpy(DataCollector, tmp + n, TruncatedDataCollectorLength);
 
     DataCollectorLength = TruncatedDataCollectorLength;
 
-    delete tmp;
+    free(tmp);
 
 }
 
-- 
2.43.0


From ed6aafdd751d476da21e4da862ca722be774641e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:55 +0000
Subject: [PATCH 17/28] fix: the PSI writer lost or repeated text that needs
 escapes and failed on uncovered multi-byte characters

---
 formats/psi/psi_writer/psi_lattice_writer.cpp | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/formats/psi/psi_writer/psi_lattice_writer.cpp b/formats/psi/psi_writer/psi_lattice_writer.cpp
index 93fe86d..52951f0 100644
--- a/formats/psi/psi_writer/psi_lattice_writer.cpp
+++ b/formats/psi/psi_writer/psi_lattice_writer.cpp
@@ -6,6 +6,7 @@
 #include <boost/assign/list_of.hpp>
 
 #include "logging.hpp"
+#include "string_helpers.hpp"
 
 std::string PsiLatticeWriter::getFormatName() {
     return "PSI";
@@ -140,7 +141,7 @@ void PsiLatticeWriter::Worker::printEdge(
 
                 printTableRow_(outputCells);
 
-                latticeTextCovered += edgeText;
+                latticeTextCovered += lattice_.getEdgeText(rawEdge);
 
                 i = lattice_.getEdgeEndIndex(rawEdge);
 
@@ -150,7 +151,8 @@ void PsiLatticeWriter::Worker::printEdge(
 
                 std::vector<std::string> outputCells;
 
-                char uncoveredSymbol = lattice_.getAllText()[i];
+                std::string uncoveredSymbol
+                    = lattice_.getAllText().substr(i, symbolLength(lattice_.getAllText(), i));
 
                 ++ordinal;
                 std::stringstream ordinalSs;
@@ -163,9 +165,12 @@ void PsiLatticeWriter::Worker::printEdge(
                 beginningSs << i;
                 outputCells.push_back(beginningSs.str());
 
-                outputCells.push_back("01");
+                std::stringstream lengthSs;
+                lengthSs << std::right << std::setfill('0') << std::setw(2);
+                lengthSs << uncoveredSymbol.length();
+                outputCells.push_back(lengthSs.str());
 
-                outputCells.push_back(quoter.escape(std::string(1, uncoveredSymbol)));
+                outputCells.push_back(quoter.escape(uncoveredSymbol));
 
                 outputCells.push_back("∅");
 
@@ -176,7 +181,7 @@ void PsiLatticeWriter::Worker::printEdge(
                 printTableRow_(outputCells);
 
                 latticeTextCovered += uncoveredSymbol;
-                i++;
+                i += uncoveredSymbol.length();
 
             }
         }
@@ -254,12 +259,9 @@ void PsiLatticeWriter::Worker::printEdge(
     } else {
         edgeTextPrinted = edgeText;
     }
-    if (!lattice_.isLooseVertex(source) && !lattice_.isLooseVertex(target)) {
-        try {
-            latticeTextCovered +=
-                edgeTextPrinted.substr(latticeTextCovered.length()
-                    - lattice_.getVertexRawCharIndex(source));
-        } catch (std::out_of_range) { }
+    if (writeWholeText) {
+        latticeTextCovered
+            = lattice_.getAllText().substr(0, lattice_.getVertexRawCharIndex(target));
     }
     edgeTextSs << edgeTextPrinted;
     outputCells.push_back(edgeTextSs.str());
-- 
2.43.0


From 7cfe6c17fb1365946ab7bcdaf49c8000572d7934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:55 +0000
Subject: [PATCH 18/28] fix: appending text to a lattice failed when loose
 vertices follow its end

---
 common/lattice.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index e11eb25..4f87a9f 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -65,9 +65,9 @@ void Lattice::addSymbols(VertexDescriptor startVertex, VertexDescriptor endVerte
 }
 
 void Lattice::appendStringWithSymbols(const std::string & text) {
-    Lattice::VertexDescriptor joinPoint = getLastVertex();
+    Lattice::VertexDescriptor joinPoint = allText_.length();
     appendString(text);
-    addSymbols(joinPoint, getLastVertex());
+    addSymbols(joinPoint, allText_.length());
 }
 
 Lattice::VertexDescriptor Lattice::addLooseVertex() {
-- 
2.43.0


From 01cc1eee33c0aa6658921785ce650959d85e3571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:55 +0000
Subject: [PATCH 19/28] fix: the PSI reader took loose edges for text, form
 feeds for separators and lost symbols , [ and <

---
 formats/psi/psi_reader/psi_lattice_reader.cpp | 12 ++++++------
 formats/psi/psi_reader/psi_lattice_reader.hpp | 14 +++++++++++---
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/formats/psi/psi_reader/psi_lattice_reader.cpp b/formats/psi/psi_reader/psi_lattice_reader.cpp
index caeeac1..4dcd024 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.cpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.cpp
@@ -89,10 +89,10 @@ void PsiLatticeReader::Worker::doRun() {
 
             // Appending lattice.
 
-            if (!item.beginningLoose) {
+            if (!item.beginningLoose && !item.lengthLoose) {
                 try {
                     if (
-                        (int)(lattice_.getVertexRawCharIndex(lattice_.getLastVertex())) <
+                        (int)(lattice_.getAllText().length()) <
                             item.beginning
                     ) {
                         // throw FileFormatException(
@@ -103,12 +103,12 @@ void PsiLatticeReader::Worker::doRun() {
                             "Some lattice text cannot be reconstructed: " <<
                             "the placeholder will be put instead ('" <<
                             std::string(1, PLACEHOLDER) << "' at " <<
-                            (int)(lattice_.getVertexRawCharIndex(lattice_.getLastVertex())) <<
+                            (int)(lattice_.getAllText().length()) <<
                             ")."
                         );
                         lattice_.appendStringWithSymbols(std::string(
                             item.beginning
-                                - lattice_.getVertexRawCharIndex(lattice_.getLastVertex()),
+                                - lattice_.getAllText().length(),
                             PLACEHOLDER
                         ));
                     }
@@ -118,12 +118,12 @@ void PsiLatticeReader::Worker::doRun() {
                         item.annotationItem.partitions == "[]"
                     ) {
                         lattice_.appendString(form.substr(
-                            lattice_.getVertexRawCharIndex(lattice_.getLastVertex())
+                            lattice_.getAllText().length()
                                 - item.beginning
                         ));
                     } else {
                         lattice_.appendStringWithSymbols(form.substr(
-                            lattice_.getVertexRawCharIndex(lattice_.getLastVertex())
+                            lattice_.getAllText().length()
                                 - item.beginning
                         ));
                     }
diff --git a/formats/psi/psi_reader/psi_lattice_reader.hpp b/formats/psi/psi_reader/psi_lattice_reader.hpp
index 1c2a80a..ab4c904 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.hpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.hpp
@@ -39,7 +39,7 @@ struct StringSequenceGrammar : public qi::grammar<
         start
             %= +(qi::char_ - ' ') % whitespaces;
 
-        whitespaces = +(qi::space);
+        whitespaces = +(qi::lit(' ') | qi::lit('\t'));
 
     }
 
@@ -132,7 +132,7 @@ struct PsiLRGrammar : public qi::grammar<
             >> -(+(qi::char_ - ' ') >> whitespaces)
             >> annotation;
 
-        whitespaces = +(qi::space);
+        whitespaces = +(qi::lit(' ') | qi::lit('\t'));
 
         loose
             = qi::eps[qi::_val = false]
@@ -146,11 +146,18 @@ struct PsiLRGrammar : public qi::grammar<
             %= +(qi::char_ - ' ' - ',') % ',';
 
         annotation
-            %= +(qi::char_ - ' ' - ',' - '[' - '<')                         //category
+            %= category                                                     //category
             >> score                                                        //score
             >> -(',' >> +(qi::char_ - '['))                                 //av
             >> -(qi::char_("[") >> *(qi::char_ - ']') >> qi::char_("]"));   //partitions
 
+        // the character after the quote of a symbol may be any one
+        category
+            = qi::eps[qi::_val = ""]
+            >> -(qi::char_('\'') >> qi::char_(",[<"))[qi::_val += qi::_1, qi::_val += qi::_2]
+            >> *(qi::char_ - ' ' - ',' - '[' - '<')[qi::_val += qi::_1]
+            >> qi::eps(qi::_val != "");
+
         score
             = qi::eps[qi::_val = 0.0]
             >> -('<' >> qi::double_[qi::_val = qi::_1] >> '>');
@@ -163,6 +170,7 @@ struct PsiLRGrammar : public qi::grammar<
     qi::rule<std::string::const_iterator, bool()> point;
     qi::rule<std::string::const_iterator, std::vector<std::string>()> tags;
     qi::rule<std::string::const_iterator, PsiLRAnnotation()> annotation;
+    qi::rule<std::string::const_iterator, std::string()> category;
     qi::rule<std::string::const_iterator, double()> score;
 
 };
-- 
2.43.0


From 17d283c3f27bb4ad84983d965f974912749a7c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:31 +0000
Subject: [PATCH 20/28] fix: lemma codes of long words could not be decoded

---
 tools/lemmatizers/lamerlemma/utility_functions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/lemmatizers/lamerlemma/utility_functions.cpp b/tools/lemmatizers/lamerlemma/utility_functions.cpp
index a140c51..19e10ac 100644
--- a/tools/lemmatizers/lamerlemma/utility_functions.cpp
+++ b/tools/lemmatizers/lamerlemma/utility_functions.cpp
@@ -126,8 +126,8 @@ std::string KLEndEncode(std::string asRef, std::string toCode)
 
 std::string KLEndDecode(std::string asRef, std::string asCode)
 {
-    char K = asCode[0];
-    char L = asCode[1];
+    unsigned char K = asCode[0];
+    unsigned char L = asCode[1];
     std::string end = asCode.substr(2);
 
     size_t asRefLen = asRef.size();
-- 
2.43.0


From 221ec844f21faa7c8eab3befbd89d1f9081b15cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:31 +0000
Subject: [PATCH 21/28] fix: automata operations lost the empty word, mixed up
 start states and crashed on copies and empty automata, perfect hashing did
 not work

---
 .../psi_query/fsa_algorithms.hpp              | 34 ++++++++++++++-----
 .../datastructures/psi_query/fsa_bindfsa.hpp  |  9 ++---
 tools/datastructures/psi_query/fsa_dfsa.hpp   |  2 +-
 .../datastructures/psi_query/fsa_hash_fsa.hpp | 12 ++++---
 tools/datastructures/psi_query/fsa_ndfsa.hpp  |  8 +++++
 .../psi_query/fsa_ndfsa_impl.hpp              | 17 ++++++----
 6 files changed, 58 insertions(+), 24 deletions(-)

diff --git a/tools/datastructures/psi_query/fsa_algorithms.hpp b/tools/datastructures/psi_query/fsa_algorithms.hpp
index 2f4b0cb..4117783 100644
--- a/tools/datastructures/psi_query/fsa_algorithms.hpp
+++ b/tools/datastructures/psi_query/fsa_algorithms.hpp
@@ -228,14 +228,14 @@ class Intersector {
     std::set<state_type> startFn() const {
         std::set<state_type> starts;
         BOOST_FOREACH( typename FSA1::state_type p1, m_fsa1.getStartStates() )
-            BOOST_FOREACH( typename FSA2::state_type p2, m_fsa1.getStartStates() )
+            BOOST_FOREACH( typename FSA2::state_type p2, m_fsa2.getStartStates() )
                 starts.insert(state_type(p1, p2));
 
         return starts;
     }
 
     bool finalFn(state_type p) const {
-        return (m_fsa1.isEndState(p.first) && m_fsa2.isEndState(p.second));
+        return hasEndState_(m_fsa1, p.first) && hasEndState_(m_fsa2, p.second);
     }
 
     std::set<arc_type, ArcSorter> arcFn(state_type p) const {
@@ -250,6 +250,9 @@ class Intersector {
                     ait1 != arcRange1.second; ait1++) {
                     for (typename FSA2::arc_iterator_type ait2 = arcRange2.first;
                         ait2 != arcRange2.second; ait2++) {
+                        if (ait1->getSymbol() == EPS || ait2->getSymbol() == EPS)
+                            continue; // already followed by the closures
+
                         if (ait1->getSymbol() == ait2->getSymbol()) {
                            arcs.insert(
                                arc_type(
@@ -285,6 +288,14 @@ class Intersector {
     }
 
   private:
+    template <typename FSA>
+    static bool hasEndState_(const FSA &fsa, typename FSA::state_type p) {
+        BOOST_FOREACH(typename FSA::state_type q, fsa.epsClosure(p))
+            if (fsa.isEndState(q))
+                return true;
+        return false;
+    }
+
     const FSA1 &m_fsa1;
     const FSA2 &m_fsa2;
     bool m_allowAny;
@@ -541,21 +552,24 @@ template <typename FSA1, typename FSA2>
 void concatenate(FSA1 &dst, FSA2 &src) {
     std::set<typename FSA1::state_type> first_start  = dst.getStartStates();
     std::set<typename FSA1::state_type> first_end    = dst.getEndStates();
+    bool first_is_void = (dst.size() == 0);
 
     Copier<FSA2> copier(src);
     traverse(copier, dst);
 
     std::set<typename FSA1::state_type> second_start = dst.getStartStates();
 
-    BOOST_FOREACH(typename FSA1::state_type p, first_end) {
-        BOOST_FOREACH(typename FSA1::state_type q, second_start) {
-            if (!first_start.count(q)) {
+    BOOST_FOREACH(typename FSA1::state_type q, second_start) {
+        if (!first_start.count(q)) {
+            BOOST_FOREACH(typename FSA1::state_type p, first_end)
                 dst.addArc(p, typename FSA1::arc_type(EPS, q));
+            if (!first_is_void)
                 dst.unsetStartState(q);
-            }
         }
-        dst.unsetEndState(p);
     }
+
+    BOOST_FOREACH(typename FSA1::state_type p, first_end)
+        dst.unsetEndState(p);
 }
 
 /*******************************************************************************
@@ -580,6 +594,8 @@ void kleene_option(FSA &fsa) {
     typename FSA::state_type ne = fsa.addState();
     fsa.setEndState(ne);
 
+    fsa.addArc(ns, typename FSA::arc_type(EPS, ne));
+
     BOOST_FOREACH(typename FSA::state_type p, start) {
         fsa.unsetStartState(p);
         fsa.addArc(ns, typename FSA::arc_type(EPS, p));
@@ -686,7 +702,9 @@ void minimize_incremental(DFSA &dst, Iterator current, Iterator end) {
         if (count % 1000000 == 0)
             INFO("[" << count << "]");
     }
-    replace_or_register(fsa, state_register, q0);
+    ArcRange<ArcIt> range = fsa.getArcs(q0);
+    if (range.first != range.second)
+        replace_or_register(fsa, state_register, q0);
     dst.swap(fsa);
 
     INFO("Done");
diff --git a/tools/datastructures/psi_query/fsa_bindfsa.hpp b/tools/datastructures/psi_query/fsa_bindfsa.hpp
index f263ac7..60530d9 100644
--- a/tools/datastructures/psi_query/fsa_bindfsa.hpp
+++ b/tools/datastructures/psi_query/fsa_bindfsa.hpp
@@ -46,7 +46,7 @@ class BinDFSA {
     BinDFSA(std::string);
 
     boost::optional<state_type> delta(state_type p, symbol_type a) const {
-       if (m_states.size() < p)
+       if (m_states.size() <= p)
            return boost::optional<state_type>();
 
        arc_iterator_type arc = find(p, a);
@@ -219,7 +219,8 @@ PosT BinDFSA<ArcT, PosT, Allocator>::unsetLastBit(PosT pos) const {
 
 template <typename ArcT, typename PosT, template <typename> class Allocator>
 bool BinDFSA<ArcT, PosT, Allocator>::isEndState(size_t state) const {
-    return (m_states[state] & (PosT(1) << (sizeof(PosT)*8-1)));
+    return state < m_states.size()
+        && (m_states[state] & (PosT(1) << (sizeof(PosT)*8-1)));
 }
 
 template <typename ArcT, typename PosT, template <typename> class Allocator>
@@ -236,7 +237,7 @@ const std::set<size_t> BinDFSA<ArcT, PosT, Allocator>::getEndStates() const {
 template <typename ArcT, typename PosT, template <typename> class Allocator>
 const ArcRange<typename BinDFSA<ArcT, PosT, Allocator>::arc_iterator_type>
 BinDFSA<ArcT, PosT, Allocator>::getArcs(size_t p) const {
-    if (p < m_states.size()-1) {
+    if (p + 1 < m_states.size()) {
         PosT pos1 = unsetLastBit(m_states[p]);
         PosT pos2 = unsetLastBit(m_states[p+1]);
 
@@ -251,7 +252,7 @@ BinDFSA<ArcT, PosT, Allocator>::getArcs(size_t p) const {
             ait2
         );
     }
-    else if (p == m_states.size()-1) {
+    else if (p + 1 == m_states.size()) {
         PosT pos = unsetLastBit(m_states[p]);
         arc_iterator_type ait = m_arcs.begin();
         ait += pos;
diff --git a/tools/datastructures/psi_query/fsa_dfsa.hpp b/tools/datastructures/psi_query/fsa_dfsa.hpp
index 5c914ba..e86b014 100644
--- a/tools/datastructures/psi_query/fsa_dfsa.hpp
+++ b/tools/datastructures/psi_query/fsa_dfsa.hpp
@@ -65,7 +65,7 @@ state_type delta(state_type p, symbol_type a) const;
 
 *******************************************************************************/
     boost::optional<state_type> delta(state_type p, symbol_type a) const {
-        if (NDFSA<ArcT>::m_states.size() < (size_t)p)
+        if (NDFSA<ArcT>::m_states.size() <= (size_t)p)
             return boost::optional<state_type>();
 
         //std::cerr << "Looking for: " << p << " " << (int)a << std::endl;
diff --git a/tools/datastructures/psi_query/fsa_hash_fsa.hpp b/tools/datastructures/psi_query/fsa_hash_fsa.hpp
index a048559..621b033 100644
--- a/tools/datastructures/psi_query/fsa_hash_fsa.hpp
+++ b/tools/datastructures/psi_query/fsa_hash_fsa.hpp
@@ -225,14 +225,15 @@ typename HashFSA<FSA>::ArcIt HashFSA<FSA>::find(typename FSA::state_type p,
 
   ArcRange<ArcIt> r = m_fsa.getArcs(p);
 
-  typename FSA::arc_type test(a, -1);
-  return std::lower_bound(r.first, r.second, test, ArcSorter());
+  typename FSA::arc_type test(a, 0);
+  ArcIt result = std::lower_bound(r.first, r.second, test, ArcSorter());
+  return (result != r.second && result->getSymbol() == a) ? result : r.second;
 }
 
 template <class FSA>
 typename HashFSA<FSA>::ArcIt HashFSA<FSA>::find_num(typename FSA::state_type p, size_t count) {
   ArcRange<ArcIt> r = m_fsa.getArcs(p);
-  size_t dist = std::distance(r.second, r.first);
+  size_t dist = std::distance(r.first, r.second);
 
   ArcIt arcIt;
   if (dist > 10)
@@ -315,8 +316,8 @@ void HashFSA<FSA>::print() {
 template <class FSA>
 template <typename InputIterator>
 size_t HashFSA<FSA>::hash(InputIterator begin, InputIterator end) {
-  int index = 0;
   typename FSA::state_type current_state = 0;
+  size_t index = m_fsa.isEndState(current_state) ? 1 : 0;
 
   while (begin != end) {
     ArcRange<ArcIt> r = m_fsa.getArcs(current_state);
@@ -352,6 +353,9 @@ void HashFSA<FSA>::unhash(size_t index, OutputIterator out) {
   typename FSA::state_type current_state = 0;
 
   index++;
+  if (m_fsa.isEndState(current_state))
+    index--;
+
   while (index > 0) {
     ArcRange<ArcIt> r = m_fsa.getArcs(current_state);
     ArcIt arcIt = find_num(current_state, index);
diff --git a/tools/datastructures/psi_query/fsa_ndfsa.hpp b/tools/datastructures/psi_query/fsa_ndfsa.hpp
index d04bd57..2e49d75 100644
--- a/tools/datastructures/psi_query/fsa_ndfsa.hpp
+++ b/tools/datastructures/psi_query/fsa_ndfsa.hpp
@@ -91,6 +91,14 @@ Example:
 *******************************************************************************/
     NDFSA(std::string);
 
+/*******************************************************************************
+## Copy constructor
+
+  NDFSA(const NDFSA&);
+
+*******************************************************************************/
+    NDFSA(const NDFSA<arc_type> &);
+
 /*******************************************************************************
 ## Destructor
 
diff --git a/tools/datastructures/psi_query/fsa_ndfsa_impl.hpp b/tools/datastructures/psi_query/fsa_ndfsa_impl.hpp
index 8a9f86f..be742b0 100644
--- a/tools/datastructures/psi_query/fsa_ndfsa_impl.hpp
+++ b/tools/datastructures/psi_query/fsa_ndfsa_impl.hpp
@@ -45,6 +45,13 @@ NDFSA<ArcT>::NDFSA(std::string input) {
     setEndState(q);
 }
 
+template <typename ArcT>
+NDFSA<ArcT>::NDFSA(const NDFSA<ArcT> &a)
+  : m_startStates(a.m_startStates), m_endStates(a.m_endStates) {
+    BOOST_FOREACH( Arcs* arcs, a.m_states )
+        m_states.push_back(new Arcs(*arcs));
+}
+
 template <typename ArcT>
 NDFSA<ArcT>::~NDFSA() {
     BOOST_FOREACH( Arcs* arcs, m_states )
@@ -55,7 +62,7 @@ template <typename ArcT>
 inline std::set<typename ArcT::state_type> NDFSA<ArcT>
     ::deltaPrime(typename ArcT::state_type p, typename ArcT::symbol_type a) const {
 
-    if (m_states.size() < (size_t)p)
+    if (m_states.size() <= (size_t)p)
         return std::set<state_type>();
 
     std::set<state_type> destinations;
@@ -239,12 +246,8 @@ std::set<typename ArcT::state_type> NDFSA<ArcT>::epsClosure(typename ArcT::state
 
 template <typename ArcT>
 NDFSA<ArcT>& NDFSA<ArcT>::operator=(const NDFSA<ArcT> &a) {
-    BOOST_FOREACH(Arcs* arcs, a.m_states)
-        m_states.push_back(new Arcs(*arcs));
-
-    m_endStates = a.m_endStates;
-    m_startStates = a.m_startStates;
-
+    NDFSA<ArcT> copy(a);
+    swap(copy);
     return *this;
 }
 
-- 
2.43.0


From 4365a99568bae7b11feec160a87ecf6a40eab666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:26 +0000
Subject: [PATCH 22/28] fix: the chart parser did not join phrases over more
 than one blank

---
 tools/parsers/gobio/chart/chart.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/parsers/gobio/chart/chart.tpl b/tools/parsers/gobio/chart/chart.tpl
index 4d610ac..68109ff 100644
--- a/tools/parsers/gobio/chart/chart.tpl
+++ b/tools/parsers/gobio/chart/chart.tpl
@@ -302,7 +302,7 @@ typename chart<C,S,V,R,I>::vertex_descriptor chart<C,S,V,R,I>::edge_target(
         while (oei.hasNext()) {
             Lattice::EdgeDescriptor edge = oei.next();
             if (lattice_.isBlank(edge)) {
-                return edge_target(edge);
+                return edge_target(edge, true);
             }
         }
     }
-- 
2.43.0


From 315103071bf05946acbcd1e0308e6486e501a1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:26 +0000
Subject: [PATCH 23/28] fix: the JSON writer did not escape control characters

---
 .../json_lattice_writer_output.cpp            | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/formats/json-simple/json_lattice_writer_output.cpp b/formats/json-simple/json_lattice_writer_output.cpp
index 2a16926..e4920ca 100644
--- a/formats/json-simple/json_lattice_writer_output.cpp
+++ b/formats/json-simple/json_lattice_writer_output.cpp
@@ -185,11 +185,27 @@ void JSONLatticeWriterOutput::printCurrentArrayToString_(std::string & output) {
 
 void JSONLatticeWriterOutput::createEscapedJSONString_(
                 const std::string & content, std::string & output) {
-    output = content;
-    boost::replace_all(output, "\\", "\\\\");
-    boost::replace_all(output, "\"", "\\\"");
+    std::stringstream escaped;
+
+    BOOST_FOREACH(char c, content) {
+        switch (c) {
+        case '\\' : escaped << "\\\\"; break;
+        case '"' : escaped << "\\\""; break;
+        case '\n' : escaped << "\\n"; break;
+        case '\r' : escaped << "\\r"; break;
+        case '\t' : escaped << "\\t"; break;
+        default:
+            if ((unsigned char)c < 0x20) {
+                // other control characters are not allowed in JSON strings
+                const char * hexDigits = "0123456789abcdef";
+                escaped << "\\u00" << hexDigits[c >> 4] << hexDigits[c & 0xf];
+            } else {
+                escaped << c;
+            }
+        }
+    }
 
-    output = "\"" + output + "\"";
+    output = "\"" + escaped.str() + "\"";
 }
 
 
-- 
2.43.0


From 43d474e561e690fde08c552ea762cb91028f813c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:26 +0000
Subject: [PATCH 24/28] fix: the joiner missed edges with further parents and
 failed when a joined edge adds nothing

---
 tools/converters/joiner/joiner.cpp | 58 +++++++++++++++++++++++-------
 tools/converters/joiner/joiner.hpp |  2 ++
 2 files changed, 47 insertions(+), 13 deletions(-)

diff --git a/tools/converters/joiner/joiner.cpp b/tools/converters/joiner/joiner.cpp
index a721b6d..94d4611 100644
--- a/tools/converters/joiner/joiner.cpp
+++ b/tools/converters/joiner/joiner.cpp
@@ -181,14 +181,11 @@ void Joiner::Worker::doRun() {
     while (leftIter.hasNext()) {
         Lattice::EdgeDescriptor edge = leftIter.next();
 
-        boost::optional<Lattice::EdgeDescriptor> parent = lattice_.getParent(edge);
+        std::vector<Lattice::EdgeDescriptor> rightEdges = getSiblings_(edge, rightMask);
 
         bool foundRightEdge = false;
 
-        if (parent) {
-            std::vector<Lattice::EdgeDescriptor> rightEdges =
-                lattice_.getChildren(*parent, rightMask);
-
+        if (!rightEdges.empty()) {
             BOOST_FOREACH(Lattice::EdgeDescriptor rightEdge, rightEdges) {
                 foundRightEdge = true;
 
@@ -224,12 +221,27 @@ void Joiner::Worker::doRun() {
                 Lattice::VertexDescriptor fromVertex = lattice_.getEdgeSource(edge);
                 Lattice::VertexDescriptor toVertex = lattice_.getEdgeTarget(edge);
 
-                lattice_.addEdge(
-                    fromVertex,
-                    toVertex,
-                    annotationItem,
-                    providedTags,
-                    builder.build());
+                try {
+                    lattice_.addEdge(
+                        fromVertex,
+                        toVertex,
+                        annotationItem,
+                        providedTags,
+                        builder.build());
+                } catch (EdgeSelfReferenceException) {
+                    // the generated edge is one of the joined edges itself
+                    LayerTagCollection plane = providedTagsPlane;
+                    if (plane.isEmpty())
+                        plane = createUnion(
+                            tagManager.onlyPlaneTags(lattice_.getEdgeLayerTags(edge)),
+                            tagManager.onlyPlaneTags(lattice_.getEdgeLayerTags(rightEdge)));
+
+                    lattice_.addEdge(
+                        fromVertex,
+                        toVertex,
+                        annotationItem,
+                        createUnion(providedTags, plane));
+                }
             }
         }
 
@@ -239,8 +251,8 @@ void Joiner::Worker::doRun() {
                 lattice_.getEdgeLayerTags(edge));
 
             // if this is the same plane, we have to avoid circular
-            // references
-            if (providedTagsPlane == edgePlane)
+            // references (plane tags are inherited when none are given)
+            if (providedTagsPlane.isEmpty() || providedTagsPlane == edgePlane)
                 lattice_.addPartitionToEdge(
                     edge,
                     providedTags);
@@ -262,6 +274,26 @@ void Joiner::Worker::doRun() {
     }
 }
 
+std::vector<Lattice::EdgeDescriptor> Joiner::Worker::getSiblings_(
+    Lattice::EdgeDescriptor edge, const LayerTagMask& mask) {
+
+    std::vector<Lattice::EdgeDescriptor> siblings;
+
+    BOOST_FOREACH(Lattice::Partition partition, lattice_.getEdgePartitions(edge)) {
+        Lattice::Partition::Iterator parentIter(lattice_, partition);
+
+        while (parentIter.hasNext()) {
+            BOOST_FOREACH(Lattice::EdgeDescriptor sibling,
+                          lattice_.getChildren(parentIter.next(), mask)) {
+                if (std::find(siblings.begin(), siblings.end(), sibling) == siblings.end())
+                    siblings.push_back(sibling);
+            }
+        }
+    }
+
+    return siblings;
+}
+
 std::string Joiner::doInfo() {
     return "joiner";
 }
diff --git a/tools/converters/joiner/joiner.hpp b/tools/converters/joiner/joiner.hpp
index ef28942..879ed95 100644
--- a/tools/converters/joiner/joiner.hpp
+++ b/tools/converters/joiner/joiner.hpp
@@ -55,6 +55,8 @@ private:
         Worker(Joiner& processor, Lattice& lattice);
     private:
         virtual void doRun();
+        std::vector<Lattice::EdgeDescriptor> getSiblings_(
+            Lattice::EdgeDescriptor edge, const LayerTagMask& mask);
         Joiner& processor_;
     };
 
-- 
2.43.0


From 2e72a3f5763036026ca7d67a2b84b1425c73fb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:26 +0000
Subject: [PATCH 25/28] fix: the tagset converter applied rules again to what
 they had made, left out commands and stopped at blank lines

---
 tools/converters/unumsunt/unumsunt.cpp      | 35 ++++++++++---
 tools/converters/unumsunt/unumsunt_rule.cpp | 57 ++++++++++++---------
 2 files changed, 61 insertions(+), 31 deletions(-)

diff --git a/tools/converters/unumsunt/unumsunt.cpp b/tools/converters/unumsunt/unumsunt.cpp
index d8ca213..01bc50e 100644
--- a/tools/converters/unumsunt/unumsunt.cpp
+++ b/tools/converters/unumsunt/unumsunt.cpp
@@ -117,7 +117,7 @@ Unumsunt::Unumsunt(
         std::getline(rulesFs, line);
         boost::algorithm::trim(line);
         if (line.empty()) {
-            break;
+            continue;
         }
         switch (line.at(0)) {
             case '#': {
@@ -219,6 +219,27 @@ Unumsunt::Unumsunt(
 }
 
 
+static Lattice::EdgeDescriptor addConvertedEdge(
+    Lattice & lattice,
+    Lattice::EdgeDescriptor edge,
+    const AnnotationItem & item,
+    LayerTagCollection tags,
+    Lattice::EdgeSequence sequence
+) {
+    try {
+        return lattice.addEdge(
+            lattice.getEdgeSource(edge), lattice.getEdgeTarget(edge), item, tags, sequence);
+    } catch (EdgeSelfReferenceException) {
+        // the converted edge is the one it was made from
+        if (lattice.getLayerTagManager().onlyPlaneTags(tags).isEmpty()) {
+            tags = createUnion(tags, sequence.gatherPlaneTags(lattice));
+        }
+        return lattice.addEdge(
+            lattice.getEdgeSource(edge), lattice.getEdgeTarget(edge), item, tags);
+    }
+}
+
+
 void Unumsunt::convertTags(Lattice & lattice) {
 
     std::map<Lattice::EdgeDescriptor, Lattice::EdgeDescriptor> replacements;
@@ -306,9 +327,9 @@ void Unumsunt::convertTags(Lattice & lattice) {
             if (items.size() == 1 && items.front()) {
                 replacements.insert(std::pair<Lattice::EdgeDescriptor, Lattice::EdgeDescriptor>(
                     edge,
-                    lattice.addEdge(
-                        lattice.getEdgeSource(edge),
-                        lattice.getEdgeTarget(edge),
+                    addConvertedEdge(
+                        lattice,
+                        edge,
                         *(items.front()),
                         targetTags,
                         builder.build()
@@ -319,9 +340,9 @@ void Unumsunt::convertTags(Lattice & lattice) {
                     if (!pitem) {
                         continue;
                     }
-                    lattice.addEdge(
-                        lattice.getEdgeSource(edge),
-                        lattice.getEdgeTarget(edge),
+                    addConvertedEdge(
+                        lattice,
+                        edge,
                         *pitem,
                         targetTags,
                         builder.build()
diff --git a/tools/converters/unumsunt/unumsunt_rule.cpp b/tools/converters/unumsunt/unumsunt_rule.cpp
index 1639082..e1fd40d 100644
--- a/tools/converters/unumsunt/unumsunt_rule.cpp
+++ b/tools/converters/unumsunt/unumsunt_rule.cpp
@@ -98,7 +98,9 @@ bool UnumsuntRule::apply(
     std::vector< boost::shared_ptr<AnnotationItem> > & items
 ) {
     bool result = false;
-    for (size_t i = 0; i < items.size(); ++i) {
+    // the rule is not applied to the items it has bred itself
+    const size_t numberOfItems = items.size();
+    for (size_t i = 0; i < numberOfItems; ++i) {
         boost::shared_ptr<AnnotationItem> item = items[i];
         if (!item) {
             continue;
@@ -127,38 +129,45 @@ bool UnumsuntRule::apply(
             items[i].reset();
             result = true;
         }
+        // the item and everything bred from it
+        std::vector< boost::shared_ptr<AnnotationItem> > variants(1, item);
         BOOST_FOREACH(StringPair command, commands) {
             std::vector<std::string> alternativeValues;
             boost::split(
                 alternativeValues,
                 command.second,
                 boost::is_any_of(ALTERNATIVE_SEPARATORS));
-            for (size_t i = 0; i < alternativeValues.size(); ++i) {
-                boost::shared_ptr<AnnotationItem> itemCopy;
-                if (i == 0) {
-                    itemCopy = item;
-                } else {
-                    items.push_back(boost::shared_ptr<AnnotationItem>(
-                        new AnnotationItem(*item)));
-                    itemCopy = items.back();
-                }
-                if (command.first == CATEGORY_MARKER) {
-                    if (command.second[0] == REFERENCE_MARKER) {
-                        manager.setCategory(*itemCopy,
-                            manager.getValueAsString(*itemCopy, alternativeValues[i].substr(1)));
+            size_t numberOfVariants = variants.size();
+            for (size_t j = 0; j < numberOfVariants; ++j) {
+                AnnotationItem original(*variants[j]);
+                for (size_t k = 0; k < alternativeValues.size(); ++k) {
+                    boost::shared_ptr<AnnotationItem> itemCopy;
+                    if (k == 0) {
+                        itemCopy = variants[j];
                     } else {
-                        manager.setCategory(*itemCopy, alternativeValues[i]);
+                        items.push_back(boost::shared_ptr<AnnotationItem>(
+                            new AnnotationItem(original)));
+                        itemCopy = items.back();
+                        variants.push_back(itemCopy);
                     }
-                } else {
-                    if (alternativeValues[i][0] == REFERENCE_MARKER) {
-                        manager.setValue(*itemCopy, command.first,
-                            manager.getValue(*itemCopy, alternativeValues[i].substr(1)));
-                    } else if (alternativeValues[i] == ANY_DESIGNATION) {
-                        manager.setValue(*itemCopy, command.first, manager.any_value());
-                    } else if (alternativeValues[i] == FALSE_DESIGNATION) {
-                        manager.setValue(*itemCopy, command.first, manager.false_value());
+                    if (command.first == CATEGORY_MARKER) {
+                        if (alternativeValues[k][0] == REFERENCE_MARKER) {
+                            manager.setCategory(*itemCopy,
+                                manager.getValueAsString(original, alternativeValues[k].substr(1)));
+                        } else {
+                            manager.setCategory(*itemCopy, alternativeValues[k]);
+                        }
                     } else {
-                        manager.setValue(*itemCopy, command.first, alternativeValues[i]);
+                        if (alternativeValues[k][0] == REFERENCE_MARKER) {
+                            manager.setValue(*itemCopy, command.first,
+                                manager.getValue(original, alternativeValues[k].substr(1)));
+                        } else if (alternativeValues[k] == ANY_DESIGNATION) {
+                            manager.setValue(*itemCopy, command.first, manager.any_value());
+                        } else if (alternativeValues[k] == FALSE_DESIGNATION) {
+                            manager.setValue(*itemCopy, command.first, manager.false_value());
+                        } else {
+                            manager.setValue(*itemCopy, command.first, alternativeValues[k]);
+                        }
                     }
                 }
             }
-- 
2.43.0


From 8f289febeb8711b13942454b215f985e415a5b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:42 +0000
Subject: [PATCH 26/28] fix: bracketing writer: joins respect empty active
 elements, loose edges are skipped, an unclosed join does not hang

---
 .../bracketing-writer/bracket_printer.hpp     | 58 +++++++++++--------
 .../bracketing_lattice_writer.hpp             |  6 ++
 2 files changed, 40 insertions(+), 24 deletions(-)

diff --git a/formats/bracketing/bracketing-writer/bracket_printer.hpp b/formats/bracketing/bracketing-writer/bracket_printer.hpp
index 8389f05..852faba 100644
--- a/formats/bracketing/bracketing-writer/bracket_printer.hpp
+++ b/formats/bracketing/bracketing-writer/bracket_printer.hpp
@@ -91,7 +91,14 @@ OutputContainer BracketPrinter::print_(InputContainer edgeDataContainer) {
     OutputContainer result;
     BOOST_FOREACH(EdgeData edgeData, edgeDataContainer) {
         EdgePrintData resultElement(edgeData);
-        EdgeData thisEdgeData;
+        // active elements
+        bool tagsActive = false;
+        bool categoryActive = false;
+        bool textActive = false;
+        bool scoreActive = false;
+        bool roleActive = false;
+        bool allAttributesActive = false;
+        std::set<std::string> activeAttributes;
         InputContainer edgeDataSubcontainer;
         std::string separator;
         std::string subpattern;
@@ -111,21 +118,21 @@ OutputContainer BracketPrinter::print_(InputContainer edgeDataContainer) {
                                 tagSs << tag;
                             }
                             resSs << tagSs.str();
-                            thisEdgeData.tags = edgeData.tags;
+                            tagsActive = true;
                             i += 2;
                         }
                         break;
                     case 'c':
                         {
                             resSs << edgeData.category;
-                            thisEdgeData.category = edgeData.category;
+                            categoryActive = true;
                             i += 2;
                         }
                         break;
                     case 't':
                         {
                             resSs << edgeData.text;
-                            thisEdgeData.text = edgeData.text;
+                            textActive = true;
                             i += 2;
                         }
                         break;
@@ -137,7 +144,7 @@ OutputContainer BracketPrinter::print_(InputContainer edgeDataContainer) {
                                 if (to != std::string::npos) {
                                     std::string attr = pattern.substr(from, to-from);
                                     resSs << edgeData.avMap[attr];
-                                    thisEdgeData.avMap[attr] = edgeData.avMap[attr];
+                                    activeAttributes.insert(attr);
                                     i = to + 1;
                                 } else {
                                     resSs << "%a";
@@ -160,14 +167,14 @@ OutputContainer BracketPrinter::print_(InputContainer edgeDataContainer) {
                                 avSs << avPair.first << avSeparator_ << avPair.second;
                             }
                             resSs << avSs.str();
-                            thisEdgeData.avMap = edgeData.avMap;
+                            allAttributesActive = true;
                             i += 2;
                         }
                         break;
                     case 's':
                         {
                             resSs << edgeData.score;
-                            thisEdgeData.score = edgeData.score;
+                            scoreActive = true;
                             i += 2;
                         }
                         break;
@@ -176,7 +183,7 @@ OutputContainer BracketPrinter::print_(InputContainer edgeDataContainer) {
                             if (i+2 < pattern.length()) {
                                 size_t from = i+3;
                                 size_t to = pattern.find(close_(pattern[i+2]), from);
-                                if (pattern[to+1] == pattern[i+2]) {
+                                if (to != std::string::npos && pattern[to+1] == pattern[i+2]) {
                                     size_t from2 = to+2;
                                     size_t to2 = pattern.find(close_(pattern[i+2]), from2);
                                     if (to2 != std::string::npos) {
@@ -201,7 +208,7 @@ OutputContainer BracketPrinter::print_(InputContainer edgeDataContainer) {
                     case 'r':
                         {
                             resSs << edgeData.role;
-                            thisEdgeData.role = edgeData.role;
+                            roleActive = true;
                             i += 2;
                         }
                         break;
@@ -221,31 +228,34 @@ OutputContainer BracketPrinter::print_(InputContainer edgeDataContainer) {
         }
         if (!subpattern.empty()) {
             BOOST_FOREACH(EdgeData edgeData2, edgeDataContainer) {
-                if (!thisEdgeData.category.empty() && edgeData2.category != thisEdgeData.category) {
+                if (categoryActive && edgeData2.category != edgeData.category) {
                     continue;
                 }
-                if (!thisEdgeData.text.empty() && edgeData2.text != thisEdgeData.text) {
+                if (textActive && edgeData2.text != edgeData.text) {
                     continue;
                 }
-                if (!thisEdgeData.tags.empty() && edgeData2.tags != thisEdgeData.tags) {
+                if (tagsActive && edgeData2.tags != edgeData.tags) {
                     continue;
                 }
-                if (thisEdgeData.score != 0.0 && edgeData2.score != thisEdgeData.score) {
+                if (scoreActive && edgeData2.score != edgeData.score) {
                     continue;
                 }
-                if (!thisEdgeData.avMap.empty()) {
-                    bool shallWeContinue = false;
-                    typedef std::pair<std::string, std::string> StrStrPair;
-                    BOOST_FOREACH(StrStrPair avPair, thisEdgeData.avMap) {
-                        if (edgeData2.avMap[avPair.first] != thisEdgeData.avMap[avPair.first]) {
-                            shallWeContinue = true;
-                            break;
-                        }
-                    }
-                    if (shallWeContinue) {
-                        continue;
+                if (roleActive && edgeData2.role != edgeData.role) {
+                    continue;
+                }
+                if (allAttributesActive && edgeData2.avMap != edgeData.avMap) {
+                    continue;
+                }
+                bool shallWeContinue = false;
+                BOOST_FOREACH(std::string attr, activeAttributes) {
+                    if (edgeData2.avMap[attr] != edgeData.avMap[attr]) {
+                        shallWeContinue = true;
+                        break;
                     }
                 }
+                if (shallWeContinue) {
+                    continue;
+                }
                 insertElementIntoContainer<EdgeData>(edgeDataSubcontainer, edgeData2);
             }
             std::vector<std::string> subpatterns
diff --git a/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp b/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
index 7c4eb3b..98041b3 100644
--- a/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
+++ b/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
@@ -181,6 +181,9 @@ void BracketingLatticeWriter::Worker::doRun_() {
         }
 
         BOOST_FOREACH(EdgeData ed, collectedEdges) {
+            if (!ed.begin || !ed.end) {
+                continue; // an edge on loose vertices covers no text
+            }
             BracketPrinter::insertElementIntoContainer(edgeStore[*ed.begin][*ed.end], ed);
         }
 
@@ -194,6 +197,9 @@ void BracketingLatticeWriter::Worker::doRun_() {
                 continue;
             }
             EdgeData edgeData = getEdgeData_(edge);
+            if (!edgeData.begin || !edgeData.end) {
+                continue; // an edge on loose vertices covers no text
+            }
             BracketPrinter::insertElementIntoContainer(
                 edgeStore[*edgeData.begin][*edgeData.end],
                 edgeData);
-- 
2.43.0


From b9ad8d1a3baf43abf41a3deaab880cbb4f8e90c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:42 +0000
Subject: [PATCH 27/28] fix: unknown and repeated attributes with alternatives
 no longer take all forms of a Morfologik tag away

---
 common/morfologik_tags_parser.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/common/morfologik_tags_parser.cpp b/common/morfologik_tags_parser.cpp
index 487b76b..f88a2de 100644
--- a/common/morfologik_tags_parser.cpp
+++ b/common/morfologik_tags_parser.cpp
@@ -233,11 +233,16 @@ std::map<std::string, std::string> MorfologikTagsParser::parseSimple(std::string
     boost::split(attributes, tag, boost::is_any_of(OUTER_SEPARATOR));
 
     for (unsigned int i = 0; i < attributes.size(); ++i) {
-        foundAttribute = PREDEFINED_TAGS.find(getAttributeToSeek_(attributes[i], counter));
+        int complexity = 0;
+        foundAttribute = PREDEFINED_TAGS.find(getAttributeToSeek_(attributes[i], complexity));
 
         if (foundAttribute != PREDEFINED_TAGS.end()) {
-            descriptions.insert(std::pair<std::string, std::string>
-                (foundAttribute->second, attributes[i]));
+            // only the attributes that get into the description are to be expanded
+            if (descriptions.insert(std::pair<std::string, std::string>
+                (foundAttribute->second, attributes[i])).second) {
+
+                counter += complexity;
+            }
         }
         else {
             WARN("Attribute [" << attributes[i] << "] for tag [" << tag
-- 
2.43.0


From a67de9c59a9e02f29b971647ebce9e31dd63a3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:05 +0000
Subject: [PATCH 28/28] fix: encoding conversion lost text beyond 100000 bytes
 and after zero bytes

---
 common/encoding_converter.cpp | 37 +++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/common/encoding_converter.cpp b/common/encoding_converter.cpp
index de73755..e7ecfa8 100644
--- a/common/encoding_converter.cpp
+++ b/common/encoding_converter.cpp
@@ -143,23 +143,36 @@ bool EncodingConverter::convert_(int inCharsetId, int outCharsetId,
         return false;
     }
 
-    int inSizeConsumed, outSizeConsumed;
-
     unsigned char outputBuffer[BUFFER_SIZE];
-    const char* inputChars = input.c_str();
-    int inputCharsLength = strlen(inputChars);
+    const unsigned char* inputChars = (const unsigned char*)input.data();
+    size_t position = 0;
 
-    result = tiniconv_convert(&tiniconvStruct,
-                              (const unsigned char*)inputChars, inputCharsLength, &inSizeConsumed,
-                              outputBuffer, sizeof(outputBuffer) - 1, &outSizeConsumed);
+    std::string converted;
 
-    if (result < TINICONV_CONVERT_OUT_TOO_SMALL) {
-        WARN("tiniconv convertion failed");
-        return false;
+    // the output may be longer than the buffer
+    while (position < input.length()) {
+        int inSizeConsumed, outSizeConsumed;
+
+        result = tiniconv_convert(
+            &tiniconvStruct,
+            inputChars + position, input.length() - position, &inSizeConsumed,
+            outputBuffer, sizeof(outputBuffer), &outSizeConsumed);
+
+        if (result < TINICONV_CONVERT_OUT_TOO_SMALL) {
+            WARN("tiniconv convertion failed");
+            return false;
+        }
+
+        converted.append((const char *)outputBuffer, outSizeConsumed);
+        position += inSizeConsumed;
+
+        if (result == TINICONV_CONVERT_IN_TOO_SMALL
+            || (inSizeConsumed == 0 && outSizeConsumed == 0)) {
+            break;
+        }
     }
 
-    outputBuffer[outSizeConsumed] = 0;
-    output = std::string((const char *)outputBuffer);
+    output = converted;
 
     DEBUG("tiniconv convertion output: [" << output << "]");
 
-- 
2.43.0

