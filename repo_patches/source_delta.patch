From cd1c0e6efb7b572ceb0b28b2dfaaaa64b126848a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 01/48] fix: keep the character index inside its buffer for
 truncated UTF-8 and ranges at the very end

---
 .../src/markdown-parser/ByteBuffer.cc           | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/packages/apib-parser/src/markdown-parser/ByteBuffer.cc b/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
index a2b275d..c0b01f6 100644
--- a/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
+++ b/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
@@ -20,7 +20,7 @@ static size_t strnlen_utf8(const char* s, size_t len)
         return 0;
 
     size_t i = 0, j = 0;
-    while (s[i] && i < len) {
+    while (i < len && s[i]) {
         i += UTF8_CHAR_LEN(s[i]);
         j++;
     }
@@ -46,7 +46,7 @@ static CharactersRange BytesRangeToCharactersRange(const BytesRange& bytesRange,
 
     size_t charLength = 0;
     if (bytesRange.length > 0)
-        charLength = strnlen_utf8(byteBuffer.c_str() + bytesRange.location, bytesRange.length);
+        charLength = strnlen_utf8(byteBuffer.c_str() + bytesRange.location, workRange.length);
 
     CharactersRange characterRange = CharactersRange(charLocation, charLength);
     return characterRange;
@@ -65,7 +65,10 @@ static CharactersRange BytesRangeToCharactersRange(const BytesRange& bytesRange,
     }
 
     size_t charLocation = 0;
-    if (workRange.location > 0)
+    if (workRange.location >= index.size()) {
+        // range starts right behind the last character
+        charLocation = index[index.size() - 1] + 1;
+    } else if (workRange.location > 0)
         charLocation = index[workRange.location];
 
     size_t charLength = 0;
@@ -95,8 +98,12 @@ void mdp::BuildCharacterIndex(ByteBufferCharacterIndex& index, const ByteBuffer&
 
     index.resize(byteBuffer.length());
 
-    while (source[pos] && pos < len) {
-        int charLen = UTF8_CHAR_LEN(source[pos]);
+    while (pos < len && source[pos]) {
+        size_t charLen = UTF8_CHAR_LEN(source[pos]);
+        if (charLen > len - pos) {
+            // truncated character at the end of the buffer
+            charLen = len - pos;
+        }
         pos += charLen;
 
         while (charLen) {
-- 
2.43.0


From 4606bb3a5ef9a4e6d30d6373c40367851579a50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 02/48] fix: do not read before the start of an empty signature
 attribute

---
 packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h b/packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h
index e5d1954..bc4e725 100644
--- a/packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h
+++ b/packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h
@@ -341,7 +341,7 @@ namespace scpl
                 size_t length = attribute.size();
 
                 // If the last char is not an attribute delimiter, attributes are finished
-                if (attribute[length - 1] != Delimiters::AttributeDelimiter) {
+                if (length == 0 || attribute[length - 1] != Delimiters::AttributeDelimiter) {
                     attributesNotFinished = false;
                 } else {
                     attribute = attribute.substr(0, length - 1);
-- 
2.43.0


From 80aef3e31f54018990abebc328ea707e6bb548bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 03/48] fix: do not index before the start of an empty asset
 when terminating it

---
 packages/apib-parser/src/snowcrash/StringUtility.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/StringUtility.h b/packages/apib-parser/src/snowcrash/StringUtility.h
index c22eddf..91034ab 100644
--- a/packages/apib-parser/src/snowcrash/StringUtility.h
+++ b/packages/apib-parser/src/snowcrash/StringUtility.h
@@ -106,11 +106,11 @@ namespace snowcrash
     inline std::string& TwoNewLines(std::string& s)
     {
 
-        if (s[s.length() - 1] != '\n') {
+        if (s.empty() || s[s.length() - 1] != '\n') {
             s += "\n";
         }
 
-        if (s[s.length() - 2] != '\n') {
+        if (s.length() < 2 || s[s.length() - 2] != '\n') {
             s += "\n";
         }
 
-- 
2.43.0


From c6c089b0eeb1c049e3e28b4639473895891c45fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 04/48] fix: give positions in an unterminated last line, and
 an empty range at the start, their line and column

---
 packages/drafter/src/SourceMapUtils.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages/drafter/src/SourceMapUtils.cc b/packages/drafter/src/SourceMapUtils.cc
index 780ca9c..d099aaf 100644
--- a/packages/drafter/src/SourceMapUtils.cc
+++ b/packages/drafter/src/SourceMapUtils.cc
@@ -18,7 +18,8 @@ namespace drafter
 
         auto annotationPositionIt = std::upper_bound(linesEndIndex.begin(), linesEndIndex.end(), range.location);
 
-        if (annotationPositionIt != linesEndIndex.end()) {
+        // past the last newline is the last, unterminated, line
+        if (annotationPositionIt != linesEndIndex.begin()) {
             out.fromLine = std::distance(linesEndIndex.begin(), annotationPositionIt);
             out.fromColumn = range.location - *std::prev(annotationPositionIt) + 1;
         }
@@ -41,7 +42,11 @@ namespace drafter
 
         // end of byte mapping workarround
 
-        if (annotationPositionIt != linesEndIndex.end()) {
+        if (annotationPositionIt == linesEndIndex.begin()) {
+            // empty range at the very beginning
+            out.toLine = out.fromLine;
+            out.toColumn = out.fromColumn;
+        } else if (annotationPositionIt != linesEndIndex.end()) {
             out.toLine = std::distance(linesEndIndex.begin(), annotationPositionIt);
             out.toColumn = (range.location + range.length) - *(std::prev(annotationPositionIt));
         }
-- 
2.43.0


From db3b4bb5356191af2c749e5bcee86fee29318750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 05/48] fix: keep the source of a markdown node assignment
 alive while it is copied

---
 packages/apib-parser/src/markdown-parser/MarkdownNode.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/apib-parser/src/markdown-parser/MarkdownNode.cc b/packages/apib-parser/src/markdown-parser/MarkdownNode.cc
index 15ea78c..8df5c7f 100644
--- a/packages/apib-parser/src/markdown-parser/MarkdownNode.cc
+++ b/packages/apib-parser/src/markdown-parser/MarkdownNode.cc
@@ -32,12 +32,16 @@ MarkdownNode::MarkdownNode(const MarkdownNode& rhs)
 
 MarkdownNode& MarkdownNode::operator=(const MarkdownNode& rhs)
 {
+    // rhs may be one of the children this releases
+    std::unique_ptr<MarkdownNodes> children(::new MarkdownNodes(*rhs.m_children.get()));
+    MarkdownNode* parent = rhs.m_parent;
+
     this->type = rhs.type;
     this->text = rhs.text;
     this->data = rhs.data;
     this->sourceMap = rhs.sourceMap;
-    this->m_children.reset(::new MarkdownNodes(*rhs.m_children.get()));
-    this->m_parent = rhs.m_parent;
+    this->m_children = std::move(children);
+    this->m_parent = parent;
     return *this;
 }
 
-- 
2.43.0


From f2f07faabe4a948d0e3849101c9e5803c374f959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 06/48] fix: quote YAML keys that would not read back as
 strings

---
 packages/drafter/src/utils/so/YamlIo.cc | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/utils/so/YamlIo.cc b/packages/drafter/src/utils/so/YamlIo.cc
index ca3afb6..9c7b79c 100644
--- a/packages/drafter/src/utils/so/YamlIo.cc
+++ b/packages/drafter/src/utils/so/YamlIo.cc
@@ -33,6 +33,21 @@ namespace
         return true;
     }
 
+    // plain scalars YAML schemata resolve to something else than a string
+    bool is_yaml_reserved(const std::string& str)
+    {
+        if (str.empty())
+            return true;
+
+        std::string lower(str);
+        std::transform(lower.begin(), lower.end(), lower.begin(), [](char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; });
+
+        for (const char* word : { "null", "true", "false", "yes", "no", "on", "off", "y", "n" })
+            if (lower == word)
+                return true;
+        return false;
+    }
+
     bool is_yaml_printable(const codepoint& c)
     {
         return (c == 0x9)                                  //
@@ -237,7 +252,7 @@ namespace
             do_indent(out, indent);
 
             // for clearer, unescaped reading
-            if (is_alphanum_dash(m.first))
+            if (is_alphanum_dash(m.first) && !is_yaml_reserved(m.first))
                 out << m.first;
             else
                 serialize_yaml(out, m.first);
-- 
2.43.0


From 320b955060cc64115ba45b22d1620feed7e8799e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:28 +0000
Subject: [PATCH 07/48] fix: decode ill-formed UTF-8 sequences to the
 replacement character

---
 packages/drafter/src/utils/Utf8.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/packages/drafter/src/utils/Utf8.h b/packages/drafter/src/utils/Utf8.h
index e5956fe..b732c07 100644
--- a/packages/drafter/src/utils/Utf8.h
+++ b/packages/drafter/src/utils/Utf8.h
@@ -27,6 +27,12 @@ namespace drafter
             constexpr codepoint replacement = 0xFFFD;
             constexpr codepoint invalid = 0xFFFFFFFF;
 
+            /// @returns    true iff octet may continue a multi-octet sequence
+            constexpr bool is_continuation(char octet)
+            {
+                return (static_cast<unsigned char>(octet) & 0xC0) == 0x80;
+            }
+
             ///
             /// Decode utf8 codepoint from octet sequence
             ///
@@ -58,8 +64,12 @@ namespace drafter
 
                     codepoint result = ((cp & 0x1F) << 6) //
                         | (static_cast<unsigned char>(first[1]) & 0x3F);
+                    const bool valid = cp >= 0xC0 && is_continuation(first[1]);
                     std::advance(first, 2);
 
+                    if (!valid)
+                        return { replacement, first };
+
                     return { result < 0x80 ? replacement : result, first }; // check for oversized
 
                 } else if (cp < 0xF0) { // three bytes
@@ -70,8 +80,12 @@ namespace drafter
                     codepoint result = ((cp & 0x0F) << 12)                     //
                         | ((static_cast<unsigned char>(first[1]) & 0x3F) << 6) //
                         | (static_cast<unsigned char>(first[2]) & 0x3F);
+                    const bool valid = is_continuation(first[1]) && is_continuation(first[2]);
                     std::advance(first, 3);
 
+                    if (!valid)
+                        return { replacement, first };
+
                     if (result >= 0xD800 && result <= 0xDFFF) // surrogates not codepoints
                         return { replacement, first };
 
@@ -85,8 +99,13 @@ namespace drafter
                         | ((static_cast<unsigned char>(first[1]) & 0x3F) << 12) //
                         | ((static_cast<unsigned char>(first[2]) & 0x3F) << 6)  //
                         | (static_cast<unsigned char>(first[3]) & 0x3F);
+                    const bool valid = cp < 0xF8 && is_continuation(first[1]) && is_continuation(first[2])
+                        && is_continuation(first[3]);
                     std::advance(first, 4);
 
+                    if (!valid)
+                        return { replacement, first };
+
                     // check for oversized
                     if (result < 0x10000)
                         return { replacement, first };
-- 
2.43.0


From 7d99f5d8e5e5998c1db6f1438766861e0b5a2601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 08/48] fix: encode every octet of a disallowed URI template
 character with two digits

---
 packages/apib-parser/src/snowcrash/UriTemplateParser.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/UriTemplateParser.cc b/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
index d64597c..d855b9a 100644
--- a/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
+++ b/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
@@ -65,9 +65,9 @@ namespace error_locator
 
     std::string encodeString(const std::string& in) {
         std::stringstream encoded;
-        encoded << std::hex << std::uppercase;
+        encoded << std::hex << std::uppercase << std::setfill('0');
         for (const unsigned char chr : in) {
-            encoded << "%" << int(chr);
+            encoded << "%" << std::setw(2) << int(chr);
         }
         return encoded.str();
     }
-- 
2.43.0


From b090ae5869f1b612e63865ccc03de05edc43a262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 09/48] fix: parse media type parameters separated by
 semicolons

---
 packages/apib-parser/src/grammar/Mediatype.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/grammar/Mediatype.h b/packages/apib-parser/src/grammar/Mediatype.h
index adb1f23..27c22be 100644
--- a/packages/apib-parser/src/grammar/Mediatype.h
+++ b/packages/apib-parser/src/grammar/Mediatype.h
@@ -73,7 +73,11 @@ namespace apib
 
         // OPT convert to if_must<> to force correct attribute=value pair required
         struct parameter : pegtl::seq<attribute, pegtl::one<'='>, value> {}; 
-        struct parameters : pegtl::list<parameter, RWS> {};
+        struct parameter_separator : pegtl::sor<
+                                         pegtl::seq<OWS, pegtl::one<';'>, OWS>,
+                                         RWS
+                                     > {};
+        struct parameters : pegtl::list<parameter, parameter_separator> {};
 
         // type
         struct type : name {};
-- 
2.43.0


From 8a8753c8b7ed42ac4643aca4d7c0b02b1f512fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 10/48] fix: quote an empty media type parameter value when
 writing it

---
 packages/drafter/src/backend/MediaTypeS11n.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/backend/MediaTypeS11n.cc b/packages/drafter/src/backend/MediaTypeS11n.cc
index f48a1f7..e29332f 100644
--- a/packages/drafter/src/backend/MediaTypeS11n.cc
+++ b/packages/drafter/src/backend/MediaTypeS11n.cc
@@ -47,7 +47,8 @@ namespace
         using std::begin;
         using std::end;
 
-        if (end(v) == std::find_if(begin(v), end(v), [](const char c) { //
+        // a token is never empty, an empty value has to be quoted
+        if (!v.empty() && end(v) == std::find_if(begin(v), end(v), [](const char c) { //
                 return is_tspecial(c) || std::isspace(c) || std::iscntrl(c);
             }))
             return (out << v);
-- 
2.43.0


From 31b7a48a67b9dcb9ed5a2845e25858803c23a6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 11/48] fix: recognise the https scheme of a URI

---
 packages/apib-parser/src/snowcrash/UriTemplateParser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/snowcrash/UriTemplateParser.cc b/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
index d855b9a..9ac489d 100644
--- a/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
+++ b/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
@@ -12,7 +12,7 @@
 #include "RegexMatch.h"
 #include "grammar/Uritemplate.h"
 
-#define URI_REGEX "^(http|https|ftp|file)?(://)?([^/]*)?(.*)$"
+#define URI_REGEX "^(https|http|ftp|file)?(://)?([^/]*)?(.*)$"
 
 
 using namespace snowcrash;
-- 
2.43.0


From bdf1ba5a5692945059e4e35f95e1952cb9885fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:35 +0000
Subject: [PATCH 12/48] fix: quote a media type parameter value with characters
 outside ASCII

---
 packages/drafter/src/backend/MediaTypeS11n.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/drafter/src/backend/MediaTypeS11n.cc b/packages/drafter/src/backend/MediaTypeS11n.cc
index e29332f..b87fc29 100644
--- a/packages/drafter/src/backend/MediaTypeS11n.cc
+++ b/packages/drafter/src/backend/MediaTypeS11n.cc
@@ -48,8 +48,8 @@ namespace
         using std::end;
 
         // a token is never empty, an empty value has to be quoted
-        if (!v.empty() && end(v) == std::find_if(begin(v), end(v), [](const char c) { //
-                return is_tspecial(c) || std::isspace(c) || std::iscntrl(c);
+        if (!v.empty() && end(v) == std::find_if(begin(v), end(v), [](const unsigned char c) { //
+                return c > 0x7F || is_tspecial(c) || std::isspace(c) || std::iscntrl(c);
             }))
             return (out << v);
 
-- 
2.43.0


From db9ff99eea3a604f99068003338251ee5d1d21af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:01 +0000
Subject: [PATCH 13/48] fix: accept every token as an unquoted media type
 parameter value

---
 packages/apib-parser/src/grammar/Mediatype.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/grammar/Mediatype.h b/packages/apib-parser/src/grammar/Mediatype.h
index 27c22be..5eeaf04 100644
--- a/packages/apib-parser/src/grammar/Mediatype.h
+++ b/packages/apib-parser/src/grammar/Mediatype.h
@@ -65,7 +65,15 @@ namespace apib
                            pegtl::rep_max<126, pegtl::sor<pegtl::ascii::alnum, restricted> >
                        > {};
 
-        struct nonquoted : name {}; // nonqouted is used in parameter value to allow action template specialization
+        // token of https://tools.ietf.org/html/rfc2045#section-5.1
+        struct token : pegtl::plus<
+                           pegtl::sor<
+                               pegtl::ascii::alnum,
+                               pegtl::one<'!', '#', '$', '%', '&', '\'', '*', '+', '-', '.', '^', '_', '`', '{', '|', '}', '~'>
+                           >
+                       > {};
+
+        struct nonquoted : token {}; // nonqouted is used in parameter value to allow action template specialization
 
         // parameters
         struct attribute : name {};
-- 
2.43.0


From 437ad1bf9c8dca81b3aade39e9f25155e93da115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:34 +0000
Subject: [PATCH 14/48] fix: compare property names when merging objects whose
 property name is typed

---
 packages/drafter/src/refract/dsd/Extend.cc | 28 +++++++---------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/packages/drafter/src/refract/dsd/Extend.cc b/packages/drafter/src/refract/dsd/Extend.cc
index b6949aa..2c509fd 100644
--- a/packages/drafter/src/refract/dsd/Extend.cc
+++ b/packages/drafter/src/refract/dsd/Extend.cc
@@ -19,6 +19,7 @@
 #include "../TypeQueryVisitor.h"
 #include "../Utils.h"
 #include "../PrintVisitor.h"
+#include "../VisitorUtils.h"
 
 using namespace refract;
 using namespace dsd;
@@ -93,39 +94,28 @@ namespace
                         value.set();
                     auto valueMatch = [&value, &m]() {
                         if (auto mergeMember = TypeQueryVisitor::as<const MemberElement>(m.get())) {
-                            assert(mergeMember);
-
-                            auto mergeKey = TypeQueryVisitor::as<const StringElement>(mergeMember->get().key());
-                            assert(mergeKey);
-
+                            // a key is not necessarily a String Element, e.g. the typed name of a variable property
+                            const auto mergeKey = GetKeyAsString(*mergeMember);
                             return std::find_if(
-                                value.get().begin(), value.get().end(), [mergeKey](const std::unique_ptr<IElement>& e) {
+                                value.get().begin(), value.get().end(), [&mergeKey](const std::unique_ptr<IElement>& e) {
                                     if (auto valueMember = TypeQueryVisitor::as<const MemberElement>(e.get())) {
-                                        auto valueKey
-                                            = TypeQueryVisitor::as<const StringElement>(valueMember->get().key());
-                                        assert(valueKey);
-
-                                        return mergeKey->get() == valueKey->get();
+                                        return mergeKey == GetKeyAsString(*valueMember);
                                     }
 
                                     if (auto valueSelect = TypeQueryVisitor::as<const SelectElement>(e.get())) {
                                         return valueSelect->get().end()
                                             != std::find_if(valueSelect->get().begin(),
                                                    valueSelect->get().end(),
-                                                   [mergeKey](const std::unique_ptr<OptionElement>& option) {
+                                                   [&mergeKey](const std::unique_ptr<OptionElement>& option) {
                                                        return option->get().end()
                                                            != std::find_if(option->get().begin(),
                                                                   option->get().end(),
-                                                                  [mergeKey](const std::unique_ptr<IElement>& optEl) {
+                                                                  [&mergeKey](const std::unique_ptr<IElement>& optEl) {
                                                                       if (auto optElMember
                                                                           = TypeQueryVisitor::as<const MemberElement>(
                                                                               optEl.get())) {
-                                                                          auto optElMemberKey = TypeQueryVisitor::as<
-                                                                              const StringElement>(
-                                                                              optElMember->get().key());
-                                                                          assert(optElMemberKey);
-                                                                          return optElMemberKey->get()
-                                                                              == mergeKey->get();
+                                                                          return GetKeyAsString(*optElMember)
+                                                                              == mergeKey;
                                                                       }
                                                                       return false;
                                                                   });
-- 
2.43.0


From 3cfb988a04c2cc7a3891574e809fb12c6f64d431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 15/48] fix: do not wrap the cardinality of large data
 structures around

---
 packages/drafter/src/refract/Cardinal.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages/drafter/src/refract/Cardinal.h b/packages/drafter/src/refract/Cardinal.h
index d1aa1f1..9bd45f7 100644
--- a/packages/drafter/src/refract/Cardinal.h
+++ b/packages/drafter/src/refract/Cardinal.h
@@ -59,16 +59,18 @@ namespace refract
 
     constexpr cardinal operator+(cardinal lhs, cardinal rhs) noexcept
     {
-        return (lhs == cardinal::open() || rhs == cardinal::open()) ? cardinal::open() :
-                                                                      cardinal{ lhs.data() + rhs.data() };
+        // sums exceeding the range are open; cardinal::open() is the maximal value
+        return (lhs.data() > cardinal::open().data() - rhs.data()) ? cardinal::open() :
+                                                                     cardinal{ lhs.data() + rhs.data() };
     }
 
     constexpr cardinal operator*(cardinal lhs, cardinal rhs)noexcept
     {
         return (lhs == cardinal::empty() || rhs == cardinal::empty()) ?
             cardinal::empty() :
-            ((lhs == cardinal::open() || rhs == cardinal::open()) ? cardinal::open() :
-                                                                    cardinal{ lhs.data() * rhs.data() });
+            // products exceeding the range are open; cardinal::open() is the maximal value
+            ((lhs.data() > cardinal::open().data() / rhs.data()) ? cardinal::open() :
+                                                                   cardinal{ lhs.data() * rhs.data() });
     }
 }
 
-- 
2.43.0


From 723bb98254ab21882067fce5a5ccc9102a7ab885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 16/48] fix: compare enums and holders without a value

---
 packages/drafter/src/refract/dsd/Enum.cc   | 2 +-
 packages/drafter/src/refract/dsd/Holder.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/drafter/src/refract/dsd/Enum.cc b/packages/drafter/src/refract/dsd/Enum.cc
index abe4dbf..d274266 100644
--- a/packages/drafter/src/refract/dsd/Enum.cc
+++ b/packages/drafter/src/refract/dsd/Enum.cc
@@ -54,5 +54,5 @@ Enum& Enum::operator=(Enum rhs)
 
 bool dsd::operator==(const Enum& l, const Enum& r) noexcept
 {
-    return *l.value() == *r.value();
+    return (l.value() == r.value()) || (l.value() && r.value() && (*l.value() == *r.value()));
 }
diff --git a/packages/drafter/src/refract/dsd/Holder.cc b/packages/drafter/src/refract/dsd/Holder.cc
index 818634f..a0d8b0e 100644
--- a/packages/drafter/src/refract/dsd/Holder.cc
+++ b/packages/drafter/src/refract/dsd/Holder.cc
@@ -53,5 +53,5 @@ Holder& Holder::operator=(Holder rhs)
 
 bool dsd::operator==(const Holder& l, const Holder& r) noexcept
 {
-    return *l.data() == *r.data();
+    return (l.data() == r.data()) || (l.data() && r.data() && (*l.data() == *r.data()));
 }
-- 
2.43.0


From 302ec41241014fe8b7a16257135add2e87b4b402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 17/48] fix: do not look into the absent value of an enum when
 expanding

---
 packages/drafter/src/refract/IsExpandableVisitor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/IsExpandableVisitor.cc b/packages/drafter/src/refract/IsExpandableVisitor.cc
index c6a63c4..43bafc5 100644
--- a/packages/drafter/src/refract/IsExpandableVisitor.cc
+++ b/packages/drafter/src/refract/IsExpandableVisitor.cc
@@ -133,7 +133,7 @@ namespace refract
                 if (checkElement(e))
                     return true;
 
-                if (!e->empty()) {
+                if (!e->empty() && e->get().value()) {
                     IsExpandableVisitor v;
                     VisitBy(*e->get().value(), v);
                     if (v.get())
-- 
2.43.0


From e8264d6b842d508996ec32029e8b8cc1c10bdb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 18/48] fix: store the given value when creating an info
 element

---
 packages/drafter/src/refract/InfoElementsUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/InfoElementsUtils.h b/packages/drafter/src/refract/InfoElementsUtils.h
index 50a8be4..a111f39 100644
--- a/packages/drafter/src/refract/InfoElementsUtils.h
+++ b/packages/drafter/src/refract/InfoElementsUtils.h
@@ -49,7 +49,7 @@ namespace refract
     {
         auto ta = ie.find(key);
         if (ta == ie.end()) {
-            ie.set(key, make_element<ValueElementType>(from_primitive("fixed")));
+            ie.set(key, make_element<ValueElementType>(make_element<Element<DSDType> >(std::move(value))));
         } else {
             auto arr = TypeQueryVisitor::as<ValueElementType>(ta->second.get());
 
-- 
2.43.0


From fef702f4209b672f2a3545fca78529038e8a9071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 19/48] fix: append a sample to the existing ones

---
 packages/drafter/src/refract/ElementUtils.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/packages/drafter/src/refract/ElementUtils.cc b/packages/drafter/src/refract/ElementUtils.cc
index 819844a..3ae8115 100644
--- a/packages/drafter/src/refract/ElementUtils.cc
+++ b/packages/drafter/src/refract/ElementUtils.cc
@@ -234,7 +234,6 @@ void refract::addSample(IElement& e, std::unique_ptr<IElement> sample)
             assert(false);
         }
         LOG(info) << "adding new sample";
-        e.attributes().set("samples", make_element<ArrayElement>(std::move(sample)));
         samples->get().push_back(std::move(sample));
     } else {
         LOG(error) << "expected samples to be held in Array Element content";
-- 
2.43.0


From 22086567df2d1bffaa372ee6126679c68c3c0dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 20/48] fix: treat a reference without resolution as unresolved

---
 packages/drafter/src/refract/ElementUtils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/ElementUtils.cc b/packages/drafter/src/refract/ElementUtils.cc
index 3ae8115..9e3658f 100644
--- a/packages/drafter/src/refract/ElementUtils.cc
+++ b/packages/drafter/src/refract/ElementUtils.cc
@@ -298,7 +298,7 @@ const IElement* refract::resolve(const RefElement& element)
     const auto resolvedEntry = element.attributes().find("resolved");
     if (resolvedEntry == element.attributes().end()) {
         LOG(error) << "expected all references to be resolved in backend";
-        assert(false);
+        return nullptr;
     }
 
     assert(resolvedEntry->second);
-- 
2.43.0


From 6ff2ff7dfed61c6efeea29efef6cc661e8333df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 21/48] fix: end the search for the root ancestor of circularly
 inherited types

---
 packages/drafter/src/refract/Registry.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/Registry.cc b/packages/drafter/src/refract/Registry.cc
index d7a268e..ab0fedb 100644
--- a/packages/drafter/src/refract/Registry.cc
+++ b/packages/drafter/src/refract/Registry.cc
@@ -12,6 +12,7 @@
 #include "Exception.h"
 #include "TypeQueryVisitor.h"
 #include <algorithm>
+#include <set>
 
 using namespace refract;
 
@@ -36,11 +37,13 @@ Registry::Registry() : types_{baseTypeMap()} {}
 const IElement* refract::FindRootAncestor(const std::string& name, const Registry& registry)
 {
     const IElement* parent = registry.find(name);
+    std::set<const IElement*> visited;
 
     while (parent && !isReserved(parent->element())) {
+        visited.insert(parent);
         const IElement* next = registry.find(parent->element());
 
-        if (!next || (next == parent)) {
+        if (!next || visited.count(next)) {
             return parent;
         }
 
-- 
2.43.0


From 6b352296ae8b5812796181120a382760955da117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 22/48] fix: compare string elements with the looked up string

---
 packages/drafter/src/refract/ComparableVisitor.cc | 5 +++++
 packages/drafter/src/refract/ComparableVisitor.h  | 6 +-----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/packages/drafter/src/refract/ComparableVisitor.cc b/packages/drafter/src/refract/ComparableVisitor.cc
index 5127aab..cf7990c 100644
--- a/packages/drafter/src/refract/ComparableVisitor.cc
+++ b/packages/drafter/src/refract/ComparableVisitor.cc
@@ -17,6 +17,11 @@ namespace refract
     {
     }
 
+    bool ComparableVisitor::IsEqual(const std::string& first, const dsd::String& second)
+    {
+        return second == first;
+    }
+
     void ComparableVisitor::operator()(const MemberElement& e)
     {
         ComparableVisitor cv(compare_to); // OPTIM: reuse current visitor
diff --git a/packages/drafter/src/refract/ComparableVisitor.h b/packages/drafter/src/refract/ComparableVisitor.h
index 19eabeb..29dad69 100644
--- a/packages/drafter/src/refract/ComparableVisitor.h
+++ b/packages/drafter/src/refract/ComparableVisitor.h
@@ -26,11 +26,7 @@ namespace refract
             return false;
         }
 
-        template <typename T>
-        bool IsEqual(const T& first, const T& second)
-        {
-            return first == second;
-        }
+        bool IsEqual(const std::string& first, const dsd::String& second);
 
     public:
         enum
-- 
2.43.0


From 0ce578e2602b76a1d01bcbe8578dfcd0b84d23fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 23/48] fix: read a number beyond 32 bits as an integer

---
 packages/drafter/src/refract/dsd/Number.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/dsd/Number.cc b/packages/drafter/src/refract/dsd/Number.cc
index d20e7df..aaa90df 100644
--- a/packages/drafter/src/refract/dsd/Number.cc
+++ b/packages/drafter/src/refract/dsd/Number.cc
@@ -41,7 +41,7 @@ const std::string& Number::get() const noexcept
 Number::operator std::int64_t() const noexcept
 {
     std::string::size_type idx;
-    std::int64_t result = std::stoi(value_, &idx);
+    std::int64_t result = std::stoll(value_, &idx);
     if (idx < value_.size())
         LOG(warning) << "dsd::Number to int; dropped trailing `" << value_.substr(idx) << "`";
     return result;
-- 
2.43.0


From 056b0d27f2aa901e9abfbbac196af98341bc091d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:57 +0000
Subject: [PATCH 24/48] fix: expand the enumerations of an enum that derives
 from a named type

---
 packages/drafter/src/refract/ExpandVisitor.cc | 57 +++++++++++--------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/packages/drafter/src/refract/ExpandVisitor.cc b/packages/drafter/src/refract/ExpandVisitor.cc
index 561bea4..83e857d 100644
--- a/packages/drafter/src/refract/ExpandVisitor.cc
+++ b/packages/drafter/src/refract/ExpandVisitor.cc
@@ -193,12 +193,42 @@ namespace refract
                 make_empty<T>() :
                 make_element<T>(ExpandValue(e.get()));
 
-            o->attributes() = e.attributes();
+            o->attributes() = ExpandAttributes(e);
             o->meta() = e.meta();
 
             return o;
         }
 
+        InfoElements ExpandAttributes(const IElement& e)
+        {
+            return e.attributes();
+        }
+
+        // the enumerations are a part of the content of an enum
+        InfoElements ExpandAttributes(const EnumElement& e)
+        {
+            InfoElements attributes;
+
+            for (const auto& attribute : e.attributes()) {
+                if (attribute.first == "enumerations") {
+                    const auto* enums = TypeQueryVisitor::as<const ArrayElement>(attribute.second.get());
+                    assert(enums);
+                    assert(!enums->empty());
+
+                    dsd::Array expanded;
+                    for (const auto& entry : enums->get()) {
+                        assert(entry);
+                        expanded.push_back(ExpandOrClone(entry.get()));
+                    }
+                    attributes.set("enumerations", make_element<ArrayElement>(std::move(expanded)));
+                } else {
+                    attributes.set(attribute.first, attribute.second->clone());
+                }
+            }
+
+            return attributes;
+        }
+
         template <typename T>
         std::unique_ptr<IElement> ExpandNamedType(const T& e)
         {
@@ -295,30 +325,7 @@ namespace refract
             if (!isReserved(e.element().c_str()))
                 return context->ExpandNamedType(e);
 
-            auto o = e.empty() ? //
-                make_empty<EnumElement>() :
-                make_element<EnumElement>(context->ExpandValue(e.get()));
-
-            o->meta() = e.meta();
-
-            for (const auto& attribute : e.attributes()) {
-                if (attribute.first == "enumerations") {
-                    const auto* enums = TypeQueryVisitor::as<const ArrayElement>(attribute.second.get());
-                    assert(enums);
-                    assert(!enums->empty());
-
-                    dsd::Array expanded;
-                    for (const auto& entry : enums->get()) {
-                        assert(entry);
-                        expanded.push_back(context->ExpandOrClone(entry.get()));
-                    }
-                    o->attributes().set("enumerations", make_element<ArrayElement>(std::move(expanded)));
-                } else {
-                    o->attributes().set(attribute.first, attribute.second->clone());
-                }
-            }
-
-            return std::move(o);
+            return context->ExpandMembers(e);
         }
     };
 
-- 
2.43.0


From 9cc58bcca32f5eae1fc0e0365565784d1cbce078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:57 +0000
Subject: [PATCH 25/48] fix: keep the attributes of a choice when it is
 expanded

---
 packages/drafter/src/refract/ExpandVisitor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/drafter/src/refract/ExpandVisitor.cc b/packages/drafter/src/refract/ExpandVisitor.cc
index 83e857d..e5382d7 100644
--- a/packages/drafter/src/refract/ExpandVisitor.cc
+++ b/packages/drafter/src/refract/ExpandVisitor.cc
@@ -341,6 +341,7 @@ namespace refract
             auto& content = o->get();
 
             o->meta() = e.meta(); // clone
+            o->attributes() = e.attributes();
 
             for (const auto& opt : e.get()) {
                 content.push_back(std::unique_ptr<OptionElement>(
-- 
2.43.0


From c3ea854a43f4031b80ba30a6c62abc7e17c32773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:17 +0000
Subject: [PATCH 26/48] fix: describe the items of an included array in the
 JSON schema of the including one

---
 packages/drafter/src/refract/JsonSchema.cc | 39 ++++++++++++++--------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/packages/drafter/src/refract/JsonSchema.cc b/packages/drafter/src/refract/JsonSchema.cc
index 6b05d82..3fe93eb 100644
--- a/packages/drafter/src/refract/JsonSchema.cc
+++ b/packages/drafter/src/refract/JsonSchema.cc
@@ -426,6 +426,22 @@ namespace
         return schema;
     }
 
+    /// Append schemas of array items; those of an included array are appended in its place
+    void appendItemSchemas(so::Array& schemas, const ArrayElement& e, TypeAttributes options)
+    {
+        if (e.empty())
+            return;
+
+        for (const auto& item : e.get()) {
+            assert(item);
+            const auto* included = get<const RefElement>(item.get());
+            if (const auto* mixin = included ? get<const ArrayElement>(resolve(*included)) : nullptr)
+                appendItemSchemas(schemas, *mixin, options);
+            else
+                schemas.data.emplace_back(makeSchema(*item, inheritOrPassFlags(options, *item)));
+        }
+    }
+
     so::Object& renderSchemaSpecific(so::Object& s, const ArrayElement& e, TypeAttributes options)
     {
         constexpr const char* TYPE_NAME = "array";
@@ -437,18 +453,17 @@ namespace
             auto& schema = wrapNullable(s, options);
             addType(schema, TYPE_NAME);
 
-            if (e.empty()) {
+            so::Array entries{};
+            appendItemSchemas(entries, e, options);
+
+            if (entries.data.empty()) {
                 addMaxItems(schema, 0);
-            } else if (e.get().size() == 1) {
-                const auto& entry = *e.get().begin();
-                so::Object items = makeSchema(*entry, inheritOrPassFlags(options, *entry));
-                addItems(schema, std::move(items));
+            } else if (entries.data.size() == 1) {
+                addItems(schema, std::move(entries.data.front()));
             } else {
                 so::Array items{};
-                for (const auto& entry : e.get()) {
-                    assert(entry);
-                    so::emplace_unique(items, makeSchema(*entry, inheritOrPassFlags(options, *entry)));
-                }
+                for (auto& entry : entries.data)
+                    so::emplace_unique(items, std::move(entry));
 
                 addItems(schema, so::Object{ so::from_list{}, std::make_pair("anyOf", std::move(items)) });
             }
@@ -456,11 +471,7 @@ namespace
         } else if (options.test(FIXED_FLAG)) { // tuple of N constants/types
 
             so::Array items{};
-            if (!e.empty())
-                for (const auto& item : e.get()) {
-                    assert(item);
-                    items.data.emplace_back(makeSchema(*item, inheritOrPassFlags(options, *item)));
-                }
+            appendItemSchemas(items, e, options);
 
             auto& schema = wrapNullable(s, options);
             addType(schema, TYPE_NAME);
-- 
2.43.0


From 0b95903edc327d570dfd9519d0470e6d0869d6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:54 +0000
Subject: [PATCH 27/48] fix: do not forbid in the JSON schema what samples of a
 fixed array or object hold

---
 packages/drafter/src/refract/JsonSchema.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/packages/drafter/src/refract/JsonSchema.cc b/packages/drafter/src/refract/JsonSchema.cc
index 3fe93eb..bbbc823 100644
--- a/packages/drafter/src/refract/JsonSchema.cc
+++ b/packages/drafter/src/refract/JsonSchema.cc
@@ -288,6 +288,12 @@ namespace
         return "(?:)";
     }
 
+    /// Whether there is a sample or default, but no content to describe
+    bool onlyIllustrated(const IElement& e)
+    {
+        return e.empty() && definesValue(e);
+    }
+
     struct ObjectSchema {
         so::Object properties = {};
         so::Object patternProperties = {};
@@ -420,7 +426,7 @@ namespace
 
         materialize(schema, std::move(result));
 
-        if (options.test(FIXED_TYPE_FLAG) || options.test(FIXED_FLAG))
+        if ((options.test(FIXED_TYPE_FLAG) || options.test(FIXED_FLAG)) && !onlyIllustrated(e))
             addAdditionalProperties(schema, so::False{});
 
         return schema;
@@ -457,7 +463,8 @@ namespace
             appendItemSchemas(entries, e, options);
 
             if (entries.data.empty()) {
-                addMaxItems(schema, 0);
+                if (!onlyIllustrated(e))
+                    addMaxItems(schema, 0);
             } else if (entries.data.size() == 1) {
                 addItems(schema, std::move(entries.data.front()));
             } else {
@@ -468,7 +475,7 @@ namespace
                 addItems(schema, so::Object{ so::from_list{}, std::make_pair("anyOf", std::move(items)) });
             }
 
-        } else if (options.test(FIXED_FLAG)) { // tuple of N constants/types
+        } else if (options.test(FIXED_FLAG) && !onlyIllustrated(e)) { // tuple of N constants/types
 
             so::Array items{};
             appendItemSchemas(items, e, options);
-- 
2.43.0


From 99df500363ad3430a3ecb266aae67e5c6b08427f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 28/48] fix: describe a property that is given twice once in
 the JSON schema

---
 packages/drafter/src/refract/JsonSchema.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/drafter/src/refract/JsonSchema.cc b/packages/drafter/src/refract/JsonSchema.cc
index bbbc823..75c7cbc 100644
--- a/packages/drafter/src/refract/JsonSchema.cc
+++ b/packages/drafter/src/refract/JsonSchema.cc
@@ -752,10 +752,10 @@ namespace
         } else {
             auto strKey = key(e);
 
-            s.properties.data.emplace_back(strKey, makeSchema(*v, passFlags(options)));
+            emplace_unique(s.properties, strKey, makeSchema(*v, passFlags(options)));
 
             if (options.test(REQUIRED_FLAG))
-                s.required.data.emplace_back(so::String{ strKey });
+                so::emplace_unique(s.required, so::String{ strKey });
         }
     }
 
-- 
2.43.0


From de97247ff8f891ffd8d0b6556729b37c8b268b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:43 +0000
Subject: [PATCH 29/48] fix: count the absence of an optional property among
 the values of a fixed object

---
 packages/drafter/src/refract/ElementSize.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/ElementSize.cc b/packages/drafter/src/refract/ElementSize.cc
index 50e5df7..7297b5c 100644
--- a/packages/drafter/src/refract/ElementSize.cc
+++ b/packages/drafter/src/refract/ElementSize.cc
@@ -85,7 +85,8 @@ cardinal refract::sizeOf(const MemberElement& e, bool inheritsFixed)
     if (e.empty() || !e.get().value())
         return cardinal::empty();
     const auto keySize = isVariable(e) ? cardinal::open() : cardinal{ 1 };
-    return wrapNullable(keySize * sizeOf(*e.get().value(), inheritsFixed), e);
+    const auto size = wrapNullable(keySize * sizeOf(*e.get().value(), inheritsFixed), e);
+    return hasOptionalTypeAttr(e) ? size + cardinal{ 1 } : size; // may be absent
 }
 
 cardinal refract::sizeOf(const ArrayElement& e, bool inheritsFixed)
-- 
2.43.0


From fc21c274cc26f04496ad7bd166087338387ad3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:35 +0000
Subject: [PATCH 30/48] fix: require the properties a fixed object includes in
 its JSON schema

---
 packages/drafter/src/refract/JsonSchema.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/JsonSchema.cc b/packages/drafter/src/refract/JsonSchema.cc
index 75c7cbc..334839a 100644
--- a/packages/drafter/src/refract/JsonSchema.cc
+++ b/packages/drafter/src/refract/JsonSchema.cc
@@ -810,7 +810,8 @@ namespace
         else
             for (const auto& item : e.get()) {
                 assert(item);
-                renderProperty(s, *item, inheritFlags(options));
+                renderProperty(
+                    s, *item, inheritFlags(options).set(REQUIRED_FLAG, options.test(REQUIRED_FLAG)));
             }
     }
 
-- 
2.43.0


From 0541daa1bbcc3778be66d7840cbf229989198c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:19 +0000
Subject: [PATCH 31/48] fix: a blank line among headers is no header line
 reaching to the end of the document

---
 packages/apib-parser/src/snowcrash/StringUtility.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/apib-parser/src/snowcrash/StringUtility.h b/packages/apib-parser/src/snowcrash/StringUtility.h
index 91034ab..03f0817 100644
--- a/packages/apib-parser/src/snowcrash/StringUtility.h
+++ b/packages/apib-parser/src/snowcrash/StringUtility.h
@@ -63,6 +63,11 @@ namespace snowcrash
         std::string::const_reverse_iterator rend(begin);
 
         std::string::const_iterator trim = std::find_if(begin, end, std::not1(std::ptr_fun(isSpace)));
+        if (trim == end) {
+            // nothing but space
+            return std::make_tuple(std::distance(begin, end), 0);
+        }
+
         std::string::const_reverse_iterator rtrim = std::find_if(rbegin, rend, std::not1(std::ptr_fun(isSpace)));
 
         return std::make_tuple(
-- 
2.43.0


From 659a35fead03b403c273ff200ef9f1279c8b38e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:19 +0000
Subject: [PATCH 32/48] fix: name the whole illegal character of a header name

---
 .../apib-parser/src/snowcrash/HeadersParser.cc     | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/HeadersParser.cc b/packages/apib-parser/src/snowcrash/HeadersParser.cc
index aa18c54..3a2e3a8 100644
--- a/packages/apib-parser/src/snowcrash/HeadersParser.cc
+++ b/packages/apib-parser/src/snowcrash/HeadersParser.cc
@@ -42,7 +42,7 @@ static bool isNotValidTokenChar(const std::string::value_type& c)
 {
     static const std::string validChars("-#$%&'*+.^_`|~");
 
-    return !(std::isalnum(c) || (validChars.find(c) != std::string::npos));
+    return !(std::isalnum(static_cast<unsigned char>(c)) || (validChars.find(c) != std::string::npos));
 }
 
 static std::string::const_iterator findNonValidCharInHeaderName(const std::string& token)
@@ -60,10 +60,16 @@ bool HeaderNameTokenChecker::operator()() const
 std::string HeaderNameTokenChecker::getMessage() const
 {
 
-    const char invalidChar = *findNonValidCharInHeaderName(headerName);
+    const std::string::const_iterator invalid = findNonValidCharInHeaderName(headerName);
+
+    // every byte of the character
+    std::string::const_iterator end = invalid + 1;
+    while (end != headerName.end() && (*end & 0xC0) == 0x80)
+        ++end;
+
     std::stringstream ss;
-    ss << "HTTP header name '" << headerName << "' contains illegal character '" << invalidChar << "' (0x" << std::hex
-       << static_cast<int16_t>(invalidChar) << ") skipping the header";
+    ss << "HTTP header name '" << headerName << "' contains illegal character '" << std::string(invalid, end) << "' (0x"
+       << std::hex << static_cast<int>(static_cast<unsigned char>(*invalid)) << ") skipping the header";
 
     return ss.str();
 }
-- 
2.43.0


From 9272ba5256e199866ada26b1bb1dd74ab0628968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:19 +0000
Subject: [PATCH 33/48] fix: source maps of headers are byte ranges, like all
 others

---
 packages/apib-parser/src/snowcrash/HeadersParser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/snowcrash/HeadersParser.h b/packages/apib-parser/src/snowcrash/HeadersParser.h
index ca1613b..608e81a 100644
--- a/packages/apib-parser/src/snowcrash/HeadersParser.h
+++ b/packages/apib-parser/src/snowcrash/HeadersParser.h
@@ -298,7 +298,7 @@ namespace snowcrash
 
                     if (pd.exportSourceMap()) {
                         SourceMap<Header> headerSM;
-                        headerSM.sourceMap = sourceMap;
+                        headerSM.sourceMap = byteMap;
                         out.sourceMap.collection.push_back(headerSM);
                     }
                 }
-- 
2.43.0


From df8dc2ab99b42ebca1e349c0286ccfb4eff8d4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:11 +0000
Subject: [PATCH 34/48] fix: an underscore within a word does not begin
 emphasis in an identifier

---
 .../src/snowcrash/SignatureSectionProcessor.h | 43 ++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h b/packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h
index bc4e725..f2f8fc9 100644
--- a/packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h
+++ b/packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h
@@ -9,6 +9,7 @@
 #ifndef SNOWCRASH_SIGNATURESECTIONPROCESSOR_H
 #define SNOWCRASH_SIGNATURESECTIONPROCESSOR_H
 
+#include <cctype>
 #include "SectionProcessor.h"
 
 namespace scpl
@@ -163,6 +164,42 @@ namespace scpl
             return ++MarkdownNodeIterator(node);
         };
 
+        /** \return True if given byte belongs to a word, as bytes outside of ASCII do */
+        static bool isWordByte(char c)
+        {
+            const unsigned char byte = static_cast<unsigned char>(c);
+
+            return byte >= 0x80 || isalnum(byte);
+        }
+
+        /** \return True if the underscore at given position is a part of a word rather than a beginning of emphasis */
+        static bool isUnderscoreOfWord(const mdp::ByteBuffer& subject, size_t position)
+        {
+
+            const char underscore = '_';
+
+            if (subject[position] != underscore) {
+                return false;
+            }
+
+            if (position > 0 && isWordByte(subject[position - 1])) {
+                return true;
+            }
+
+            size_t begin = subject.find_first_not_of(underscore, position);
+            size_t end = begin == std::string::npos ? begin : subject.find(underscore, begin);
+
+            if (end == std::string::npos) {
+                return false;
+            }
+
+            // Emphasis ends right behind a word
+            size_t next = subject.find_first_not_of(underscore, end);
+
+            return isblank(static_cast<unsigned char>(subject[end - 1]))
+                || (next != std::string::npos && isWordByte(subject[next]));
+        }
+
         /**
          * \brief Parse the identifier from the signature
          *
@@ -190,7 +227,11 @@ namespace scpl
                 if (escapeCharacters.find(subject[i]) != std::string::npos) {
 
                     // If escaped string, retrieve it and strip it from the subject
-                    mdp::ByteBuffer escapedString = snowcrash::RetrieveEscaped(subject, i);
+                    mdp::ByteBuffer escapedString;
+
+                    if (!isUnderscoreOfWord(subject, i)) {
+                        escapedString = snowcrash::RetrieveEscaped(subject, i);
+                    }
 
                     if (!escapedString.empty()) {
                         identifier += escapedString;
-- 
2.43.0


From 0d8a2123bf016487688ac2d2700d741cfc916ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:07 +0000
Subject: [PATCH 35/48] fix: keep the description of an array item which is an
 object

---
 packages/drafter/src/RefractDataStructure.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/packages/drafter/src/RefractDataStructure.cc b/packages/drafter/src/RefractDataStructure.cc
index b7b72fb..6865606 100644
--- a/packages/drafter/src/RefractDataStructure.cc
+++ b/packages/drafter/src/RefractDataStructure.cc
@@ -570,6 +570,11 @@ namespace
 
         void operator()(const NodeInfo<mson::ValueMember>& valueMember) const
         {
+            if (!valueMember.node->description.empty()) {
+                data.descriptions.push_back(
+                    DescriptionInfo{ valueMember.node->description, valueMember.sourceMap->description });
+            }
+
             // silently ignore "value" for ObjectElement e.g.
             // ```
             // # A (array)
@@ -608,11 +613,6 @@ namespace
                 }
             }
 
-            if (!valueMember.node->description.empty()) {
-                data.descriptions.push_back(
-                    DescriptionInfo{ valueMember.node->description, valueMember.sourceMap->description });
-            }
-
             if ((valueMember.node->valueDefinition.values.empty()
                     || (valueMember.node->valueDefinition.typeDefinition.typeSpecification.nestedTypes.size() > 1))) {
 
-- 
2.43.0


From c0fd81645ef24f3d83b3118484eca198ccf334fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:37 +0000
Subject: [PATCH 36/48] fix: an escaped value with emphasis characters is not a
 variable in a list of values

---
 .../src/snowcrash/SignatureSectionProcessor.h      | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h b/packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h
index f2f8fc9..3134adc 100644
--- a/packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h
+++ b/packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h
@@ -200,6 +200,14 @@ namespace scpl
                 || (next != std::string::npos && isWordByte(subject[next]));
         }
 
+        /** \return True if given string begins and ends with the same emphasis character */
+        static bool isEmphasized(const mdp::ByteBuffer& subject)
+        {
+
+            return !subject.empty() && (subject[0] == '*' || subject[0] == '_')
+                && subject[0] == subject[subject.length() - 1];
+        }
+
         /**
          * \brief Parse the identifier from the signature
          *
@@ -316,7 +324,11 @@ namespace scpl
                     snowcrash::TrimString(subject);
 
                     snowcrash::TrimString(value);
-                    out.values.push_back(snowcrash::StripBackticks(value));
+                    mdp::ByteBuffer escaped = value;
+                    value = snowcrash::StripBackticks(value);
+
+                    // Escaped emphasis stays escaped to be told from a variable
+                    out.values.push_back(isEmphasized(value) ? escaped : value);
 
                     value = "";
                     i = 0;
-- 
2.43.0


From f06532047c4ac07fc05227ee52fad05b8d799911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:17 +0000
Subject: [PATCH 37/48] fix: include items of a derived array type in generated
 values and schemas

---
 packages/drafter/src/refract/JsonSchema.cc | 11 ++++++++++-
 packages/drafter/src/refract/JsonValue.cc  |  8 ++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/JsonSchema.cc b/packages/drafter/src/refract/JsonSchema.cc
index 334839a..a7bfc7b 100644
--- a/packages/drafter/src/refract/JsonSchema.cc
+++ b/packages/drafter/src/refract/JsonSchema.cc
@@ -441,7 +441,16 @@ namespace
         for (const auto& item : e.get()) {
             assert(item);
             const auto* included = get<const RefElement>(item.get());
-            if (const auto* mixin = included ? get<const ArrayElement>(resolve(*included)) : nullptr)
+            const IElement* resolved = included ? resolve(*included) : nullptr;
+
+            // a derived type is to be merged first
+            std::unique_ptr<IElement> merged;
+            if (const auto* extend = resolved ? get<const ExtendElement>(resolved) : nullptr) {
+                merged = extend->get().merge();
+                resolved = merged.get();
+            }
+
+            if (const auto* mixin = resolved ? get<const ArrayElement>(resolved) : nullptr)
                 appendItemSchemas(schemas, *mixin, options);
             else
                 schemas.data.emplace_back(makeSchema(*item, inheritOrPassFlags(options, *item)));
diff --git a/packages/drafter/src/refract/JsonValue.cc b/packages/drafter/src/refract/JsonValue.cc
index a8c0005..7b78754 100644
--- a/packages/drafter/src/refract/JsonValue.cc
+++ b/packages/drafter/src/refract/JsonValue.cc
@@ -518,6 +518,14 @@ namespace
     void renderItemSpecific(so::Array& array, const RefElement& element, TypeAttributes options)
     {
         const IElement* resolved = resolve(element);
+
+        // a derived type is to be merged first
+        std::unique_ptr<IElement> merged;
+        if (const auto* extend = resolved ? get<const ExtendElement>(resolved) : nullptr) {
+            merged = extend->get().merge();
+            resolved = merged.get();
+        }
+
         if (!resolved) {
             LOG(warning) << "ignoring unresolved reference in json value backend";
         } else if (const auto& mixin = get<const ArrayElement>(resolved)) {
-- 
2.43.0


From b78d596f1fbc5e393cc1840f117b4f7b6437c374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:59 +0000
Subject: [PATCH 38/48] fix: find the content type in a header of a name in any
 letter case

---
 packages/drafter/src/Render.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/Render.cc b/packages/drafter/src/Render.cc
index 2981849..5cd7b69 100644
--- a/packages/drafter/src/Render.cc
+++ b/packages/drafter/src/Render.cc
@@ -13,6 +13,7 @@
 
 #include "BlueprintUtility.h"
 #include "RegexMatch.h"
+#include "StringUtility.h"
 #include "SourceAnnotation.h"
 
 #include "ConversionContext.h"
@@ -50,7 +51,9 @@ namespace drafter
 
         header = std::find_if(headers.begin(),
             headers.end(),
-            std::bind(MatchFirstWith<Header, std::string>(), std::placeholders::_1, HTTPHeaderName::ContentType));
+            std::bind(MatchFirstWith<Header, std::string, IEqual<std::string> >(),
+                std::placeholders::_1,
+                HTTPHeaderName::ContentType));
 
         if (header != headers.end()) {
             return header->second;
-- 
2.43.0


From c1fc4a806b9f6562efe0478e244c358421d1d7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:32 +0000
Subject: [PATCH 39/48] fix: report a parameter missing from the URI template
 of a resource defined together with its method

---
 packages/apib-parser/src/snowcrash/ResourceParser.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/apib-parser/src/snowcrash/ResourceParser.h b/packages/apib-parser/src/snowcrash/ResourceParser.h
index 4682a7a..8b034f9 100644
--- a/packages/apib-parser/src/snowcrash/ResourceParser.h
+++ b/packages/apib-parser/src/snowcrash/ResourceParser.h
@@ -338,6 +338,10 @@ namespace snowcrash
             IntermediateParseResult<Action> action(out.report);
             MarkdownNodeIterator cur = ActionParser::parse(node, siblings, pd, action);
 
+            if (!action.node.parameters.empty() && action.node.uriTemplate.empty()) {
+                checkParametersEligibility<Resource>(node, pd, action.node.parameters, out);
+            }
+
             out.node.actions.push_back(action.node);
             layout = RedirectSectionLayout;
 
-- 
2.43.0


From 5aea9693147c2e974ffb805be4d08d4be5c2292b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:56 +0000
Subject: [PATCH 40/48] fix: stop at a circular reference when the base of a
 named type is looked up

---
 packages/drafter/src/NamedTypesRegistry.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/NamedTypesRegistry.cc b/packages/drafter/src/NamedTypesRegistry.cc
index a4ae0f2..a362cc9 100644
--- a/packages/drafter/src/NamedTypesRegistry.cc
+++ b/packages/drafter/src/NamedTypesRegistry.cc
@@ -336,8 +336,10 @@ namespace
         mson::BaseTypeName ResolveType(const snowcrash::DataStructure* object) const
         {
             std::string s = name(object);
+            std::set<std::string> visited;
 
-            while (!s.empty()) {
+            // stop at a circular reference
+            while (!s.empty() && visited.insert(s).second) {
                 ElementMap::const_iterator ei = nameToElement.find(s);
                 if (ei == nameToElement.end()) {
                     return mson::UndefinedTypeName;
-- 
2.43.0


From 9433fb02a1c261c1cbcedbedb323fe3762d26cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:55 +0000
Subject: [PATCH 41/48] fix: say where a repeated value of an enumeration is

---
 packages/drafter/src/RefractDataStructure.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/RefractDataStructure.cc b/packages/drafter/src/RefractDataStructure.cc
index 6865606..368aaab 100644
--- a/packages/drafter/src/RefractDataStructure.cc
+++ b/packages/drafter/src/RefractDataStructure.cc
@@ -240,7 +240,14 @@ namespace
                     if (IsLiteral(*e))
                         setFixedTypeAttribute(*e);
 
-                return ElementInfo<T>{ std::move(values), FetchSourceMap<ValueType>()(typeSection) };
+                auto sourceMap = FetchSourceMap<ValueType>()(typeSection);
+
+                // members listed without a section heading of their own
+                if (sourceMap.sourceMap.empty())
+                    for (const auto& member : typeSection.sourceMap->elements().collection)
+                        sourceMap.sourceMap.append(member.value.valueDefinition.sourceMap);
+
+                return ElementInfo<T>{ std::move(values), std::move(sourceMap) };
             }
         };
 
-- 
2.43.0


From 2207e445952b92146715c63c834af1de9085f414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:27 +0000
Subject: [PATCH 42/48] fix: keep the members which follow a misplaced one of
 or mixin

---
 packages/apib-parser/src/snowcrash/MSONTypeSectionParser.cc | 4 +++-
 packages/apib-parser/src/snowcrash/MSONValueMemberParser.cc | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/MSONTypeSectionParser.cc b/packages/apib-parser/src/snowcrash/MSONTypeSectionParser.cc
index 84656a4..128e555 100644
--- a/packages/apib-parser/src/snowcrash/MSONTypeSectionParser.cc
+++ b/packages/apib-parser/src/snowcrash/MSONTypeSectionParser.cc
@@ -56,7 +56,7 @@ namespace snowcrash
                                 LogicalErrorWarning,
                                 sourceMap));
 
-                        return cur;
+                        return ++MarkdownNodeIterator(node);
                     }
 
                     IntermediateParseResult<mson::OneOf> oneOf(out.report);
@@ -114,6 +114,8 @@ namespace snowcrash
                     mdp::CharactersRangeSet sourceMap
                         = mdp::BytesRangeSetToCharactersRangeSet(node->sourceMap, pd.sourceCharacterIndex);
                     out.report.warnings.push_back(Warning(ss.str(), LogicalErrorWarning, sourceMap));
+
+                    cur = ++MarkdownNodeIterator(node);
                     break;
                 }
 
diff --git a/packages/apib-parser/src/snowcrash/MSONValueMemberParser.cc b/packages/apib-parser/src/snowcrash/MSONValueMemberParser.cc
index cb22424..cfab1c8 100644
--- a/packages/apib-parser/src/snowcrash/MSONValueMemberParser.cc
+++ b/packages/apib-parser/src/snowcrash/MSONValueMemberParser.cc
@@ -118,7 +118,7 @@ namespace snowcrash
                 sections.report.warnings.push_back(Warning(
                     "one of may be a nested member of a object sub-types only", LogicalErrorWarning, sourceMap));
 
-                return cur;
+                return ++MarkdownNodeIterator(node);
             }
 
             IntermediateParseResult<mson::OneOf> oneOf(sections.report);
-- 
2.43.0


From b1d363885d98dad222d2d61b232717915312afc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:22 +0000
Subject: [PATCH 43/48] fix: report an object given a value within a type
 section or one of

---
 .../src/snowcrash/MSONPropertyMemberParser.h  | 15 +++++++++
 .../src/snowcrash/MSONValueMemberParser.cc    | 31 -------------------
 .../src/snowcrash/MSONValueMemberParser.h     | 16 ++++++++++
 3 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/MSONPropertyMemberParser.h b/packages/apib-parser/src/snowcrash/MSONPropertyMemberParser.h
index 7342cd0..505a191 100644
--- a/packages/apib-parser/src/snowcrash/MSONPropertyMemberParser.h
+++ b/packages/apib-parser/src/snowcrash/MSONPropertyMemberParser.h
@@ -104,6 +104,21 @@ namespace snowcrash
 
             SectionProcessor<mson::ValueMember>::finalizeImplicitBaseType(
                 out.node.valueDefinition.typeDefinition.baseType);
+
+            if ((out.node.valueDefinition.typeDefinition.baseType == mson::ImplicitObjectBaseType
+                    || out.node.valueDefinition.typeDefinition.baseType == mson::ObjectBaseType)
+                && !out.node.valueDefinition.values.empty()) {
+                // WARN: object definition contain value
+                // e.g
+                // - key: value (object)
+                mdp::CharactersRangeSet sourceMap
+                    = mdp::BytesRangeSetToCharactersRangeSet(node->sourceMap, pd.sourceCharacterIndex);
+                out.report.warnings.push_back(
+                    Warning("'object' with value definition. You should use type definition without value eg. '- "
+                            "key (object)'",
+                        LogicalErrorWarning,
+                        sourceMap));
+            }
         }
     };
 
diff --git a/packages/apib-parser/src/snowcrash/MSONValueMemberParser.cc b/packages/apib-parser/src/snowcrash/MSONValueMemberParser.cc
index cfab1c8..51245e4 100644
--- a/packages/apib-parser/src/snowcrash/MSONValueMemberParser.cc
+++ b/packages/apib-parser/src/snowcrash/MSONValueMemberParser.cc
@@ -139,22 +139,6 @@ namespace snowcrash
 
                 element = valueMember.node;
 
-                if ((valueMember.node.valueDefinition.typeDefinition.baseType == mson::ImplicitObjectBaseType
-                        || valueMember.node.valueDefinition.typeDefinition.baseType == mson::ObjectBaseType)
-                    && !valueMember.node.valueDefinition.values.empty()) {
-                    // WARN: object definition contain value
-                    // e.g
-                    // - a (array)
-                    //   - key (object)
-                    mdp::CharactersRangeSet sourceMap
-                        = mdp::BytesRangeSetToCharactersRangeSet(node->sourceMap, pd.sourceCharacterIndex);
-                    sections.report.warnings.push_back(
-                        Warning("array member definition of type 'object' contains value. You should use type "
-                                "definition without value eg. '- (object)'",
-                            LogicalErrorWarning,
-                            sourceMap));
-                }
-
                 if (pd.exportSourceMap()) {
                     elementSM.value = valueMember.sourceMap;
                 }
@@ -166,21 +150,6 @@ namespace snowcrash
 
                 element = propertyMember.node;
 
-                if ((propertyMember.node.valueDefinition.typeDefinition.baseType == mson::ImplicitObjectBaseType
-                        || propertyMember.node.valueDefinition.typeDefinition.baseType == mson::ObjectBaseType)
-                    && !propertyMember.node.valueDefinition.values.empty()) {
-                    // WARN: object definition contain value
-                    // e.g
-                    // - key: value (object)
-                    mdp::CharactersRangeSet sourceMap
-                        = mdp::BytesRangeSetToCharactersRangeSet(node->sourceMap, pd.sourceCharacterIndex);
-                    sections.report.warnings.push_back(
-                        Warning("'object' with value definition. You should use type definition without value eg. '- "
-                                "key (object)'",
-                            LogicalErrorWarning,
-                            sourceMap));
-                }
-
                 if (pd.exportSourceMap()) {
                     elementSM.property = propertyMember.sourceMap;
                 }
diff --git a/packages/apib-parser/src/snowcrash/MSONValueMemberParser.h b/packages/apib-parser/src/snowcrash/MSONValueMemberParser.h
index 6dd0c02..9f36a6a 100644
--- a/packages/apib-parser/src/snowcrash/MSONValueMemberParser.h
+++ b/packages/apib-parser/src/snowcrash/MSONValueMemberParser.h
@@ -107,6 +107,22 @@ namespace snowcrash
 
             SectionProcessor<mson::ValueMember>::finalizeImplicitBaseType(
                 out.node.valueDefinition.typeDefinition.baseType);
+
+            if ((out.node.valueDefinition.typeDefinition.baseType == mson::ImplicitObjectBaseType
+                    || out.node.valueDefinition.typeDefinition.baseType == mson::ObjectBaseType)
+                && !out.node.valueDefinition.values.empty()) {
+                // WARN: object definition contain value
+                // e.g
+                // - a (array)
+                //   - key (object)
+                mdp::CharactersRangeSet sourceMap
+                    = mdp::BytesRangeSetToCharactersRangeSet(node->sourceMap, pd.sourceCharacterIndex);
+                out.report.warnings.push_back(
+                    Warning("array member definition of type 'object' contains value. You should use type "
+                            "definition without value eg. '- (object)'",
+                        LogicalErrorWarning,
+                        sourceMap));
+            }
         }
 
         /**
-- 
2.43.0


From b4e2eced5e8702f4a98c16456a185e71aa483bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:13 +0000
Subject: [PATCH 44/48] fix: leave the output file alone when validating

---
 packages/drafter/src/main.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/main.cc b/packages/drafter/src/main.cc
index 55071f1..b09e1eb 100644
--- a/packages/drafter/src/main.cc
+++ b/packages/drafter/src/main.cc
@@ -73,7 +73,9 @@ int main(int argc, const char* argv[])
     ParseCommadLineOptions(argc, argv, config);
 
     std::unique_ptr<std::istream> in(CreateStreamFromName<std::istream>(config.input));
-    std::unique_ptr<std::ostream> out(CreateStreamFromName<std::ostream>(config.output));
+    // the output file is not created when validating
+    std::unique_ptr<std::ostream> out(
+        CreateStreamFromName<std::ostream>(config.validate ? std::string() : config.output));
 
     return ProcessRefract(config, in, out);
 }
-- 
2.43.0


From e89cc337046977506b1140fded33626f7063fa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:15 +0000
Subject: [PATCH 45/48] fix: give a payload that refers to a model the
 attributes of the model

---
 packages/apib-parser/src/snowcrash/PayloadParser.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/apib-parser/src/snowcrash/PayloadParser.h b/packages/apib-parser/src/snowcrash/PayloadParser.h
index a609d2d..bce30e4 100644
--- a/packages/apib-parser/src/snowcrash/PayloadParser.h
+++ b/packages/apib-parser/src/snowcrash/PayloadParser.h
@@ -584,6 +584,7 @@ namespace snowcrash
                 out.node.headers = model.headers;
             }
 
+            out.node.attributes = model.attributes;
             out.node.body = model.body;
             out.node.schema = model.schema;
 
@@ -593,6 +594,7 @@ namespace snowcrash
 
                 out.sourceMap.description = modelSM.description;
                 out.sourceMap.parameters = modelSM.parameters;
+                out.sourceMap.attributes = modelSM.attributes;
                 out.sourceMap.body = modelSM.body;
                 out.sourceMap.schema = modelSM.schema;
 
-- 
2.43.0


From dce412c2327077b8117d287b68c3cf7bf5558a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:52 +0000
Subject: [PATCH 46/48] fix: keep the indentation of code blocks in
 descriptions

---
 .../src/snowcrash/MSONValueMemberParser.h            |  2 +-
 .../apib-parser/src/snowcrash/ResourceGroupParser.h  |  2 +-
 .../apib-parser/src/snowcrash/SectionProcessor.h     | 12 +++++++++++-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/MSONValueMemberParser.h b/packages/apib-parser/src/snowcrash/MSONValueMemberParser.h
index 9f36a6a..78b9dce 100644
--- a/packages/apib-parser/src/snowcrash/MSONValueMemberParser.h
+++ b/packages/apib-parser/src/snowcrash/MSONValueMemberParser.h
@@ -276,7 +276,7 @@ namespace snowcrash
                 }
 
                 mdp::ByteBuffer content = mdp::MapBytesRangeSet(node->sourceMap, pd.sourceData);
-                TrimString(content);
+                TrimDescription(node, content);
 
                 sections[0].content.description += content;
 
diff --git a/packages/apib-parser/src/snowcrash/ResourceGroupParser.h b/packages/apib-parser/src/snowcrash/ResourceGroupParser.h
index 31ce98a..5bd36d2 100644
--- a/packages/apib-parser/src/snowcrash/ResourceGroupParser.h
+++ b/packages/apib-parser/src/snowcrash/ResourceGroupParser.h
@@ -86,7 +86,7 @@ namespace snowcrash
             }
 
             mdp::ByteBuffer content = mdp::MapBytesRangeSet(node->sourceMap, pd.sourceData);
-            TrimString(content);
+            TrimDescription(node, content);
 
             if (pd.exportSourceMap() && !content.empty()) {
                 out.sourceMap.content.elements().collection.back().content.copy.sourceMap.append(node->sourceMap);
diff --git a/packages/apib-parser/src/snowcrash/SectionProcessor.h b/packages/apib-parser/src/snowcrash/SectionProcessor.h
index caeec8d..9357a63 100644
--- a/packages/apib-parser/src/snowcrash/SectionProcessor.h
+++ b/packages/apib-parser/src/snowcrash/SectionProcessor.h
@@ -37,6 +37,16 @@ namespace snowcrash
 
     typedef Collection<SectionType>::type SectionTypes;
 
+    /** Trim the source of a description's Markdown node, but keep the indentation which makes it a code block */
+    inline void TrimDescription(const MarkdownNodeIterator& node, mdp::ByteBuffer& content)
+    {
+        if (node->type == mdp::CodeMarkdownNodeType) {
+            TrimStringEnd(content);
+        } else {
+            TrimString(content);
+        }
+    }
+
     /**
      *  Layout of the section being parsed
      */
@@ -163,7 +173,7 @@ namespace snowcrash
                 out.sourceMap.description.sourceMap.append(node->sourceMap);
             }
 
-            TrimString(content);
+            TrimDescription(node, content);
             out.node.description += content;
 
             return ++MarkdownNodeIterator(node);
-- 
2.43.0


From f5ed8f17488348a1a6512fdb2a81033e91198ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:13 +0000
Subject: [PATCH 47/48] fix: report whole characters after the percent sign of
 a URI template

---
 packages/apib-parser/src/snowcrash/UriTemplateParser.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/UriTemplateParser.cc b/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
index 9ac489d..255fb18 100644
--- a/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
+++ b/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
@@ -36,8 +36,8 @@ namespace error_locator
      */
     struct pct_triplet : pegtl::seq<
                                    pegtl::one<'%'>,
-                                   pegtl::any,
-                                   pegtl::any
+                                   pegtl::utf8::any,
+                                   pegtl::utf8::any
                                  > {};
 
     struct continuous_dots : pegtl::seq<
-- 
2.43.0


From 011bf1ffaadc52ff5393357b4f53f838b695b149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:40 +0000
Subject: [PATCH 48/48] fix: ignore an additional body or schema of a payload
 as its warning says

---
 packages/apib-parser/src/snowcrash/PayloadParser.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/packages/apib-parser/src/snowcrash/PayloadParser.h b/packages/apib-parser/src/snowcrash/PayloadParser.h
index bce30e4..a7aaada 100644
--- a/packages/apib-parser/src/snowcrash/PayloadParser.h
+++ b/packages/apib-parser/src/snowcrash/PayloadParser.h
@@ -188,6 +188,11 @@ namespace snowcrash
                             Warning("ignoring additional 'body' content, it is already defined",
                                 RedefinitionWarning,
                                 sourceMap));
+
+                        Asset ignored;
+                        SourceMap<Asset> ignoredSM;
+                        ParseResultRef<Asset> asset(out.report, ignored, ignoredSM);
+                        return AssetParser::parse(node, siblings, pd, asset);
                     }
 
                     ParseResultRef<Asset> asset(out.report, out.node.body, out.sourceMap.body);
@@ -203,6 +208,11 @@ namespace snowcrash
                             Warning("ignoring additional 'schema' content, it is already defined",
                                 RedefinitionWarning,
                                 sourceMap));
+
+                        Asset ignored;
+                        SourceMap<Asset> ignoredSM;
+                        ParseResultRef<Asset> asset(out.report, ignored, ignoredSM);
+                        return AssetParser::parse(node, siblings, pd, asset);
                     }
 
                     ParseResultRef<Asset> asset(out.report, out.node.schema, out.sourceMap.schema);
-- 
2.43.0

