From 637e3abbb74841ca7fa8815b0c876a6ef009f940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 01/20] fix: parse the last line of a .po file only once

At end of file getline() leaves current_line alone when the file lacks a
final newline, so the last line was read over and over (endless loop) or
reported as 'expected empty line'.
---
 src/po_parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index ff56796..44721e7 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -89,7 +89,10 @@ POParser::next_line()
 {
   line_number += 1;
   if (!std::getline(in, current_line))
+  {
+    current_line.clear(); // don't let the last line be parsed again
     eof = true;
+  }
 }
 
 void
-- 
2.43.0


From 97fc406a79b167a5e5e986a7e3ad12659e17824b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:22 +0000
Subject: [PATCH 02/20] fix: don't lose the entry after an incomplete one

When the error was found on the blank line behind the broken entry, the
recovery skipped that line and swallowed the next, good, entry.
---
 src/po_parser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index 44721e7..1a73d5e 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -77,9 +77,8 @@ POParser::error(const std::string& msg)
   log_error << filename << ":" << line_number << ": error: " << msg  << ": " << current_line << std::endl;
 
   // Try to recover from an error by searching for start of another entry
-  do
+  while(!eof && !is_empty_line())
     next_line();
-  while(!eof && !is_empty_line());
 
   throw POParserError();
 }
-- 
2.43.0


From f565a419a78e09b859fa94fbcce9af68a561aff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 03/20] fix: honour the last header line without trailing
 newline

Content-Type or Plural-Forms were ignored when they were the last line of
the header and not followed by \n.
---
 src/po_parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index 1a73d5e..0ae2890 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -240,9 +240,9 @@ POParser::parse_header(const std::string& header)
 {
   std::string from_charset;
   std::string::size_type start = 0;
-  for(std::string::size_type i = 0; i < header.length(); ++i)
+  for(std::string::size_type i = 0; i <= header.length(); ++i)
   {
-    if (header[i] == '\n')
+    if (i == header.length() || header[i] == '\n')
     {
       std::string line = header.substr(start, i - start);
 
-- 
2.43.0


From 7c0f9493a09e41a981200cab965dfb568bd2a2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 04/20] fix: convert catalogs without a header entry

Such catalogs were copied into the dictionary without any conversion,
whatever the charset of the dictionary. Treat them as UTF-8 like catalogs
whose header names no charset.
---
 src/po_parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index 0ae2890..810356e 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -344,6 +344,9 @@ POParser::parse()
     current_line = current_line.substr(3);
   }
 
+  // a catalog without header has no charset either, thus fallback to utf-8
+  conv.set_charsets("UTF-8", dict.get_charset());
+
   // Parser structure
   while(!eof)
   {
-- 
2.43.0


From 00d2f95890bda1ebeabc5c5a5270e0a7f8371e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 05/20] fix: Latvian has three plural forms

---
 src/plural_forms.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plural_forms.cpp b/src/plural_forms.cpp
index ec3b6a6..05fe68f 100644
--- a/src/plural_forms.cpp
+++ b/src/plural_forms.cpp
@@ -76,7 +76,7 @@ PluralForms::from_string(const std::string& str)
     plural_forms["Plural-Forms:nplurals=2;plural=(n>1);"] = PluralForms(2, plural2_2);
     plural_forms["Plural-Forms:nplurals=2;plural=n==1||n%10==1?0:1;"] = PluralForms(2, plural2_mk);
     plural_forms["Plural-Forms:nplurals=2;plural=(n%10==1&&n%100!=11)?0:1;"] = PluralForms(2, plural2_mk_2);
-    plural_forms["Plural-Forms:nplurals=3;plural=n%10==1&&n%100!=11?0:n!=0?1:2);"] = PluralForms(2, plural3_lv);
+    plural_forms["Plural-Forms:nplurals=3;plural=n%10==1&&n%100!=11?0:n!=0?1:2);"] = PluralForms(3, plural3_lv);
     plural_forms["Plural-Forms:nplurals=3;plural=n==1?0:n==2?1:2;"] = PluralForms(3, plural3_ga);
     plural_forms["Plural-Forms:nplurals=3;plural=(n%10==1&&n%100!=11?0:n%10>=2&&(n%100<10||n%100>=20)?1:2);"] = PluralForms(3, plural3_lt);
     plural_forms["Plural-Forms:nplurals=3;plural=(n%10==1&&n%100!=11?0:n%10>=2&&n%10<=4&&(n%100<10||n%100>=20)?1:2);"] = PluralForms(3, plural3_1);
-- 
2.43.0


From bf8dabecc6a58b3e7f05ca9d24e85b7dbc7666f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 06/20] fix: keep IConv usable after a failed set_charsets()

The invalid descriptor (iconv_t)-1 was kept, used by later convert() calls
(failed assertion) and closed.
---
 src/iconv.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iconv.cpp b/src/iconv.cpp
index ba110d7..695f404 100644
--- a/src/iconv.cpp
+++ b/src/iconv.cpp
@@ -55,6 +55,7 @@ IConv::set_charsets(const std::string& from_charset_, const std::string& to_char
 {
   if (cd)
     tinygettext::iconv_close(cd);
+  cd = nullptr;
 
   from_charset = from_charset_;
   to_charset   = to_charset_;
@@ -74,6 +75,7 @@ IConv::set_charsets(const std::string& from_charset_, const std::string& to_char
     cd = tinygettext::iconv_open(to_charset.c_str(), from_charset.c_str());
     if (cd == reinterpret_cast<iconv_t>(-1))
     {
+      cd = nullptr; // never use or close an invalid descriptor
       if(errno == EINVAL)
       {
         std::ostringstream str;
-- 
2.43.0


From 0fb6dee75dc9885eb0f7c3ac47601cd580cdb6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 07/20] fix: complete, self-contained results from
 IConv::convert()

The output buffer of four bytes per input byte is too small for some
conversions (UTF-32 with BOM, UTF-7, transliteration), which ended in a
failed assertion. And the shift state was not closed, so that text in
stateful charsets (ISO-2022-JP) was incomplete and the next string
continued in the state of the previous one (or lacked the BOM).
---
 src/iconv.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/iconv.cpp b/src/iconv.cpp
index 695f404..c35e90d 100644
--- a/src/iconv.cpp
+++ b/src/iconv.cpp
@@ -93,6 +93,16 @@ IConv::set_charsets(const std::string& from_charset_, const std::string& to_char
   }
 }
 
+/// Make more room at the end of the output buffer
+static void
+enlarge(std::string& result, char*& outbuf, size_t& outbytesleft)
+{
+  size_t used = result.size() - outbytesleft;
+  result.resize(2*result.size() + 16, 'X');
+  outbuf = &result[used];
+  outbytesleft = result.size() - used;
+}
+
 /// Convert a string from encoding to another.
 std::string
 IConv::convert(const std::string& text)
@@ -114,12 +124,15 @@ IConv::convert(const std::string& text)
 
     // Try to convert the text.
     size_t ret = tinygettext::iconv(cd, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
+    while (ret == static_cast<size_t>(-1) && errno == E2BIG)
+    { // a character can need more than four bytes (e.g. BOM, shift sequences)
+      enlarge(result, outbuf, outbytesleft);
+      ret = tinygettext::iconv(cd, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
+    }
     if (ret == static_cast<size_t>(-1))
     {
       if (errno == EILSEQ || errno == EINVAL)
       { // invalid multibyte sequence
-        tinygettext::iconv(cd, nullptr, nullptr, nullptr, nullptr); // reset state
-
         // FIXME: Could try to skip the invalid byte and continue
         log_error << "error: tinygettext:iconv: invalid multibyte sequence in:  \"" << text << "\"" << std::endl;
       }
@@ -137,7 +150,11 @@ IConv::convert(const std::string& text)
       }
     }
 
-    result.resize(4*text.size() - outbytesleft);
+    // complete the text and return to the initial state for the next one
+    while (tinygettext::iconv(cd, nullptr, nullptr, &outbuf, &outbytesleft) == static_cast<size_t>(-1) && errno == E2BIG)
+      enlarge(result, outbuf, outbytesleft);
+
+    result.resize(result.size() - outbytesleft);
 
     return result;
   }
-- 
2.43.0


From abac258e7789d69f45c6b5f2eab427801e90ba21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 08/20] fix: use the fallback dictionary for plural and context
 lookups

Only plain translate() asked the fallback. Plural, context and
context-plural lookups ended in the regional dictionary, and a context
lookup that missed inside an existing context was answered by a message
without context from the fallback.
---
 include/tinygettext/dictionary.hpp |  5 +++--
 src/dictionary.cpp                 | 21 +++++++++++++++------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/include/tinygettext/dictionary.hpp b/include/tinygettext/dictionary.hpp
index 958f4a3..8d85565 100644
--- a/include/tinygettext/dictionary.hpp
+++ b/include/tinygettext/dictionary.hpp
@@ -43,8 +43,9 @@ private:
   std::string charset;
   PluralForms plural_forms;
 
-  std::string translate(const Entries& dict, const std::string& msgid) const;
-  std::string translate_plural(const Entries& dict, const std::string& msgid, const std::string& msgidplural, int num) const;
+  /** \a msgctxt is the context \a dict belongs to, nullptr if none */
+  std::string translate(const Entries& dict, const std::string* msgctxt, const std::string& msgid) const;
+  std::string translate_plural(const Entries& dict, const std::string* msgctxt, const std::string& msgid, const std::string& msgidplural, int num) const;
 
   bool m_has_fallback;
   Dictionary* m_fallback;
diff --git a/src/dictionary.cpp b/src/dictionary.cpp
index b61d215..db4c62c 100644
--- a/src/dictionary.cpp
+++ b/src/dictionary.cpp
@@ -74,11 +74,11 @@ Dictionary::get_plural_forms() const
 std::string
 Dictionary::translate_plural(const std::string& msgid, const std::string& msgid_plural, int num) const
 {
-  return translate_plural(entries, msgid, msgid_plural, num);
+  return translate_plural(entries, nullptr, msgid, msgid_plural, num);
 }
 
 std::string
-Dictionary::translate_plural(const Entries& dict, const std::string& msgid, const std::string& msgid_plural, int count) const
+Dictionary::translate_plural(const Entries& dict, const std::string* msgctxt, const std::string& msgid, const std::string& msgid_plural, int count) const
 {
   Entries::const_iterator it = dict.find(msgid);
   if (it != dict.end())
@@ -107,6 +107,12 @@ Dictionary::translate_plural(const Entries& dict, const std::string& msgid, cons
     for (it = dict.begin(); it != dict.end(); ++it)
       log_info << "'" << it->first << "'" << std::endl;
 
+    if (m_has_fallback)
+    {
+      if (msgctxt) return m_fallback->translate_ctxt_plural(*msgctxt, msgid, msgid_plural, count);
+      else return m_fallback->translate_plural(msgid, msgid_plural, count);
+    }
+
     if (count == 1) // default to english rules
       return msgid;
     else
@@ -117,11 +123,11 @@ Dictionary::translate_plural(const Entries& dict, const std::string& msgid, cons
 std::string
 Dictionary::translate(const std::string& msgid) const
 {
-  return translate(entries, msgid);
+  return translate(entries, nullptr, msgid);
 }
 
 std::string
-Dictionary::translate(const Entries& dict, const std::string& msgid) const
+Dictionary::translate(const Entries& dict, const std::string* msgctxt, const std::string& msgid) const
 {
   Entries::const_iterator i = dict.find(msgid);
   if (i != dict.end() && !i->second.empty())
@@ -132,6 +138,7 @@ Dictionary::translate(const Entries& dict, const std::string& msgid) const
   {
     log_info << "Couldn't translate: " << msgid << std::endl;
 
+    if (m_has_fallback && msgctxt) return m_fallback->translate_ctxt(*msgctxt, msgid);
     if (m_has_fallback) return m_fallback->translate(msgid);
     else return msgid;
   }
@@ -143,11 +150,12 @@ Dictionary::translate_ctxt(const std::string& msgctxt, const std::string& msgid)
   CtxtEntries::const_iterator i = ctxt_entries.find(msgctxt);
   if (i != ctxt_entries.end())
   {
-    return translate(i->second, msgid);
+    return translate(i->second, &msgctxt, msgid);
   }
   else
   {
     log_info << "Couldn't translate: " << msgid << std::endl;
+    if (m_has_fallback) return m_fallback->translate_ctxt(msgctxt, msgid);
     return msgid;
   }
 }
@@ -159,11 +167,12 @@ Dictionary::translate_ctxt_plural(const std::string& msgctxt,
   CtxtEntries::const_iterator i = ctxt_entries.find(msgctxt);
   if (i != ctxt_entries.end())
   {
-    return translate_plural(i->second, msgid, msgidplural, num);
+    return translate_plural(i->second, &msgctxt, msgid, msgidplural, num);
   }
   else
   {
     log_info << "Couldn't translate: " << msgid << std::endl;
+    if (m_has_fallback) return m_fallback->translate_ctxt_plural(msgctxt, msgid, msgidplural, num);
     if (num != 1) // default to english
       return msgidplural;
     else
-- 
2.43.0


From 849c659d26b85fef175034e10eb07c72a4a625df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 09/20] fix: accept names shorter than three characters in
 convertFilename2Language()

---
 src/dictionary_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index 6175d76..e83e7c6 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -271,7 +271,7 @@ DictionaryManager::remove_directory(const std::string& pathname)
 std::string DictionaryManager::convertFilename2Language(const std::string &s_in) const
 {
     std::string s;
-    if(s_in.substr(s_in.size()-3, 3)==".po")
+    if(has_suffix(s_in, ".po"))
         s = s_in.substr(0, s_in.size()-3);
     else
         s = s_in;
-- 
2.43.0


From 6a79f6e4c9e5f3c34c3b5f283ef21e71fb7c5ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 10/20] fix: get_languages() lists exactly the languages that
 can be loaded

---
 src/dictionary_manager.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index e83e7c6..29fc4ea 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -195,7 +195,12 @@ DictionaryManager::get_languages()
     {
       if (has_suffix(*file, ".po"))
       {
-        languages.insert(Language::from_env(file->substr(0, file->size()-3)));
+        // use the same rules as get_dictionary() to find the language
+        Language language = Language::from_env(convertFilename2Language(*file));
+        if (language)
+        {
+          languages.insert(language);
+        }
       }
     }
   }
-- 
2.43.0


From 017da06c9ca12d45d5884fa4afdb33cd8b9fcc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 11/20] fix: report catalogs that cannot be opened

---
 src/dictionary_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index 29fc4ea..6e8a152 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -156,7 +156,7 @@ DictionaryManager::get_dictionary(const Language& language)
         try
         {
           std::unique_ptr<std::istream> in = filesystem->open_file(pofile);
-          if (!in)
+          if (!in || !*in)
           {
             log_error << "error: failure opening: " << pofile << std::endl;
           }
-- 
2.43.0


From ef2bf48969129213a84c88c5e02371d3b9ec8837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 12/20] fix: report catalogs that fail while being read

---
 src/po_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index 810356e..b81a0b6 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -23,6 +23,7 @@
 #include <ctype.h>
 #include <string>
 #include <istream>
+#include <stdexcept>
 #include <string.h>
 #include <unordered_map>
 #include <stdlib.h>
@@ -89,6 +90,9 @@ POParser::next_line()
   line_number += 1;
   if (!std::getline(in, current_line))
   {
+    if (in.bad())
+      throw std::runtime_error(filename + ": failure reading file");
+
     current_line.clear(); // don't let the last line be parsed again
     eof = true;
   }
-- 
2.43.0


From 88edb49b82001b2e78731ae2c21e1f7b9aba7bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:02 +0000
Subject: [PATCH 13/20] fix: never keep a dictionary whose loading was
 interrupted

---
 src/dictionary_manager.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index 6e8a152..296da51 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -114,9 +114,7 @@ DictionaryManager::get_dictionary(const Language& language)
   else // Dictionary for languages lang isn't loaded, so we load it
   {
     //log_debug << "get_dictionary: " << lang << std::endl;
-    Dictionary* dict = new Dictionary(charset);
-
-    dictionaries[language] = dict;
+    std::unique_ptr<Dictionary> dict(new Dictionary(charset));
 
     for (SearchPath::reverse_iterator p = search_path.rbegin(); p != search_path.rend(); ++p)
     {
@@ -178,7 +176,11 @@ DictionaryManager::get_dictionary(const Language& language)
         // printf("Adding language fallback %s\n", language.get_language().c_str());
         dict->addFallback( &get_dictionary(Language::from_spec(language.get_language())) );
     }
-    return *dict;
+
+    // only keep the dictionary once it is complete
+    Dictionary*& entry = dictionaries[language];
+    entry = dict.release();
+    return *entry;
   }
 }
 
-- 
2.43.0


From 135b727d27ebae03e9ecc906a8efbf152fb37763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 14/20] fix: don't take a part of codeset or modifier for the
 country

---
 src/language.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/language.cpp b/src/language.cpp
index e672915..8767652 100644
--- a/src/language.cpp
+++ b/src/language.cpp
@@ -431,6 +431,9 @@ Language::from_env(const std::string& env)
   std::string::size_type dt = env.find('.');
   std::string::size_type at = env.find('@');
 
+  if (ln != std::string::npos && ln > std::min(dt, at))
+    ln = std::string::npos; // '_' is part of the codeset or modifier
+
   std::string language;
   std::string country;
   std::string codeset;
-- 
2.43.0


From fa4686e0225ba823e537299689db9770bda869d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 15/20] fix: thread-safe initialisation of the language and
 plural form tables

---
 src/language.cpp     | 31 ++++++++++++++++---------------
 src/plural_forms.cpp | 13 +++++++------
 2 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/language.cpp b/src/language.cpp
index 8767652..3d42672 100644
--- a/src/language.cpp
+++ b/src/language.cpp
@@ -297,9 +297,9 @@ std::string
 resolve_language_alias(const std::string& name)
 {
   typedef std::unordered_map<std::string, std::string> Aliases;
-  static Aliases language_aliases;
-  if (language_aliases.empty())
-  {
+  static const Aliases known_aliases = []{
+    Aliases language_aliases;
+
     // FIXME: Many of those are not useful for us, since we leave
     // encoding to the app, not to the language, we could/should
     // also match against all language names, not just aliases from
@@ -353,15 +353,17 @@ resolve_language_alias(const std::string& name)
     language_aliases["swedish"]          = "sv_SE.ISO-8859-1";
     language_aliases["thai"]             = "th_TH.TIS-620";
     language_aliases["turkish"]          = "tr_TR.ISO-8859-9";
-  }
+
+    return language_aliases;
+  }();
 
   std::string name_lowercase;
   name_lowercase.resize(name.size());
   for(std::string::size_type i = 0; i < name.size(); ++i)
     name_lowercase[i] = static_cast<char>(tolower(name[i]));
 
-  Aliases::iterator i = language_aliases.find(name_lowercase);
-  if (i != language_aliases.end())
+  Aliases::const_iterator i = known_aliases.find(name_lowercase);
+  if (i != known_aliases.end())
   {
     return i->second;
   }
@@ -377,18 +379,17 @@ Language
 Language::from_spec(const std::string& language, const std::string& country, const std::string& modifier)
 {
   typedef std::unordered_map<std::string, std::vector<const LanguageSpec*> > LanguageSpecMap;
-  static LanguageSpecMap language_map;
-
-  if (language_map.empty())
-  { // Init language_map
+  static const LanguageSpecMap language_specs = []{
+    LanguageSpecMap language_map;
     for(int i = 0; languages[i].language != nullptr; ++i)
       language_map[languages[i].language].push_back(&languages[i]);
-  }
+    return language_map;
+  }();
 
-  LanguageSpecMap::iterator i = language_map.find(language);
-  if (i != language_map.end())
+  LanguageSpecMap::const_iterator i = language_specs.find(language);
+  if (i != language_specs.end())
   {
-    std::vector<const LanguageSpec*>& lst = i->second;
+    const std::vector<const LanguageSpec*>& lst = i->second;
 
     LanguageSpec tmpspec;
     tmpspec.language = language.c_str();
@@ -398,7 +399,7 @@ Language::from_spec(const std::string& language, const std::string& country, con
 
     const LanguageSpec* best_match = nullptr;
     int best_match_score = 0;
-    for(std::vector<const LanguageSpec*>::iterator j = lst.begin(); j != lst.end(); ++j)
+    for(std::vector<const LanguageSpec*>::const_iterator j = lst.begin(); j != lst.end(); ++j)
     { // Search for the language that best matches the given spec, value country more then modifier
       int score = Language::match(Language(*j), tmplang);
 
diff --git a/src/plural_forms.cpp b/src/plural_forms.cpp
index 05fe68f..1a8a9b6 100644
--- a/src/plural_forms.cpp
+++ b/src/plural_forms.cpp
@@ -65,10 +65,9 @@ PluralForms
 PluralForms::from_string(const std::string& str)
 {
   typedef std::unordered_map<std::string, PluralForms> PluralFormsMap;
-  static PluralFormsMap plural_forms;
+  static const PluralFormsMap known_plural_forms = []{
+    PluralFormsMap plural_forms;
 
-  if (plural_forms.empty())
-  {
     // Note that the plural forms here shouldn't contain any spaces
     plural_forms["Plural-Forms:nplurals=1;plural=0;"] = PluralForms(1, plural1);
     plural_forms["Plural-Forms:nplurals=2;plural=(n!=1);"] = PluralForms(2, plural2_1);
@@ -95,7 +94,9 @@ PluralForms::from_string(const std::string& str)
     plural_forms["Plural-Forms:nplurals=4;plural=(n==1&&n%1==0)?0:(n==2&&n%1==0)?1:(n%10==0&&n%1==0&&n>10)?2:3;"] = PluralForms(4, plural4_he);
     plural_forms["Plural-Forms:nplurals=5;plural=(n==1?0:n==2?1:n<7?2:n<11?3:4)"] = PluralForms(5, plural5_ga);
     plural_forms["Plural-Forms:nplurals=6;plural=n==0?0:n==1?1:n==2?2:n%100>=3&&n%100<=10?3:n%100>=11?4:5"]=PluralForms(6, plural6_ar);
-  }
+
+    return plural_forms;
+  }();
 
   // Remove spaces from string before lookup
   std::string space_less_str;
@@ -103,8 +104,8 @@ PluralForms::from_string(const std::string& str)
     if (!isspace(str[i]))
       space_less_str += str[i];
 
-  PluralFormsMap::const_iterator it= plural_forms.find(space_less_str);
-  if (it != plural_forms.end())
+  PluralFormsMap::const_iterator it= known_plural_forms.find(space_less_str);
+  if (it != known_plural_forms.end())
   {
     return it->second;
   }
-- 
2.43.0


From ced46a3a6a8739bb17cb8f1715c9e19956a7de55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:58 +0000
Subject: [PATCH 16/20] fix: don't let the process locale decide about ASCII
 text

---
 src/ascii.hpp              | 25 +++++++++++++++++++++++++
 src/dictionary_manager.cpp |  5 +++--
 src/iconv.cpp              |  6 +++---
 src/language.cpp           |  3 ++-
 src/plural_forms.cpp       |  3 ++-
 src/po_parser.cpp          | 13 +++++++------
 6 files changed, 42 insertions(+), 13 deletions(-)
 create mode 100644 src/ascii.hpp

diff --git a/src/ascii.hpp b/src/ascii.hpp
new file mode 100644
index 0000000..70ee6c0
--- /dev/null
+++ b/src/ascii.hpp
@@ -0,0 +1,25 @@
+// tinygettext - A gettext replacement that works directly on .po files
+//
+// This software is provided 'as-is', without any express or implied
+// warranty. In no event will the authors be held liable for any damages
+// arising from the use of this software.
+
+#ifndef HEADER_TINYGETTEXT_ASCII_HPP
+#define HEADER_TINYGETTEXT_ASCII_HPP
+
+namespace tinygettext {
+
+/** Replacements for the functions of <ctype.h> which don't depend on
+    the current locale */
+inline bool ascii_isspace(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
+inline bool ascii_isupper(char c) { return c >= 'A' && c <= 'Z'; }
+inline bool ascii_islower(char c) { return c >= 'a' && c <= 'z'; }
+inline bool ascii_isalpha(char c) { return ascii_isupper(c) || ascii_islower(c); }
+inline char ascii_toupper(char c) { return ascii_islower(c) ? static_cast<char>(c - 'a' + 'A') : c; }
+inline char ascii_tolower(char c) { return ascii_isupper(c) ? static_cast<char>(c - 'A' + 'a') : c; }
+
+} // namespace tinygettext
+
+#endif
+
+/* EOF */
diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index 296da51..fee6172 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -30,6 +30,7 @@
 #include "tinygettext/log_stream.hpp"
 #include "tinygettext/po_parser.hpp"
 #include "tinygettext/unix_file_system.hpp"
+#include "ascii.hpp"
 
 namespace tinygettext {
 
@@ -292,9 +293,9 @@ std::string DictionaryManager::convertFilename2Language(const std::string &s_in)
             // we are done (en_GB.UTF-8) - only convert
             // the 'gb' part ... if we ever get this kind
             // of filename.
-            if(!::isalpha(s[i]))
+            if(!ascii_isalpha(s[i]))
                 break;
-            s[i] = static_cast<char>(::toupper(s[i]));
+            s[i] = ascii_toupper(s[i]);
         }
         else
             underscore_found = s[i]=='_';
diff --git a/src/iconv.cpp b/src/iconv.cpp
index c35e90d..b0965fb 100644
--- a/src/iconv.cpp
+++ b/src/iconv.cpp
@@ -17,7 +17,6 @@
 //    misrepresented as being the original software.
 // 3. This notice may not be removed or altered from any source distribution.
 
-#include <ctype.h>
 #include <assert.h>
 #include <sstream>
 #include <errno.h>
@@ -27,6 +26,7 @@
 
 #include "tinygettext/iconv.hpp"
 #include "tinygettext/log_stream.hpp"
+#include "ascii.hpp"
 
 namespace tinygettext {
 
@@ -61,10 +61,10 @@ IConv::set_charsets(const std::string& from_charset_, const std::string& to_char
   to_charset   = to_charset_;
 
   for(std::string::iterator i = to_charset.begin(); i != to_charset.end(); ++i)
-    *i = static_cast<char>(toupper(*i));
+    *i = ascii_toupper(*i);
 
   for(std::string::iterator i = from_charset.begin(); i != from_charset.end(); ++i)
-    *i = static_cast<char>(toupper(*i));
+    *i = ascii_toupper(*i);
 
   if (to_charset == from_charset)
   {
diff --git a/src/language.cpp b/src/language.cpp
index 3d42672..4594813 100644
--- a/src/language.cpp
+++ b/src/language.cpp
@@ -18,6 +18,7 @@
 // 3. This notice may not be removed or altered from any source distribution.
 
 #include "tinygettext/language.hpp"
+#include "ascii.hpp"
 
 #include <assert.h>
 #include <unordered_map>
@@ -360,7 +361,7 @@ resolve_language_alias(const std::string& name)
   std::string name_lowercase;
   name_lowercase.resize(name.size());
   for(std::string::size_type i = 0; i < name.size(); ++i)
-    name_lowercase[i] = static_cast<char>(tolower(name[i]));
+    name_lowercase[i] = ascii_tolower(name[i]);
 
   Aliases::const_iterator i = known_aliases.find(name_lowercase);
   if (i != known_aliases.end())
diff --git a/src/plural_forms.cpp b/src/plural_forms.cpp
index 1a8a9b6..1d0ab64 100644
--- a/src/plural_forms.cpp
+++ b/src/plural_forms.cpp
@@ -18,6 +18,7 @@
 // 3. This notice may not be removed or altered from any source distribution.
 
 #include "tinygettext/plural_forms.hpp"
+#include "ascii.hpp"
 
 #include <unordered_map>
 
@@ -101,7 +102,7 @@ PluralForms::from_string(const std::string& str)
   // Remove spaces from string before lookup
   std::string space_less_str;
   for(std::string::size_type i = 0; i < str.size(); ++i)
-    if (!isspace(str[i]))
+    if (!ascii_isspace(str[i]))
       space_less_str += str[i];
 
   PluralFormsMap::const_iterator it= known_plural_forms.find(space_less_str);
diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index b81a0b6..c63652d 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -33,6 +33,7 @@
 #include "tinygettext/iconv.hpp"
 #include "tinygettext/dictionary.hpp"
 #include "tinygettext/plural_forms.hpp"
+#include "ascii.hpp"
 
 namespace tinygettext {
 
@@ -159,7 +160,7 @@ POParser::get_string_line(std::ostringstream& out, size_t skip)
 
   // process trailing garbage in line and warn if there is any
   for(i = i+1; i < current_line.size(); ++i)
-    if (!isspace(current_line[i]))
+    if (!ascii_isspace(current_line[i]))
     {
       warning("unexpected garbage after string ignoren");
       break;
@@ -192,7 +193,7 @@ POParser::get_string(unsigned int skip)
         get_string_line(out, skip);
         break;
       }
-      else if (!isspace(current_line[skip]))
+      else if (!ascii_isspace(current_line[skip]))
       {
         error("string must start with '\"'");
       }
@@ -218,7 +219,7 @@ next:
       get_string_line(out,  i);
       goto next;
     }
-    else if (isspace(current_line[i]))
+    else if (ascii_isspace(current_line[i]))
     {
       // skip
     }
@@ -259,7 +260,7 @@ POParser::parse_header(const std::string& header)
           from_charset = line.substr(len);
 
           for(std::string::iterator ch = from_charset.begin(); ch != from_charset.end(); ++ch)
-            *ch = static_cast<char>(toupper(*ch));
+            *ch = ascii_toupper(*ch);
         }
         else
         {
@@ -314,13 +315,13 @@ POParser::is_empty_line()
   }
   else if (current_line[0] == '#')
   { // handle comments as empty lines
-    return (current_line.size() == 1 || (current_line.size() >= 2 && isspace(current_line[1])));
+    return (current_line.size() == 1 || (current_line.size() >= 2 && ascii_isspace(current_line[1])));
   }
   else
   {
     for(std::string::iterator i = current_line.begin(); i != current_line.end(); ++i)
     {
-      if (!isspace(*i))
+      if (!ascii_isspace(*i))
         return false;
     }
   }
-- 
2.43.0


From 9952106f07300572685186c344f57473a01382cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:36 +0000
Subject: [PATCH 17/20] fix: a catalog without a charset name is not in the
 charset of the locale

---
 src/po_parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index c63652d..4543f96 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -293,7 +293,10 @@ POParser::parse_header(const std::string& header)
     }
   }
 
-  if (from_charset.empty() || from_charset == "CHARSET")
+  // iconv takes a name without any letter or digit for the charset of the
+  // process locale
+  from_charset = from_charset.c_str();
+  if (from_charset.find_first_of("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") == std::string::npos || from_charset == "CHARSET")
   {
     warning("charset not specified for .po, fallback to utf-8");
     from_charset = "UTF-8";
-- 
2.43.0


From 9cb03b7d931e646473138ac2891d9fdec5e2c0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:31 +0000
Subject: [PATCH 18/20] fix: apply the fuzzy policy of the manager to the
 catalogs it loads

---
 include/tinygettext/po_parser.hpp | 5 +++--
 src/dictionary_manager.cpp        | 2 +-
 src/po_parser.cpp                 | 4 ++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/tinygettext/po_parser.hpp b/include/tinygettext/po_parser.hpp
index 99c03aa..0fa20b8 100644
--- a/include/tinygettext/po_parser.hpp
+++ b/include/tinygettext/po_parser.hpp
@@ -65,8 +65,9 @@ private:
 public:
   /** @param filename name of the istream, only used in error messages
       @param in stream from which the PO file is read.
-      @param dict dictionary to which the strings are written */
-  static void parse(const std::string& filename, std::istream& in, Dictionary& dict);
+      @param dict dictionary to which the strings are written
+      @param use_fuzzy false to ignore entries that are marked as fuzzy */
+  static void parse(const std::string& filename, std::istream& in, Dictionary& dict, bool use_fuzzy = true);
   static bool pedantic;
 
 private:
diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index fee6172..5c77acf 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -161,7 +161,7 @@ DictionaryManager::get_dictionary(const Language& language)
           }
           else
           {
-            POParser::parse(pofile, *in, *dict);
+            POParser::parse(pofile, *in, *dict, use_fuzzy);
           }
         }
         catch(std::exception& e)
diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index 4543f96..78d9d0a 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -40,9 +40,9 @@ namespace tinygettext {
 bool POParser::pedantic = true;
 
 void
-POParser::parse(const std::string& filename, std::istream& in, Dictionary& dict)
+POParser::parse(const std::string& filename, std::istream& in, Dictionary& dict, bool use_fuzzy)
 {
-  POParser parser(filename, in, dict);
+  POParser parser(filename, in, dict, use_fuzzy);
   parser.parse();
 }
 
-- 
2.43.0


From ff4bd1d0c963803c541c6628439e5e0bbdae5ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:27 +0000
Subject: [PATCH 19/20] fix: a charset that consists of a suffix only is a
 missing one

---
 src/po_parser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index 78d9d0a..1ee643a 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -293,10 +293,10 @@ POParser::parse_header(const std::string& header)
     }
   }
 
-  // iconv takes a name without any letter or digit for the charset of the
-  // process locale
+  // iconv takes a name without any letter or digit (in front of a suffix
+  // like //TRANSLIT) for the charset of the process locale
   from_charset = from_charset.c_str();
-  if (from_charset.find_first_of("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") == std::string::npos || from_charset == "CHARSET")
+  if (from_charset.find_first_of("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") >= from_charset.find('/') || from_charset == "CHARSET")
   {
     warning("charset not specified for .po, fallback to utf-8");
     from_charset = "UTF-8";
-- 
2.43.0


From 25ee21752af6feea1aad7c66f1ecf4e7f748b4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:53 +0000
Subject: [PATCH 20/20] fix: show only the start of long lines in messages

---
 src/po_parser.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index 1ee643a..af0399a 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -66,17 +66,25 @@ POParser::~POParser()
 {
 }
 
+/// The part of a line that is shown in messages, as a single long line can
+/// be the cause of many of them
+static std::string excerpt(const std::string& line)
+{
+  const std::string::size_type max_length = 128;
+  return (line.size() <= max_length) ? line : line.substr(0, max_length) + "...";
+}
+
 void
 POParser::warning(const std::string& msg)
 {
-  log_warning << filename << ":" << line_number << ": warning: " << msg << ": " << current_line << std::endl;
+  log_warning << filename << ":" << line_number << ": warning: " << msg << ": " << excerpt(current_line) << std::endl;
   //log_warning << "Line: " << current_line << std::endl;
 }
 
 void
 POParser::error(const std::string& msg)
 {
-  log_error << filename << ":" << line_number << ": error: " << msg  << ": " << current_line << std::endl;
+  log_error << filename << ":" << line_number << ": error: " << msg  << ": " << excerpt(current_line) << std::endl;
 
   // Try to recover from an error by searching for start of another entry
   while(!eof && !is_empty_line())
-- 
2.43.0

