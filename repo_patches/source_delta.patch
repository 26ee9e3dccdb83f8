From 070f50f32df5592027062cb6bf7c7d5345a05f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 01/62] Add simulation seams guarded by MEEVAX_SIMULATION

---
 include/meevax/memory/allocator.hpp | 13 +++++++++++++
 src/kernel/collector.cpp            | 21 +++++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/include/meevax/memory/allocator.hpp b/include/meevax/memory/allocator.hpp
index 27c5f50..0ebb957 100644
--- a/include/meevax/memory/allocator.hpp
+++ b/include/meevax/memory/allocator.hpp
@@ -22,6 +22,15 @@
 #include <type_traits> // std::false_type
 #include <utility> // std::exchange
 
+#ifdef MEEVAX_SIMULATION
+/*
+   Seam for deterministic simulation. The simulator is told about the part of a
+   deallocated chunk that is not used by the free list, so that it can overwrite
+   what a dangling reference would otherwise still find there.
+*/
+extern "C" auto meevax_simulation_deallocated(void *, std::size_t) noexcept -> void;
+#endif
+
 namespace meevax::inline memory
 {
   template <typename T, std::size_t N = 1024>
@@ -132,6 +141,10 @@ namespace meevax::inline memory
     {
       assert(n == 1);
 
+      #ifdef MEEVAX_SIMULATION
+      meevax_simulation_deallocated(reinterpret_cast<chunk *>(p), sizeof(chunk));
+      #endif
+
       reinterpret_cast<chunk *>(p)->tail = std::exchange(free_list, reinterpret_cast<chunk *>(p));
     }
   };
diff --git a/src/kernel/collector.cpp b/src/kernel/collector.cpp
index 92f8793..e0bfc71 100644
--- a/src/kernel/collector.cpp
+++ b/src/kernel/collector.cpp
@@ -19,6 +19,15 @@
 #include <meevax/memory/pointer_set.hpp>
 #include <vector>
 
+#ifdef MEEVAX_SIMULATION
+/*
+   Seam for deterministic simulation. The simulator decides at each allocation
+   request whether a collection takes place there (1), does not take place
+   there (0), or is left to the usual heuristics (-1).
+*/
+extern "C" auto meevax_simulation_request(std::size_t) noexcept -> int;
+#endif
+
 namespace meevax::inline kernel
 {
   /*
@@ -237,6 +246,18 @@ namespace meevax::inline kernel
 
   auto request(std::size_t n) noexcept -> void
   {
+    #ifdef MEEVAX_SIMULATION
+    if (auto decision = meevax_simulation_request(n); 0 <= decision)
+    {
+      if (size += n; decision)
+      {
+        collect();
+      }
+
+      return;
+    }
+    #endif
+
     if (size += n; capacity < size)
     {
       collect();
-- 
2.43.0


From 674e623e14bf4a8747c4262f8499dedb41aabef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:04 +0000
Subject: [PATCH 02/62] fix: report incomplete data and stray tokens as read
 errors

Reading an incomplete datum accepted it ((1 . 2, '<eof>), reading a token
that ends at the end of the input made the next read fail instead of
returning an eof object (and the REPL loop forever), and a stray right
parenthesis terminated the process.
---
 include/meevax/kernel/textual_input_port.hpp |   4 +-
 src/kernel/textual_input_port.cpp            | 160 +++++++++++++++----
 2 files changed, 128 insertions(+), 36 deletions(-)

diff --git a/include/meevax/kernel/textual_input_port.hpp b/include/meevax/kernel/textual_input_port.hpp
index 0b06064..83b54bb 100644
--- a/include/meevax/kernel/textual_input_port.hpp
+++ b/include/meevax/kernel/textual_input_port.hpp
@@ -80,7 +80,9 @@ namespace meevax::inline kernel
 
     auto peek_character() -> character;
 
-    auto read(character = {}) -> object;
+    auto read() -> object;
+
+    auto read(character) -> object;
 
     auto take_character() -> character;
 
diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index fb3681e..0b8bc39 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -184,6 +184,11 @@ namespace meevax::inline kernel
 
   auto textual_input_port::peek_character() -> character
   {
+    if (character::is_eof(istream().peek()))
+    {
+      return take_character();
+    }
+
     auto c = take_character();
 
     auto const s = c.utf8();
@@ -196,14 +201,65 @@ namespace meevax::inline kernel
     return c;
   }
 
+  auto textual_input_port::read() -> object
+  {
+    try
+    {
+      return read(character());
+    }
+    catch (std::integral_constant<char, ')'> const&)
+    {
+      datum_labels.clear();
+      throw read_error(make<string>("unexpected token"), make<string>(")"));
+    }
+    catch (std::integral_constant<char, '.'> const&)
+    {
+      datum_labels.clear();
+      throw read_error(make<string>("unexpected token"), make<string>("."));
+    }
+    catch (...)
+    {
+      datum_labels.clear();
+      throw;
+    }
+  }
+
   auto textual_input_port::read(character c0) -> object
   {
+    auto incomplete = []()
+    {
+      return read_error(make<string>("an end of file is encountered after the beginning of an object's external representation, but the external representation is incomplete and therefore not parsable"), unit);
+    };
+
+    auto read_datum = [&, this](character c = {}) // Reads a datum that must be there, unlike read.
+    {
+      try
+      {
+        if (let const x = read(c); x.is<eof>() and at_end_of_file())
+        {
+          throw incomplete();
+        }
+        else
+        {
+          return x;
+        }
+      }
+      catch (std::integral_constant<char, ')'> const&)
+      {
+        throw read_error(make<string>("unexpected token"), make<string>(")"));
+      }
+      catch (std::integral_constant<char, '.'> const&)
+      {
+        throw read_error(make<string>("unexpected token"), make<string>("."));
+      }
+    };
+
     auto is_digit = [](auto c)
     {
       return std::isdigit(c);
     };
 
-    auto take_quoted = [this](character quotation_mark)
+    auto take_quoted = [&, this](character quotation_mark)
     {
       auto s = string();
 
@@ -244,7 +300,7 @@ namespace meevax::inline kernel
         }
       }
 
-      throw read_error(make<string>("an end of file is encountered after the beginning of an object's external representation, but the external representation is incomplete and therefore not parsable"), unit);
+      throw incomplete();
     };
 
     auto take_token = [this](character c)
@@ -297,14 +353,14 @@ namespace meevax::inline kernel
             take_character_until([](auto c) { return c == '\n'; });
           }
 
-          return read();
+          return read(character());
 
         case ',': // SRFI 10
-          return interaction_environment().as<environment>().evaluate(read());
+          return interaction_environment().as<environment>().evaluate(read_datum());
 
         case ';': // SRFI 62
-          read(); // Discard an expression.
-          return read();
+          read_datum(); // Discard an expression.
+          return read(character());
 
         case '"':
           return make_symbol(take_quoted(c2).utf8());
@@ -338,7 +394,7 @@ namespace meevax::inline kernel
             case '=':
               if (auto [iter, success] = datum_labels.emplace(n, make<datum_label>(n)); success)
               {
-                if (let xs = read(); xs != iter->second)
+                if (let xs = read_datum(); xs != iter->second)
                 {
                   circulate(xs, xs, n);
                   datum_labels.erase(n);
@@ -365,7 +421,7 @@ namespace meevax::inline kernel
           switch (auto c3 = take_character())
           {
           case '#':
-            return make_number(lexical_cast(read()), 2);
+            return make_number(lexical_cast(read_datum()), 2);
 
           default:
             return make_number(take_token(c3), 2);
@@ -375,23 +431,23 @@ namespace meevax::inline kernel
           switch (auto c3 = take_character())
           {
           case '#':
-            return make_number(lexical_cast(read()), 10);
+            return make_number(lexical_cast(read_datum()), 10);
 
           default:
             return make_number(take_token(c3), 10);
           }
 
         case 'e':
-          return number::exact(read()); // NOTE: Same as #,(exact (read))
+          return number::exact(read_datum()); // NOTE: Same as #,(exact (read))
 
         case 'f':
           switch (std::stoi(take_character_while(is_digit, character('0'))))
           {
           case 32:
-            return make<f32vector>(read() | as_proper_list);
+            return make<f32vector>(read_datum() | as_proper_list);
 
           case 64:
-            return make<f64vector>(read() | as_proper_list);
+            return make<f64vector>(read_datum() | as_proper_list);
 
           default:
             take_token(c2);
@@ -399,13 +455,13 @@ namespace meevax::inline kernel
           }
 
         case 'i':
-          return number::inexact(read()); // NOTE: Same as #,(inexact (read))
+          return number::inexact(read_datum()); // NOTE: Same as #,(inexact (read))
 
         case 'o':
           switch (auto c3 = take_character())
           {
           case '#':
-            return make_number(lexical_cast(read()), 8);
+            return make_number(lexical_cast(read_datum()), 8);
 
           default:
             return make_number(take_token(c3), 8);
@@ -415,16 +471,16 @@ namespace meevax::inline kernel
           switch (auto n = take_character_while(is_digit); std::stoi(n))
           {
           case 8:
-            return make<s8vector>(read() | as_proper_list);
+            return make<s8vector>(read_datum() | as_proper_list);
 
           case 16:
-            return make<s16vector>(read() | as_proper_list);
+            return make<s16vector>(read_datum() | as_proper_list);
 
           case 32:
-            return make<s32vector>(read() | as_proper_list);
+            return make<s32vector>(read_datum() | as_proper_list);
 
           case 64:
-            return make<s64vector>(read() | as_proper_list);
+            return make<s64vector>(read_datum() | as_proper_list);
 
           default:
             throw read_error(make<string>("An unknown literal expression was encountered"),
@@ -439,16 +495,16 @@ namespace meevax::inline kernel
           switch (auto const n = take_character_while(is_digit); std::stoi(n))
           {
           case 8:
-            return make<u8vector>(read() | as_proper_list);
+            return make<u8vector>(read_datum() | as_proper_list);
 
           case 16:
-            return make<u16vector>(read() | as_proper_list);
+            return make<u16vector>(read_datum() | as_proper_list);
 
           case 32:
-            return make<u32vector>(read() | as_proper_list);
+            return make<u32vector>(read_datum() | as_proper_list);
 
           case 64:
-            return make<u64vector>(read() | as_proper_list);
+            return make<u64vector>(read_datum() | as_proper_list);
 
           default:
             throw read_error(make<string>("An unknown literal expression was encountered"),
@@ -459,7 +515,7 @@ namespace meevax::inline kernel
           switch (auto c3 = take_character())
           {
           case '#':
-            return make_number(lexical_cast(read()), 16);
+            return make_number(lexical_cast(read_datum()), 16);
 
           default:
             return make_number(take_token(c3), 16);
@@ -469,7 +525,11 @@ namespace meevax::inline kernel
           return make<vector>(read(c2) | as_proper_list);
 
         case '\\':
-          if (auto c3 = take_character(); is_special_character(peek_character())) // #\<character>
+          if (auto c3 = take_character(); c3.is_eof())
+          {
+            throw incomplete();
+          }
+          else if (is_special_character(peek_character())) // #\<character>
           {
             return make<character>(c3);
           }
@@ -510,7 +570,7 @@ namespace meevax::inline kernel
             switch (auto c1 = take_character())
             {
             case EOF:
-              throw read_error(make<string>("an end of file is encountered after the beginning of an object's external representation, but the external representation is incomplete and therefore not parsable"), unit);
+              throw incomplete();
 
             case '#':
               switch (peek_character())
@@ -541,19 +601,24 @@ namespace meevax::inline kernel
             }
           }
 
-          return read();
+          return read(character());
 
         default:
           throw read_error(make<string>("unknown discriminator"), make<character>(c2));
         }
 
       case '\'': // 0x27
-        return list(make_symbol("quote"), read());
+        return list(make_symbol("quote"), read_datum());
 
       case '(':  // 0x28
         try
         {
-          let const& x = read();
+          let const x = read(character());
+
+          if (x.is<eof>() and at_end_of_file())
+          {
+            throw incomplete();
+          }
 
           return cons(x, read(c1));
         }
@@ -563,9 +628,23 @@ namespace meevax::inline kernel
         }
         catch (std::integral_constant<char, '.'> const&)
         {
-          let const x = read();
-          take_character_until([](auto c) { return c == ')'; });
-          return x;
+          let const x = read_datum();
+
+          try
+          {
+            if (let const y = read(character()); y.is<eof>() and at_end_of_file())
+            {
+              throw incomplete();
+            }
+            else
+            {
+              throw read_error(make<string>("unexpected datum after the tail of a list"), y);
+            }
+          }
+          catch (std::integral_constant<char, ')'> const&)
+          {
+            return x;
+          }
         }
 
       case ')':  // 0x29
@@ -575,10 +654,10 @@ namespace meevax::inline kernel
         switch (auto c = take_character())
         {
         case '@':
-          return list(make_symbol("unquote-splicing"), read());
+          return list(make_symbol("unquote-splicing"), read_datum());
 
         default:
-          return list(make_symbol("unquote"), read(c));
+          return list(make_symbol("unquote"), read_datum(c));
         }
 
       case ';':  // 0x3B
@@ -586,7 +665,7 @@ namespace meevax::inline kernel
         break;
 
       case '`':  // 0x60
-        return list(make_symbol("quasiquote"), read());
+        return list(make_symbol("quasiquote"), read_datum());
 
       case '|':  // 0x7C
         return make_symbol(take_quoted(c1).utf8());
@@ -614,7 +693,18 @@ namespace meevax::inline kernel
       }
     }
 
-    throw read_error(make<string>("underlying input stream went into a not good state"), unit);
+    if (not at_end_of_file())
+    {
+      throw read_error(make<string>("underlying input stream went into a not good state"), unit);
+    }
+    else if (c0)
+    {
+      throw incomplete();
+    }
+    else
+    {
+      return eof_object;
+    }
   }
 
   auto textual_input_port::take_character() -> character
-- 
2.43.0


From 2e9d53139163c9a42b54df0294624633d96176e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:44 +0000
Subject: [PATCH 03/62] fix: do not loop forever on white space after a comma

---
 src/kernel/textual_input_port.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index 0b8bc39..a279ad3 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -231,11 +231,11 @@ namespace meevax::inline kernel
       return read_error(make<string>("an end of file is encountered after the beginning of an object's external representation, but the external representation is incomplete and therefore not parsable"), unit);
     };
 
-    auto read_datum = [&, this](character c = {}) // Reads a datum that must be there, unlike read.
+    auto read_datum = [&, this]() // Reads a datum that must be there, unlike read.
     {
       try
       {
-        if (let const x = read(c); x.is<eof>() and at_end_of_file())
+        if (let const x = read(character()); x.is<eof>() and at_end_of_file())
         {
           throw incomplete();
         }
@@ -651,13 +651,14 @@ namespace meevax::inline kernel
         throw std::integral_constant<char, ')'>();
 
       case ',':  // 0x2C
-        switch (auto c = take_character())
+        switch (peek_character())
         {
         case '@':
+          take_character();
           return list(make_symbol("unquote-splicing"), read_datum());
 
         default:
-          return list(make_symbol("unquote"), read_datum(c));
+          return list(make_symbol("unquote"), read_datum());
         }
 
       case ';':  // 0x3B
-- 
2.43.0


From 370fcb6350fa335856172e758a1f787d09413917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 04/62] fix: report tokens that cannot be converted as read
 errors

---
 src/kernel/textual_input_port.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index a279ad3..03e7a5c 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -217,6 +217,16 @@ namespace meevax::inline kernel
       datum_labels.clear();
       throw read_error(make<string>("unexpected token"), make<string>("."));
     }
+    catch (error const&)
+    {
+      datum_labels.clear();
+      throw;
+    }
+    catch (std::exception const& exception) // by the conversion of a token
+    {
+      datum_labels.clear();
+      throw read_error(make<string>(exception.what()), unit);
+    }
     catch (...)
     {
       datum_labels.clear();
-- 
2.43.0


From 59f81e00aa497b673d4effc4366102b6ec58e01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:21 +0000
Subject: [PATCH 05/62] fix: do not lose the last line of an input that does
 not end with a newline

---
 src/kernel/textual_input_port.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index 03e7a5c..08172bf 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -155,13 +155,13 @@ namespace meevax::inline kernel
 
   auto textual_input_port::get_line() -> object
   {
-    if (auto s = take_character_until([](auto c) { return c == '\n'; }); at_end_of_file())
+    if (peek_character().is_eof())
     {
       return eof_object;
     }
     else
     {
-      return make<string>(s);
+      return make<string>(take_character_until([](auto c) { return c == '\n' or c.is_eof(); }));
     }
   }
 
-- 
2.43.0


From c156b6b88ac8dcefbd4967d19f731b846c911b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:40 +0000
Subject: [PATCH 06/62] fix: keep null characters in input and output

---
 include/meevax/kernel/textual_input_port.hpp | 4 ++--
 src/kernel/character.cpp                     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/meevax/kernel/textual_input_port.hpp b/include/meevax/kernel/textual_input_port.hpp
index 83b54bb..416bb39 100644
--- a/include/meevax/kernel/textual_input_port.hpp
+++ b/include/meevax/kernel/textual_input_port.hpp
@@ -89,7 +89,7 @@ namespace meevax::inline kernel
     template <typename F>
     auto take_character_until(F satisfy, character c = {})
     {
-      auto s = c.utf8();
+      auto s = c ? c.utf8() : std::string();
 
       while (get_ready() and not satisfy(c = take_character()))
       {
@@ -102,7 +102,7 @@ namespace meevax::inline kernel
     template <typename F>
     auto take_character_while(F satisfy, character c = {})
     {
-      auto s = c.utf8();
+      auto s = c ? c.utf8() : std::string();
 
       while (get_ready() and satisfy(peek_character()))
       {
diff --git a/src/kernel/character.cpp b/src/kernel/character.cpp
index 9914347..3fd44d3 100644
--- a/src/kernel/character.cpp
+++ b/src/kernel/character.cpp
@@ -55,7 +55,7 @@ namespace meevax::inline kernel
       chars[0] = std::char_traits<char_type>::to_char_type(0xBD);
     }
 
-    return chars.data();
+    return codepoint ? std::string(chars.data()) : std::string(1, '\0');
   }
 
   auto operator <<(std::ostream & os, character const& datum) -> std::ostream &
-- 
2.43.0


From 987dc8f9af0ff98fb1187fd149853e3f791f3c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:11 +0000
Subject: [PATCH 07/62] fix: do not report a failure to read as the end of the
 file

---
 src/kernel/textual_input_port.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index 08172bf..5294b0d 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -184,7 +184,7 @@ namespace meevax::inline kernel
 
   auto textual_input_port::peek_character() -> character
   {
-    if (character::is_eof(istream().peek()))
+    if (auto const c = istream().peek(); character::is_eof(c))
     {
       return take_character();
     }
@@ -728,7 +728,11 @@ namespace meevax::inline kernel
     */
     auto & source = istream();
 
-    if (auto const c = source.peek(); character::is_eof(c) or character::is_ascii(c))
+    if (auto const c = source.peek(); character::is_eof(c) and source.bad())
+    {
+      throw file_error(make<string>("failed to read from the underlying input stream"), unit);
+    }
+    else if (character::is_eof(c) or character::is_ascii(c))
     {
       return character(source.get());
     }
-- 
2.43.0


From 36829a00e02de4cc218411a3979b3770d7f1acd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:20 +0000
Subject: [PATCH 08/62] fix: report invalid UTF-8 sequences instead of making
 up characters

---
 src/kernel/textual_input_port.cpp | 33 ++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index 5294b0d..d84caaa 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -728,6 +728,27 @@ namespace meevax::inline kernel
     */
     auto & source = istream();
 
+    auto take_continuation_bytes = [&](auto n, character::int_type codepoint)
+    {
+      for (; n; --n)
+      {
+        if (auto const c = source.peek(); (c & 0b1100'0000) == 0b1000'0000)
+        {
+          codepoint = codepoint << 6 | (source.get() & 0b0011'1111);
+        }
+        else if (character::is_eof(c) and source.bad())
+        {
+          throw file_error(make<string>("failed to read from the underlying input stream"), unit);
+        }
+        else
+        {
+          throw read_error(make<string>("an invalid or incomplete UTF-8 sequence is encountered"), unit);
+        }
+      }
+
+      return character(codepoint);
+    };
+
     if (auto const c = source.peek(); character::is_eof(c) and source.bad())
     {
       throw file_error(make<string>("failed to read from the underlying input stream"), unit);
@@ -738,21 +759,15 @@ namespace meevax::inline kernel
     }
     else if (0xC2 <= c and c <= 0xDF) // 11 bit
     {
-      return character((source.get() & 0b0001'1111) << 6 |
-                       (source.get() & 0b0011'1111));
+      return take_continuation_bytes(1, source.get() & 0b0001'1111);
     }
     else if (0xE0 <= c and c <= 0xEF) // 16 bit
     {
-      return character((source.get() & 0b0000'1111) << 12 |
-                       (source.get() & 0b0011'1111) <<  6 |
-                       (source.get() & 0b0011'1111));
+      return take_continuation_bytes(2, source.get() & 0b0000'1111);
     }
     else if (0xF0 <= c and c <= 0xF4) // 21 bit
     {
-      return character((source.get() & 0b0000'0111) << 18 |
-                       (source.get() & 0b0011'1111) << 12 |
-                       (source.get() & 0b0011'1111) <<  6 |
-                       (source.get() & 0b0011'1111));
+      return take_continuation_bytes(3, source.get() & 0b0000'0111);
     }
     else
     {
-- 
2.43.0


From c0b9ebe49bfab7b1490b59bd9d2b771926bfdd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:17 +0000
Subject: [PATCH 09/62] fix: raise an error for an exact division by zero
 instead of stopping the process

---
 src/kernel/number.cpp | 10 ++++++++++
 src/kernel/ratio.cpp  |  9 ++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 78f6b73..89ab84c 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -320,6 +320,11 @@ namespace meevax::inline kernel
   {
     using namespace number;
 
+    if (is_exact(x) and is_exact(y) and is_zero(y))
+    {
+      throw error(make<string>("division by zero"), cons(x, y, unit));
+    }
+
     auto f = []<typename T, typename U>(T const& x, U const& y)
     {
       if constexpr (std::is_same_v<T, widen_integer> and
@@ -341,6 +346,11 @@ namespace meevax::inline kernel
   {
     using namespace number;
 
+    if (is_exact(x) and is_exact(y) and is_zero(y))
+    {
+      throw error(make<string>("division by zero"), cons(x, y, unit));
+    }
+
     auto f = []<typename T, typename U>(T const& x, U const& y)
     {
       if constexpr ((std::is_floating_point_v<T> and std::is_arithmetic_v<U>) or
diff --git a/src/kernel/ratio.cpp b/src/kernel/ratio.cpp
index 9842e7d..f2e62f0 100644
--- a/src/kernel/ratio.cpp
+++ b/src/kernel/ratio.cpp
@@ -14,7 +14,9 @@
    limitations under the License.
 */
 
+#include <cmath> // std::isfinite
 #include <regex>
+#include <stdexcept> // std::domain_error
 
 #include <meevax/kernel/number.hpp>
 
@@ -61,13 +63,18 @@ namespace meevax::inline kernel
 
   ratio::ratio(double x)
   {
+    if (not std::isfinite(x))
+    {
+      throw std::domain_error("no exact number is close to an infinity or a NaN");
+    }
+
     mpq_init(value);
     mpq_set_d(value, x);
   }
 
   ratio::ratio(std::string const& token, int radix)
   {
-    if (mpq_init(value); mpq_set_str(value, token.c_str(), radix))
+    if (mpq_init(value); mpq_set_str(value, token.c_str(), radix) or mpz_sgn(mpq_denref(value)) == 0)
     {
       mpq_clear(value);
       throw std::invalid_argument("not a ratio");
-- 
2.43.0


From 04c377f5ed28aab44bb847b1308b379f9ad8fcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:42 +0000
Subject: [PATCH 10/62] fix: tell the end of a binary file from its bytes and
 from a failure to read

---
 src/kernel/binary_input_file_port.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/kernel/binary_input_file_port.cpp b/src/kernel/binary_input_file_port.cpp
index de8c9e5..1678995 100644
--- a/src/kernel/binary_input_file_port.cpp
+++ b/src/kernel/binary_input_file_port.cpp
@@ -16,6 +16,7 @@
 
 #include <meevax/kernel/binary_input_file_port.hpp>
 #include <meevax/kernel/eof.hpp>
+#include <meevax/kernel/error.hpp>
 #include <meevax/kernel/homogeneous_vector.hpp>
 
 namespace meevax::inline kernel
@@ -36,6 +37,10 @@ namespace meevax::inline kernel
     {
       return make<small_integer>(static_cast<small_integer>(buffer));
     }
+    else if (ifstream.bad())
+    {
+      throw file_error(make<string>("failed to read from the underlying input stream"), unit);
+    }
     else
     {
       return eof_object;
@@ -48,6 +53,14 @@ namespace meevax::inline kernel
     {
       return make<u8vector>(buffer.data(), buffer.size());
     }
+    else if (ifstream.bad())
+    {
+      throw file_error(make<string>("failed to read from the underlying input stream"), unit);
+    }
+    else if (ifstream.gcount() == 0 and size)
+    {
+      return eof_object;
+    }
     else
     {
       buffer.resize(ifstream.gcount());
@@ -62,9 +75,13 @@ namespace meevax::inline kernel
 
   auto binary_input_file_port::peek() -> object
   {
-    if (get_ready())
+    if (auto const c = ifstream.peek(); c != std::ifstream::traits_type::eof())
+    {
+      return make<small_integer>(c);
+    }
+    else if (ifstream.bad())
     {
-      return make<small_integer>(ifstream.peek());
+      throw file_error(make<string>("failed to read from the underlying input stream"), unit);
     }
     else
     {
-- 
2.43.0


From 985ac9464ff5fd78fb4b3d955f6d81ed952ae138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 11/62] fix: do not lose the bytes at the end of a bytevector
 port

---
 include/meevax/kernel/input_homogeneous_vector_port.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/meevax/kernel/input_homogeneous_vector_port.hpp b/include/meevax/kernel/input_homogeneous_vector_port.hpp
index e3e86e7..6719c74 100644
--- a/include/meevax/kernel/input_homogeneous_vector_port.hpp
+++ b/include/meevax/kernel/input_homogeneous_vector_port.hpp
@@ -17,6 +17,7 @@
 #ifndef INCLUDED_MEEVAX_KERNEL_INPUT_HOMOGENEOUS_VECTOR_PORT_HPP
 #define INCLUDED_MEEVAX_KERNEL_INPUT_HOMOGENEOUS_VECTOR_PORT_HPP
 
+#include <algorithm> // std::min
 #include <deque>
 
 #include <meevax/kernel/binary_input_port.hpp>
@@ -53,12 +54,14 @@ namespace meevax::inline kernel
 
     auto get(std::size_t size) -> object override
     {
-      if (deque.size() < size)
+      if (deque.empty() and size)
       {
         return eof_object;
       }
       else
       {
+        size = std::min(size, deque.size());
+
         let const v =  make<homogeneous_vector<T>>(size);
         std::copy(deque.begin(), std::next(deque.begin(), size), std::begin(v.as<homogeneous_vector<T>>().values));
         deque.erase(deque.begin(), std::next(deque.begin(), size));
-- 
2.43.0


From 602532ec3dab96b3196948faf5107e711f6b4751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:40 +0000
Subject: [PATCH 12/62] fix: return the number of bytes read by
 read-bytevector!

---
 library/r7rs.ss | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/r7rs.ss b/library/r7rs.ss
index 209a5bf..4a51f30 100644
--- a/library/r7rs.ss
+++ b/library/r7rs.ss
@@ -311,7 +311,8 @@
                                           (current-input-port)))))
              (if (eof-object? v)
                  (eof-object)
-                 (bytevector-copy! x start v))))
+                 (begin (bytevector-copy! x start v)
+                        (bytevector-length v)))))
 
          (define (write-char x . xs)
            (%put-char x (if (pair? xs)
-- 
2.43.0


From a6df213035fd03764f7077c63fbbf5900f044399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 13/62] fix: raise a file error when a file cannot be opened

---
 src/kernel/boot.cpp        | 24 ++++++++++++++++++++----
 src/kernel/environment.cpp |  7 ++++++-
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 898916c..d8edc1d 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -56,6 +56,22 @@ extern char ** environ; // for procedure get-environment-variables
 
 namespace meevax::inline kernel
 {
+  template <typename T>
+  auto open(object const& name) -> object
+  {
+    try
+    {
+      if (let const x = make<T>(name.as<string>().utf8()); x.as<T>().is_open())
+      {
+        return x;
+      }
+    }
+    catch (std::filesystem::filesystem_error const&)
+    {}
+
+    throw file_error(make<string>("failed to open file"), list(name));
+  }
+
   auto resolve(char const* name) -> void *
   {
     using namespace number;
@@ -314,10 +330,10 @@ namespace meevax::inline kernel
       { "standard-input-port",           [](let const&   ) { return make<standard_input_port>(); } },
       { "standard-output-port",          [](let const&   ) { return make<standard_output_port>(); } },
       { "standard-error-port",           [](let const&   ) { return make<standard_error_port>(); } },
-      { "open-input-file",               [](let const& xs) { return make<input_file_port>(car(xs).as<string>().utf8()); } },
-      { "open-output-file",              [](let const& xs) { return make<output_file_port>(car(xs).as<string>().utf8()); } },
-      { "open-binary-input-file",        [](let const& xs) { return make<binary_input_file_port>(car(xs).as<string>().utf8()); } },
-      { "open-binary-output-file",       [](let const& xs) { return make<binary_output_file_port>(car(xs).as<string>().utf8()); } },
+      { "open-input-file",               [](let const& xs) { return open<input_file_port>(car(xs)); } },
+      { "open-output-file",              [](let const& xs) { return open<output_file_port>(car(xs)); } },
+      { "open-binary-input-file",        [](let const& xs) { return open<binary_input_file_port>(car(xs)); } },
+      { "open-binary-output-file",       [](let const& xs) { return open<binary_output_file_port>(car(xs)); } },
       { "close",                         [](let const& xs) { car(xs).as<port>().close(); return unspecified; } },
       { "open-input-string",             [](let const& xs) { return make<input_string_port>(car(xs).as<string>().utf8()); } },
       { "open-output-string",            [](let const&   ) { return make<output_string_port>(); } },
diff --git a/src/kernel/environment.cpp b/src/kernel/environment.cpp
index 30b5608..b8c0e66 100644
--- a/src/kernel/environment.cpp
+++ b/src/kernel/environment.cpp
@@ -186,7 +186,12 @@ namespace meevax::inline kernel
 
   auto environment::load(std::filesystem::path const& p) -> void
   {
-    if (auto input = input_file_port(p); input.is_open())
+    if (auto ec = std::error_code(); not std::filesystem::exists(p, ec))
+    {
+      throw file_error(make<string>("failed to open file"),
+                       make<string>(p));
+    }
+    else if (auto input = input_file_port(p); input.is_open())
     {
       for (let const& x : input)
       {
-- 
2.43.0


From 8128c0fcb466e9135a9715e5a2bc69f417813386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:27 +0000
Subject: [PATCH 14/62] fix: report failures to write to ports instead of
 ignoring them

---
 src/kernel/binary_output_file_port.cpp | 22 ++++++++++++++++++----
 src/kernel/output_file_port.cpp        | 10 +++++++++-
 src/kernel/textual_output_port.cpp     | 19 ++++++++++++++-----
 3 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/src/kernel/binary_output_file_port.cpp b/src/kernel/binary_output_file_port.cpp
index 69497a4..a8f906a 100644
--- a/src/kernel/binary_output_file_port.cpp
+++ b/src/kernel/binary_output_file_port.cpp
@@ -15,17 +15,28 @@
 */
 
 #include <meevax/kernel/binary_output_file_port.hpp>
+#include <meevax/kernel/error.hpp>
+#include <meevax/kernel/list.hpp>
 
 namespace meevax::inline kernel
 {
   auto binary_output_file_port::close() -> void
   {
-    ofstream.close();
+    if (is_open())
+    {
+      if (ofstream.close(); not ofstream)
+      {
+        throw file_error(make<string>("failed to write to the underlying output stream"), unit);
+      }
+    }
   }
 
   auto binary_output_file_port::flush() -> void
   {
-    ofstream << std::flush;
+    if (not (ofstream << std::flush))
+    {
+      throw file_error(make<string>("failed to write to the underlying output stream"), unit);
+    }
   }
 
   auto binary_output_file_port::is_open() const -> bool
@@ -35,14 +46,17 @@ namespace meevax::inline kernel
 
   auto binary_output_file_port::put(std::uint8_t u8) -> void
   {
-    ofstream.write(reinterpret_cast<char const*>(&u8), 1);
+    if (not ofstream.write(reinterpret_cast<char const*>(&u8), 1))
+    {
+      throw file_error(make<string>("failed to write to the underlying output stream"), unit);
+    }
   }
 
   auto binary_output_file_port::put(u8vector const& v) -> void
   {
     for (auto u8 : v.values)
     {
-      ofstream.write(reinterpret_cast<char const*>(&u8), 1);
+      put(u8);
     }
   }
 
diff --git a/src/kernel/output_file_port.cpp b/src/kernel/output_file_port.cpp
index 2c83e2c..8fa0a6b 100644
--- a/src/kernel/output_file_port.cpp
+++ b/src/kernel/output_file_port.cpp
@@ -14,13 +14,21 @@
    limitations under the License.
 */
 
+#include <meevax/kernel/error.hpp>
+#include <meevax/kernel/list.hpp>
 #include <meevax/kernel/output_file_port.hpp>
 
 namespace meevax::inline kernel
 {
   auto output_file_port::close() -> void
   {
-    return ofstream.close();
+    if (is_open())
+    {
+      if (ofstream.close(); not ofstream)
+      {
+        throw file_error(make<string>("failed to write to the underlying output stream"), unit);
+      }
+    }
   }
 
   auto output_file_port::is_open() const -> bool
diff --git a/src/kernel/textual_output_port.cpp b/src/kernel/textual_output_port.cpp
index 2b1c0ff..eb22553 100644
--- a/src/kernel/textual_output_port.cpp
+++ b/src/kernel/textual_output_port.cpp
@@ -14,29 +14,38 @@
    limitations under the License.
 */
 
+#include <meevax/kernel/error.hpp>
 #include <meevax/kernel/list.hpp>
 #include <meevax/kernel/textual_output_port.hpp>
 
 namespace meevax::inline kernel
 {
+  auto check(std::ostream const& os) -> void
+  {
+    if (not os)
+    {
+      throw file_error(make<string>("failed to write to the underlying output stream"), unit);
+    }
+  }
+
   auto textual_output_port::flush() -> void
   {
-    static_cast<std::ostream &>(*this) << std::flush;
+    check(static_cast<std::ostream &>(*this) << std::flush);
   }
 
   auto textual_output_port::put(character const& c) -> void
   {
-    static_cast<std::ostream &>(*this) << c.utf8();
+    check(static_cast<std::ostream &>(*this) << c.utf8());
   }
 
   auto textual_output_port::put(string const& s) -> void
   {
-    static_cast<std::ostream &>(*this) << s.utf8();
+    check(static_cast<std::ostream &>(*this) << s.utf8());
   }
 
   auto textual_output_port::write(object const& x) -> void
   {
-    static_cast<std::ostream &>(*this) << x;
+    check(static_cast<std::ostream &>(*this) << x);
   }
 
   auto textual_output_port::write_simple(object const& x) -> void
@@ -69,7 +78,7 @@ namespace meevax::inline kernel
     }
     else
     {
-      os << x;
+      check(os << x);
     }
   }
 } // namespace meevax::kernel
-- 
2.43.0


From 3dcd348f71199d906d8b968c3f7ea2152ca015f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 15/62] fix: do not read past the end of a dotted list in
 write-simple

---
 src/kernel/textual_output_port.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/textual_output_port.cpp b/src/kernel/textual_output_port.cpp
index eb22553..42b15b8 100644
--- a/src/kernel/textual_output_port.cpp
+++ b/src/kernel/textual_output_port.cpp
@@ -70,7 +70,7 @@ namespace meevax::inline kernel
 
           write_simple(rest);
 
-          os << magenta(")");
+          break;
         }
       }
 
-- 
2.43.0


From 8508165eeb821612b04238304e10443b6c98a6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 16/62] fix: run the thunks of dynamic-wind once for each
 extent left or entered

The common ancestors of two dynamic extents of different depth were not
recognized, so that an escape through them ran their after and before thunks
spuriously. After thunks ran with the extent they leave still installed, so
that an escape or exit from them ran them again.
---
 library/meevax.ss | 64 ++++++++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 26 deletions(-)

diff --git a/library/meevax.ss b/library/meevax.ss
index 81460e6..98e5c62 100644
--- a/library/meevax.ss
+++ b/library/meevax.ss
@@ -44,8 +44,9 @@
   (import (only (meevax context) emergency-exit)
           (only (meevax comparator) eq?)
           (only (meevax core) begin call-with-current-continuation! current define if install lambda)
-          (only (meevax pair) caar car cdar cdr cons pair?)
-          (only (meevax list) null?))
+          (only (meevax pair) caar cdar cdr cons pair?)
+          (only (meevax list) length)
+          (only (meevax number) - <))
 
   (export call-with-current-continuation dynamic-wind exit)
 
@@ -65,39 +66,50 @@
               result) ; TODO (apply values result)
             (thunk)))
 
+         (define (unwind! from to) ; Leave the extents of `from` until `to`, from inside to outside.
+           (if (eq? from to)
+               #t
+               (begin (install-dynamic-extents! (cdr from))
+                      ((cdar from))
+                      (unwind! (cdr from) to))))
+
+         (define (windup! from to) ; Enter the extents of `to` until `from`, from outside to inside.
+           (if (eq? from to)
+               #t
+               (begin (windup! from (cdr to))
+                      ((caar to))
+                      (install-dynamic-extents! to))))
+
+         (define (suffix x i y j) ; The longest common suffix of the list `x` of length `i` and the list `y` of length `j`.
+           (if (eq? x y)
+               x
+               (if (< i j)
+                   (suffix x i (cdr y) (- j 1))
+                   (if (< j i)
+                       (suffix (cdr x) (- i 1) y j)
+                       (suffix (cdr x) (- i 1) (cdr y) (- j 1))))))
+
          (define (call-with-current-continuation procedure)
-           (define (windup! from to)
-             (install-dynamic-extents! from)
-             (if (eq? from to)
-                 #t
-                 (if (null? from)
-                     (begin (windup! from (cdr to))
-                            ((caar to)))
-                     (if (null? to)
-                         (begin ((cdar from))
-                                (windup! (cdr from) to))
-                         (begin ((cdar from))
-                                (windup! (cdr from)
-                                         (cdr to))
-                                ((caar to))))))
-             (install-dynamic-extents! to))
            ((lambda (dynamic-extents)
               (call-with-current-continuation!
                 (lambda (continue)
                   (procedure (lambda (x)
-                               (windup! (current-dynamic-extents) dynamic-extents)
+                               ((lambda (from to)
+                                  ((lambda (extents)
+                                     (unwind! from extents)
+                                     (windup! extents to))
+                                   (suffix from (length from) to (length to))))
+                                (current-dynamic-extents)
+                                dynamic-extents)
                                (continue x))))))
             (current-dynamic-extents)))
 
          (define (exit . xs)
-           (letrec ((for-each (lambda (f x)
-                                (if (pair? x)
-                                    (begin (f (car x))
-                                           (for-each f (cdr x)))))))
-             (for-each (lambda (before/after)
-                         ((cdr before/after)))
-                       (current-dynamic-extents))
-             (emergency-exit . xs)))))
+           (if (pair? (current-dynamic-extents))
+               (begin (unwind! (current-dynamic-extents)
+                               (cdr (current-dynamic-extents)))
+                      (exit . xs))
+               (emergency-exit . xs)))))
 
 (define-library (meevax apply)
   (import (only (meevax core) define if lambda)
-- 
2.43.0


From 00901f39d694464b5eb343961007e4636aecea68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:18 +0000
Subject: [PATCH 17/62] fix: raise the secondary exception of raise in the
 outer exception handlers

When a handler called by raise returns, the process stopped even if an outer
handler or guard was ready to handle the secondary exception.
---
 library/srfi-34.ss | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/srfi-34.ss b/library/srfi-34.ss
index 19cf15a..8f71a7a 100644
--- a/library/srfi-34.ss
+++ b/library/srfi-34.ss
@@ -52,7 +52,7 @@
                      (if (procedure? inner)
                          (inner x)
                          (throw x))
-                     (throw x))))
+                     (raise x))))
                (throw x)))
 
          (define (raise-continuable x)
-- 
2.43.0


From 076ad951b63ed3c1c50bd04d2682b39586c63560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:18 +0000
Subject: [PATCH 18/62] fix: handle an error of the kernel after leaving the
 C++ exception handler

The handler was called while the C++ exception was still being handled, so
that a program which handles many errors ran out of stack.
---
 src/kernel/dynamic_environment.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/kernel/dynamic_environment.cpp b/src/kernel/dynamic_environment.cpp
index d2c04e3..2be7fa6 100644
--- a/src/kernel/dynamic_environment.cpp
+++ b/src/kernel/dynamic_environment.cpp
@@ -49,6 +49,16 @@ namespace meevax::inline kernel
     assert(last(c).template is<instruction>());
     assert(last(c).template as<instruction>() == instruction::secd_stop);
 
+    auto call_exception_handler = [&](object const& payload) // Continue after the catch clause, so that any number of exceptions needs no more stack.
+    {
+      s = list(exception_handler, list(payload));
+      e = nullptr;
+      c = list(make<instruction>(instruction::secd_call),
+               make<instruction>(instruction::secd_stop));
+      d = nullptr;
+    };
+
+  execute:
     try
     {
     fetch:
@@ -474,7 +484,8 @@ namespace meevax::inline kernel
     {
       if (exception_handler)
       {
-        return apply(exception_handler, list(thrown.make()));
+        call_exception_handler(thrown.make());
+        goto execute;
       }
       else // In most cases, this clause will never be called.
       {
@@ -486,7 +497,8 @@ namespace meevax::inline kernel
     {
       if (auto thrown = error(make<string>(exception.what()), unit); exception_handler)
       {
-        return apply(exception_handler, list(thrown.make()));
+        call_exception_handler(thrown.make());
+        goto execute;
       }
       else // In most cases, this clause will never be called.
       {
-- 
2.43.0


From c8d81a021d1cd45c9fbf2660f55fb404c31ace18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:18 +0000
Subject: [PATCH 19/62] fix: reset the dynamic extents, bindings and handlers
 after an error in the REPL

---
 src/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 2351a2e..25e24b3 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -55,6 +55,8 @@ auto main(int const argc, char const* const* const argv) -> int
 
       while (not standard_input_port().at_end_of_file())
       {
+        auto const a = e.a;
+
         try
         {
           std::cout << "> " << e.evaluate(standard_input_port().read()) << std::endl;
@@ -62,6 +64,8 @@ auto main(int const argc, char const* const* const argv) -> int
         catch (error const& error)
         {
           error.report(std::cerr);
+
+          e.a = a; // Leave the dynamic extents, bindings and exception handlers of the failed expression.
         }
       }
     }
-- 
2.43.0


From 96b3d0fa6d25ad952ed0bfd31efcf3d231c9500e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:49 +0000
Subject: [PATCH 20/62] fix: do not truncate characters that are not ASCII in
 lines and symbols

---
 include/meevax/kernel/textual_input_port.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/meevax/kernel/textual_input_port.hpp b/include/meevax/kernel/textual_input_port.hpp
index 416bb39..b578b52 100644
--- a/include/meevax/kernel/textual_input_port.hpp
+++ b/include/meevax/kernel/textual_input_port.hpp
@@ -93,7 +93,7 @@ namespace meevax::inline kernel
 
       while (get_ready() and not satisfy(c = take_character()))
       {
-        s += c;
+        s += c.utf8();
       }
 
       return s;
@@ -106,7 +106,7 @@ namespace meevax::inline kernel
 
       while (get_ready() and satisfy(peek_character()))
       {
-        s += take_character();
+        s += take_character().utf8();
       }
 
       return s;
-- 
2.43.0


From 9a78e0a9d079291125bc06e592670e2c9ea14e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 21/62] fix: do not lose a character that is peeked at the end
 of a buffer

---
 include/meevax/kernel/standard_input_port.hpp |  2 ++
 include/meevax/kernel/textual_input_port.hpp  |  6 ++++
 src/kernel/standard_input_port.cpp            |  6 ++++
 src/kernel/textual_input_port.cpp             | 29 ++++++++++++++-----
 4 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/include/meevax/kernel/standard_input_port.hpp b/include/meevax/kernel/standard_input_port.hpp
index dff27bf..c83d1c9 100644
--- a/include/meevax/kernel/standard_input_port.hpp
+++ b/include/meevax/kernel/standard_input_port.hpp
@@ -30,6 +30,8 @@ namespace meevax::inline kernel
     auto istream() const -> std::istream const& override;
 
     auto istream() -> std::istream & override;
+
+    auto peeked() -> std::optional<character> & override;
   };
 
   auto operator <<(std::ostream &, standard_input_port const&) -> std::ostream &;
diff --git a/include/meevax/kernel/textual_input_port.hpp b/include/meevax/kernel/textual_input_port.hpp
index b578b52..d8e1045 100644
--- a/include/meevax/kernel/textual_input_port.hpp
+++ b/include/meevax/kernel/textual_input_port.hpp
@@ -17,6 +17,8 @@
 #ifndef INCLUDED_MEEVAX_KERNEL_TEXTUAL_INPUT_PORT_HPP
 #define INCLUDED_MEEVAX_KERNEL_TEXTUAL_INPUT_PORT_HPP
 
+#include <optional>
+
 #include <meevax/kernel/input_port.hpp>
 #include <meevax/kernel/textual_context.hpp>
 #include <meevax/kernel/textual_port.hpp>
@@ -62,6 +64,8 @@ namespace meevax::inline kernel
 
     bool fold_case = false;
 
+    std::optional<character> peeked_character;
+
     auto at_end_of_file() const -> bool;
 
     auto begin() -> iterator;
@@ -114,6 +118,8 @@ namespace meevax::inline kernel
 
     virtual auto cons(object const&, object const&) -> object;
 
+    virtual auto peeked() -> std::optional<character> &; // The character that peek_character took and take_character did not yet.
+
     virtual auto istream() -> std::istream & = 0;
 
     virtual auto istream() const -> std::istream const& = 0;
diff --git a/src/kernel/standard_input_port.cpp b/src/kernel/standard_input_port.cpp
index 3268db7..c7e8fc9 100644
--- a/src/kernel/standard_input_port.cpp
+++ b/src/kernel/standard_input_port.cpp
@@ -36,6 +36,12 @@ namespace meevax::inline kernel
     return std::cin;
   }
 
+  auto standard_input_port::peeked() -> std::optional<character> &
+  {
+    static std::optional<character> character; // As is std::cin, shared by every standard_input_port.
+    return character;
+  }
+
   auto operator <<(std::ostream & output, standard_input_port const&) -> std::ostream &
   {
     return output << magenta("#,(") << blue("standard-input") << magenta(")");
diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index d84caaa..1403822 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -184,23 +184,31 @@ namespace meevax::inline kernel
 
   auto textual_input_port::peek_character() -> character
   {
-    if (auto const c = istream().peek(); character::is_eof(c))
+    if (auto const& c = peeked())
+    {
+      return *c;
+    }
+    else if (auto const c = istream().peek(); character::is_eof(c))
     {
       return take_character();
     }
 
-    auto c = take_character();
-
-    auto const s = c.utf8();
+    /*
+       The bytes of a character cannot always be put back, because those of a
+       source that cannot seek may no longer be in its buffer.
+    */
+    auto const c = take_character();
 
-    for (auto iter = std::rbegin(s); iter != std::rend(s); ++iter)
-    {
-      istream().putback(*iter);
-    }
+    peeked() = c;
 
     return c;
   }
 
+  auto textual_input_port::peeked() -> std::optional<character> &
+  {
+    return peeked_character;
+  }
+
   auto textual_input_port::read() -> object
   {
     try
@@ -726,6 +734,11 @@ namespace meevax::inline kernel
        00000800 -- 0000FFFF: 1110xxxx 10xxxxxx 10xxxxxx
        00010000 -- 001FFFFF: 11110xxx 10xxxxxx 10xxxxxx 10xxxxxx
     */
+    if (auto & c = peeked())
+    {
+      return *std::exchange(c, std::nullopt);
+    }
+
     auto & source = istream();
 
     auto take_continuation_bytes = [&](auto n, character::int_type codepoint)
-- 
2.43.0


From 851955cfbdcc962f129220da0ac07f6d548879a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:28 +0000
Subject: [PATCH 22/62] fix: do not run out of stack while reading a long list

---
 src/kernel/textual_input_port.cpp | 56 +++++++++++++++++++------------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index 1403822..371555e 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -629,40 +629,52 @@ namespace meevax::inline kernel
         return list(make_symbol("quote"), read_datum());
 
       case '(':  // 0x28
-        try
         {
-          let const x = read(character());
+          auto elements = std::vector<object>(); // Not recursive, so that the length of a list is not limited by the size of the stack.
 
-          if (x.is<eof>() and at_end_of_file())
-          {
-            throw incomplete();
-          }
-
-          return cons(x, read(c1));
-        }
-        catch (std::integral_constant<char, ')'> const&)
-        {
-          return nullptr;
-        }
-        catch (std::integral_constant<char, '.'> const&)
-        {
-          let const x = read_datum();
+          let x = unit;
 
           try
           {
-            if (let const y = read(character()); y.is<eof>() and at_end_of_file())
+            while (true)
             {
-              throw incomplete();
+              if (x = read(character()); x.is<eof>() and at_end_of_file())
+              {
+                throw incomplete();
+              }
+
+              elements.push_back(x);
             }
-            else
+          }
+          catch (std::integral_constant<char, ')'> const&)
+          {
+            x = unit;
+          }
+          catch (std::integral_constant<char, '.'> const&)
+          {
+            x = read_datum();
+
+            try
             {
-              throw read_error(make<string>("unexpected datum after the tail of a list"), y);
+              if (let const y = read(character()); y.is<eof>() and at_end_of_file())
+              {
+                throw incomplete();
+              }
+              else
+              {
+                throw read_error(make<string>("unexpected datum after the tail of a list"), y);
+              }
             }
+            catch (std::integral_constant<char, ')'> const&)
+            {}
           }
-          catch (std::integral_constant<char, ')'> const&)
+
+          for (auto iter = std::rbegin(elements); iter != std::rend(elements); ++iter)
           {
-            return x;
+            x = cons(*iter, x);
           }
+
+          return x;
         }
 
       case ')':  // 0x29
-- 
2.43.0


From 25c4f9338164545fe50de76bde376943cfa18a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:23 +0000
Subject: [PATCH 23/62] fix: do not run out of stack while comparing long lists
 with equal?

---
 src/kernel/comparator.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/kernel/comparator.cpp b/src/kernel/comparator.cpp
index ec99334..45ff804 100644
--- a/src/kernel/comparator.cpp
+++ b/src/kernel/comparator.cpp
@@ -87,9 +87,26 @@ namespace meevax::inline kernel
   */
   auto equal(object const& x, object const& y, std::unordered_map<object, object> & forest) -> bool
   {
-    return eqv(x, y) or (x.is<pair>() and
-                         y.is<pair>() and (union_find(x, y, forest) or (equal(car(x), car(y), forest) and
-                                                                        equal(cdr(x), cdr(y), forest))));
+    auto a = std::addressof(x);
+    auto b = std::addressof(y);
+
+    for (; not eqv(*a, *b); a = std::addressof(cdr(*a)), b = std::addressof(cdr(*b))) // Not recursive along the list.
+    {
+      if (not a->is<pair>() or not b->is<pair>())
+      {
+        return false;
+      }
+      else if (union_find(*a, *b, forest))
+      {
+        return true;
+      }
+      else if (not equal(car(*a), car(*b), forest))
+      {
+        return false;
+      }
+    }
+
+    return true;
   }
 
   auto equal(object const& x, object const& y) -> bool
-- 
2.43.0


From 4c54498715d8d5416e311403367d6bb5bf30f79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:23 +0000
Subject: [PATCH 24/62] fix: do not run out of stack while copying, appending
 or reversing long lists

---
 src/kernel/list.cpp | 84 ++++++++++++++++++++++-----------------------
 1 file changed, 42 insertions(+), 42 deletions(-)

diff --git a/src/kernel/list.cpp b/src/kernel/list.cpp
index 90f5abd..7b366c2 100644
--- a/src/kernel/list.cpp
+++ b/src/kernel/list.cpp
@@ -22,26 +22,26 @@ namespace meevax::inline kernel
 {
   auto make_list(std::size_t size, object const& x) -> object
   {
-    if (0 < size)
-    {
-      return cons(x, make_list(--size, x));
-    }
-    else
+    let xs = nullptr;
+
+    for (; 0 < size; --size)
     {
-      return nullptr;
+      xs = cons(x, xs);
     }
+
+    return xs;
   }
 
   auto iota(std::size_t count, object const& start, object const& step) -> object
   {
-    if (0 < count)
-    {
-      return cons(start, iota(count - 1, start + step, step));
-    }
-    else
+    let xs = nullptr;
+
+    for (let x = start; 0 < count; --count, x = x + step)
     {
-      return nullptr;
+      xs = cons(x, xs);
     }
+
+    return reverse(xs);
   }
 
   auto is_proper_list(object const& x0, object const& y0) -> bool
@@ -127,26 +127,26 @@ namespace meevax::inline kernel
 
   auto list_copy(object const& xs) -> object
   {
-    if (xs.is<pair>())
-    {
-      return cons(car(xs), list_copy(cdr(xs)));
-    }
-    else
+    auto iter = std::addressof(xs);
+
+    while (iter->is<pair>())
     {
-      return xs;
+      iter = std::addressof(cdr(*iter));
     }
+
+    return append(xs, *iter);
   }
 
   auto take(object const& x, std::size_t k) -> object
   {
-    if (0 < k)
+    let xs = nullptr;
+
+    for (auto iter = std::addressof(x); 0 < k; iter = std::addressof(cdr(*iter)), --k)
     {
-      return cons(car(x), take(cdr(x), k - 1));
-    }
-    else
-    {
-      return nullptr;
+      xs = cons(car(*iter), xs);
     }
+
+    return reverse(xs);
   }
 
   auto take(object & x, std::size_t k) -> object
@@ -252,14 +252,14 @@ namespace meevax::inline kernel
 
   auto append(object const& x, object const& y) -> object
   {
-    if (x.is<pair>())
+    let xs = nullptr;
+
+    for (auto iter = std::addressof(x); iter->is<pair>(); iter = std::addressof(cdr(*iter)))
     {
-      return cons(car(x), append(cdr(x), y));
-    }
-    else
-    {
-      return y;
+      xs = cons(car(*iter), xs);
     }
+
+    return append_reverse(xs, y);
   }
 
   auto append(object & x, object const& y) -> object &
@@ -281,14 +281,14 @@ namespace meevax::inline kernel
 
   auto append_reverse(object const& x, object const& y) -> object
   {
-    if (x.is<null>())
-    {
-      return y;
-    }
-    else
+    let xs = y;
+
+    for (auto iter = std::addressof(x); not iter->is<null>(); iter = std::addressof(cdr(*iter)))
     {
-      return append_reverse(cdr(x), cons(car(x), y));
+      xs = cons(car(*iter), xs);
     }
+
+    return xs;
   }
 
   auto append_reverse(object & x, object const& y) -> object
@@ -305,14 +305,14 @@ namespace meevax::inline kernel
 
   auto reverse(object const& xs, object const& a) -> object
   {
-    if (xs.is<pair>())
-    {
-      return reverse(cdr(xs), cons(car(xs), a));
-    }
-    else
+    let ys = a;
+
+    for (auto iter = std::addressof(xs); iter->is<pair>(); iter = std::addressof(cdr(*iter)))
     {
-      return a;
+      ys = cons(car(*iter), ys);
     }
+
+    return ys;
   }
 
   auto reverse(object const& xs) -> object
-- 
2.43.0


From a03c99fed99e0035993d2b376d9b7fa03dd0efec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:50 +0000
Subject: [PATCH 25/62] fix: let load without an environment find the
 interaction environment

---
 library/r4rs.ss | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/r4rs.ss b/library/r4rs.ss
index f607d3e..79600d7 100644
--- a/library/r4rs.ss
+++ b/library/r4rs.ss
@@ -53,7 +53,7 @@
           (only (meevax vector) vector? make-vector vector vector-length vector-ref vector-set! vector->list list->vector vector-fill!)
           (prefix (meevax read) %)
           (prefix (meevax write) %)
-          (prefix (only (meevax environment) load) %)
+          (prefix (only (meevax environment) interaction-environment load) %)
           (only (srfi 39) make-parameter parameterize)
           (only (srfi 45) delay force))
 
-- 
2.43.0


From a867374dd621c480df97be70865456668a31b4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:27 +0000
Subject: [PATCH 26/62] fix: report a failure to read from the standard input

---
 include/meevax/kernel/standard_input_port.hpp | 2 ++
 include/meevax/kernel/textual_input_port.hpp  | 2 ++
 src/kernel/standard_input_port.cpp            | 7 +++++++
 src/kernel/textual_input_port.cpp             | 9 +++++++--
 4 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/meevax/kernel/standard_input_port.hpp b/include/meevax/kernel/standard_input_port.hpp
index c83d1c9..f1804e1 100644
--- a/include/meevax/kernel/standard_input_port.hpp
+++ b/include/meevax/kernel/standard_input_port.hpp
@@ -25,6 +25,8 @@ namespace meevax::inline kernel
   {
     auto close() -> void override;
 
+    auto failed() const -> bool override;
+
     auto is_open() const -> bool override;
 
     auto istream() const -> std::istream const& override;
diff --git a/include/meevax/kernel/textual_input_port.hpp b/include/meevax/kernel/textual_input_port.hpp
index d8e1045..be547e4 100644
--- a/include/meevax/kernel/textual_input_port.hpp
+++ b/include/meevax/kernel/textual_input_port.hpp
@@ -120,6 +120,8 @@ namespace meevax::inline kernel
 
     virtual auto peeked() -> std::optional<character> &; // The character that peek_character took and take_character did not yet.
 
+    virtual auto failed() const -> bool; // Whether reading from the source failed, as opposed to reaching its end.
+
     virtual auto istream() -> std::istream & = 0;
 
     virtual auto istream() const -> std::istream const& = 0;
diff --git a/src/kernel/standard_input_port.cpp b/src/kernel/standard_input_port.cpp
index c7e8fc9..1c56a52 100644
--- a/src/kernel/standard_input_port.cpp
+++ b/src/kernel/standard_input_port.cpp
@@ -14,10 +14,17 @@
    limitations under the License.
 */
 
+#include <cstdio>
+
 #include <meevax/kernel/standard_input_port.hpp>
 
 namespace meevax::inline kernel
 {
+  auto standard_input_port::failed() const -> bool
+  {
+    return std::cin.bad() or std::ferror(stdin); // std::cin reads from stdin.
+  }
+
   auto standard_input_port::is_open() const -> bool
   {
     return true;
diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index 371555e..e8502b1 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -153,6 +153,11 @@ namespace meevax::inline kernel
     }
   }
 
+  auto textual_input_port::failed() const -> bool
+  {
+    return istream().bad();
+  }
+
   auto textual_input_port::get_line() -> object
   {
     if (peek_character().is_eof())
@@ -761,7 +766,7 @@ namespace meevax::inline kernel
         {
           codepoint = codepoint << 6 | (source.get() & 0b0011'1111);
         }
-        else if (character::is_eof(c) and source.bad())
+        else if (character::is_eof(c) and failed())
         {
           throw file_error(make<string>("failed to read from the underlying input stream"), unit);
         }
@@ -774,7 +779,7 @@ namespace meevax::inline kernel
       return character(codepoint);
     };
 
-    if (auto const c = source.peek(); character::is_eof(c) and source.bad())
+    if (auto const c = source.peek(); character::is_eof(c) and failed())
     {
       throw file_error(make<string>("failed to read from the underlying input stream"), unit);
     }
-- 
2.43.0


From a444404d2eb765144e1af66aa8cd48b8851c7e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 27/62] fix: append any number of bytevectors

---
 src/kernel/boot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index d8edc1d..d576353 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -425,7 +425,7 @@ namespace meevax::inline kernel
       { #TAG "vector-set!",              [](let const& xs) { car(xs).as<TAG##vector>().values[exact_integer_cast<std::size_t>(cadr(xs))] = TAG##vector::input_cast(caddr(xs)); return unspecified; } }, \
       { #TAG "vector-copy",              [](let const& xs) { auto copy = [&](std::size_t begin, std::size_t end) { assert(begin <= end); return make<TAG##vector>(car(xs).as<TAG##vector>().values[std::slice(begin, end - begin, 1)]); }; switch (length(xs)) { case 1: return copy(0, car(xs).as<TAG##vector>().values.size()); case 2: return copy(exact_integer_cast<std::size_t>(cadr(xs)), car(xs).as<TAG##vector>().values.size()); case 3: return copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(caddr(xs))); default: throw error(make<string>("procedure " #TAG "vector-copy takes one to three arguments, but got"), xs); } } }, \
       { #TAG "vector-copy!",             [](let const& xs) { auto copy = [&](std::size_t at, std::size_t begin, std::size_t end) { assert(begin <= end); auto i = std::slice(at, end - begin, 1); auto j = std::slice(begin, end - begin, 1); car(xs).as_mutable<TAG##vector>().values[i] = caddr(xs).as<TAG##vector>().values[j]; }; switch (length(xs)) { case 3: copy(exact_integer_cast<std::size_t>(cadr(xs)), 0, caddr(xs).as<TAG##vector>().values.size()); return unspecified; case 4: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), caddr(xs).as<TAG##vector>().values.size()); return unspecified; case 5: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), exact_integer_cast<std::size_t>(caddddr(xs))); return unspecified; default: throw error(make<string>("procedure " #TAG "vector-copy! takes three to five arguments, but got"), xs); } } }, \
-      { #TAG "vector-append",            [](let const& xs) { auto const& a = car(xs).as<TAG##vector>(); auto const& b = cadr(xs).as<TAG##vector>(); let const c = make<TAG##vector>(a.values.size() + b.values.size()); c.as<TAG##vector>().values[std::slice(0, a.values.size(), 1)] = a.values; c.as<TAG##vector>().values[std::slice(a.values.size(), b.values.size(), 1)] = b.values; return c; } }, \
+      { #TAG "vector-append",            [](let const& xs) { auto size = std::size_t(0); for (let const& x : xs | as_proper_list) { size += x.as<TAG##vector>().values.size(); } let const c = make<TAG##vector>(size); auto begin = std::begin(c.as<TAG##vector>().values); for (let const& x : xs | as_proper_list) { begin = std::copy(std::begin(x.as<TAG##vector>().values), std::end(x.as<TAG##vector>().values), begin); } return c; } }, \
       { #TAG "vector->list",             [](let const& xs) { auto list = [](auto&& v, auto&& a, auto&& b) { auto xcons = [](auto&& x, auto&& y) { return cons(TAG##vector::output_cast(y), x); }; return reverse(std::accumulate(std::next(std::begin(v), a), std::next(std::begin(v), b), unit, xcons)); }; switch (length(xs)) { case 1: return list(car(xs).as<TAG##vector>().values, 0, car(xs).as<TAG##vector>().values.size()); case 2: return list(car(xs).as<TAG##vector>().values, exact_integer_cast<std::size_t>(cadr(xs)), car(xs).as<TAG##vector>().values.size()); case 3: return list(car(xs).as<TAG##vector>().values, exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(caddr(xs))); default: throw error(make<string>("procedure " #TAG "vector->list takes one to three arguments, but got"), xs); } } }, \
       { "list->" #TAG "vector",          [](let const& xs) { return make<TAG##vector>(car(xs) | as_proper_list); } }
 
-- 
2.43.0


From 5c61605e1646217a362c661a4f7a20ebd8caa3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:08 +0000
Subject: [PATCH 28/62] fix: share the box of a promise with the promise that
 stands for it

---
 library/srfi-45.ss | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/srfi-45.ss b/library/srfi-45.ss
index 5a550fe..3666edb 100644
--- a/library/srfi-45.ss
+++ b/library/srfi-45.ss
@@ -25,7 +25,7 @@
          (define (promise-update! new old)
            (set-car! (cdr old) (promise-done? new))
            (set-cdr! (cdr old) (promise-value new))
-           (set-car! new (cdr old)))
+           (set-cdr! new (cdr old)))
 
          (define (force promise)
            (if (promise-done? promise)
-- 
2.43.0


From 8feb33a991071dde24c817ddb049bc1c41bc97f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:58 +0000
Subject: [PATCH 29/62] fix: do not look up characters that are not ASCII in
 the table of printable characters

---
 src/kernel/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/string.cpp b/src/kernel/string.cpp
index 2ce1822..b9e9d22 100644
--- a/src/kernel/string.cpp
+++ b/src/kernel/string.cpp
@@ -56,7 +56,7 @@ namespace meevax::inline kernel
   {
     auto put = [&](character const& c) -> decltype(auto)
     {
-      if (std::isprint(c.codepoint))
+      if (character::is_ascii(c.codepoint) and std::isprint(c.codepoint)) // NOTE: The behavior of std::isprint is undefined for values that unsigned char cannot represent.
       {
         switch (c.codepoint)
         {
-- 
2.43.0


From bcd19621dc75bf1723cee8a894e8ee9217a9e574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:58 +0000
Subject: [PATCH 30/62] fix: consume an invalid byte when it is reported

---
 src/kernel/textual_input_port.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index e8502b1..dba636f 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -801,6 +801,8 @@ namespace meevax::inline kernel
     }
     else
     {
+      source.get(); // Consume the byte, otherwise no subsequent operation on this port would ever get past it.
+
       throw read_error(make<string>("an end of file is encountered after the beginning of an object's external representation, but the external representation is incomplete and therefore not parsable"), unit);
     }
   }
-- 
2.43.0


From 3db183c53d86653792203efe5976c53d34aab7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:12 +0000
Subject: [PATCH 31/62] fix: report literals that cannot be converted as read
 errors

---
 src/kernel/textual_input_port.cpp | 50 +++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index dba636f..bebda45 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -277,6 +277,30 @@ namespace meevax::inline kernel
       }
     };
 
+    static constexpr auto elements = [](object const& datum) -> object const&
+    {
+      if (is_proper_list(datum))
+      {
+        return datum;
+      }
+      else
+      {
+        throw read_error(make<string>("the elements of a vector must be a proper list"), datum);
+      }
+    };
+
+    auto literal = [](auto convert, object const& datum) -> object // Converts a datum that has been read to the object it denotes.
+    {
+      try
+      {
+        return convert(datum);
+      }
+      catch (error const& error)
+      {
+        throw read_error(error.message(), error.irritants());
+      }
+    };
+
     auto is_digit = [](auto c)
     {
       return std::isdigit(c);
@@ -461,16 +485,16 @@ namespace meevax::inline kernel
           }
 
         case 'e':
-          return number::exact(read_datum()); // NOTE: Same as #,(exact (read))
+          return literal(number::exact, read_datum()); // NOTE: Same as #,(exact (read))
 
         case 'f':
           switch (std::stoi(take_character_while(is_digit, character('0'))))
           {
           case 32:
-            return make<f32vector>(read_datum() | as_proper_list);
+            return literal([](let const& x) { return make<f32vector>(elements(x) | as_proper_list); }, read_datum());
 
           case 64:
-            return make<f64vector>(read_datum() | as_proper_list);
+            return literal([](let const& x) { return make<f64vector>(elements(x) | as_proper_list); }, read_datum());
 
           default:
             take_token(c2);
@@ -478,7 +502,7 @@ namespace meevax::inline kernel
           }
 
         case 'i':
-          return number::inexact(read_datum()); // NOTE: Same as #,(inexact (read))
+          return literal(number::inexact, read_datum()); // NOTE: Same as #,(inexact (read))
 
         case 'o':
           switch (auto c3 = take_character())
@@ -494,16 +518,16 @@ namespace meevax::inline kernel
           switch (auto n = take_character_while(is_digit); std::stoi(n))
           {
           case 8:
-            return make<s8vector>(read_datum() | as_proper_list);
+            return literal([](let const& x) { return make<s8vector>(elements(x) | as_proper_list); }, read_datum());
 
           case 16:
-            return make<s16vector>(read_datum() | as_proper_list);
+            return literal([](let const& x) { return make<s16vector>(elements(x) | as_proper_list); }, read_datum());
 
           case 32:
-            return make<s32vector>(read_datum() | as_proper_list);
+            return literal([](let const& x) { return make<s32vector>(elements(x) | as_proper_list); }, read_datum());
 
           case 64:
-            return make<s64vector>(read_datum() | as_proper_list);
+            return literal([](let const& x) { return make<s64vector>(elements(x) | as_proper_list); }, read_datum());
 
           default:
             throw read_error(make<string>("An unknown literal expression was encountered"),
@@ -518,16 +542,16 @@ namespace meevax::inline kernel
           switch (auto const n = take_character_while(is_digit); std::stoi(n))
           {
           case 8:
-            return make<u8vector>(read_datum() | as_proper_list);
+            return literal([](let const& x) { return make<u8vector>(elements(x) | as_proper_list); }, read_datum());
 
           case 16:
-            return make<u16vector>(read_datum() | as_proper_list);
+            return literal([](let const& x) { return make<u16vector>(elements(x) | as_proper_list); }, read_datum());
 
           case 32:
-            return make<u32vector>(read_datum() | as_proper_list);
+            return literal([](let const& x) { return make<u32vector>(elements(x) | as_proper_list); }, read_datum());
 
           case 64:
-            return make<u64vector>(read_datum() | as_proper_list);
+            return literal([](let const& x) { return make<u64vector>(elements(x) | as_proper_list); }, read_datum());
 
           default:
             throw read_error(make<string>("An unknown literal expression was encountered"),
@@ -545,7 +569,7 @@ namespace meevax::inline kernel
           }
 
         case '(':
-          return make<vector>(read(c2) | as_proper_list);
+          return literal([](let const& x) { return make<vector>(elements(x) | as_proper_list); }, read(c2));
 
         case '\\':
           if (auto c3 = take_character(); c3.is_eof())
-- 
2.43.0


From a64db48ada4501f6c51fd6ee047e6918f2c590cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:30 +0000
Subject: [PATCH 32/62] fix: return an empty string for an empty bytevector in
 utf8->string

---
 src/kernel/boot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index d576353..170a63b 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -433,7 +433,7 @@ namespace meevax::inline kernel
       REGISTER_VECTOR(u8), REGISTER_VECTOR(u16), REGISTER_VECTOR(u32), REGISTER_VECTOR(u64),
                                                  REGISTER_VECTOR(f32), REGISTER_VECTOR(f64),
 
-      { "u8vector->string",              [](let const& xs) { auto buffer = std::ostringstream(); auto print = [&](auto const& x) { buffer << x; }; switch (length(xs)) { case 1: std::for_each(std::begin(car(xs).as<u8vector>().values), std::end(car(xs).as<u8vector>().values), print); break; case 2: std::for_each(std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(cadr(xs))), std::end(car(xs).as<u8vector>().values), print); break; case 3: std::for_each(std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(cadr(xs))), std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(caddr(xs))), print); break; default: throw error(make<string>("procedure u8vector->string takes one to three arguments, but got"), xs); } return input_string_port(buffer.str()).get(std::numeric_limits<std::size_t>::max()); } },
+      { "u8vector->string",              [](let const& xs) { auto buffer = std::ostringstream(); auto print = [&](auto const& x) { buffer << x; }; switch (length(xs)) { case 1: std::for_each(std::begin(car(xs).as<u8vector>().values), std::end(car(xs).as<u8vector>().values), print); break; case 2: std::for_each(std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(cadr(xs))), std::end(car(xs).as<u8vector>().values), print); break; case 3: std::for_each(std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(cadr(xs))), std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(caddr(xs))), print); break; default: throw error(make<string>("procedure u8vector->string takes one to three arguments, but got"), xs); } return make<string>(buffer.str()); } },
       { "string->u8vector",              [](let const& xs) { auto convert = [](std::string const& s) { return make<u8vector>(reinterpret_cast<std::uint8_t const*>(s.data()), s.size()); }; return convert(car(xs).as<string>().utf8()); } },
 
       { "put-char",                      [](let const& xs) { cadr(xs).as<textual_output_port>().put(car(xs).as<character>()); return unspecified; } },
-- 
2.43.0


From 865a4807e562768c65aceb4f9d627d6fde6e03a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:39 +0000
Subject: [PATCH 33/62] fix: read numbers that are too small or too large for
 the normal range of double

---
 src/kernel/number.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 89ab84c..51861e1 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -462,7 +462,7 @@ namespace meevax::inline kernel
           case 'D': case 'd':
           case 'E': case 'e':
           default:
-            return make<double>(std::stod(literal));
+            return make<double>(std::strtod(literal.c_str(), nullptr));
 
           case 'F': case 'f':
             return make<float>(std::stof(literal.substr().replace(result.position(1), 1, "e")));
@@ -470,7 +470,7 @@ namespace meevax::inline kernel
         }
         else
         {
-          return make<double>(std::stod(literal));
+          return make<double>(std::strtod(literal.c_str(), nullptr));
         }
       }
       else
-- 
2.43.0


From 0b89493fe1b139d7388ef46812fb2268e2a584e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 34/62] fix: write symbols that would be read as something else
 with quotation marks

---
 src/kernel/symbol.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/kernel/symbol.cpp b/src/kernel/symbol.cpp
index edfd965..3dad88e 100644
--- a/src/kernel/symbol.cpp
+++ b/src/kernel/symbol.cpp
@@ -17,6 +17,7 @@
 #include <algorithm>
 #include <meevax/kernel/collector.hpp>
 #include <meevax/kernel/error.hpp>
+#include <meevax/kernel/number.hpp>
 #include <meevax/kernel/string.hpp>
 #include <meevax/kernel/symbol.hpp>
 #include <meevax/kernel/textual_input_port.hpp>
@@ -28,13 +29,34 @@ namespace meevax::inline kernel
     return a.name + b.name;
   }
 
+  auto is_token_of_another_kind(std::string const& name) // That is, the token is not read as a symbol.
+  {
+    if (name == ".")
+    {
+      return true;
+    }
+    else if (std::string_view("+-.0123456789").find(name.front()) == std::string_view::npos)
+    {
+      return false;
+    }
+    else try
+    {
+      make_number(name, 10);
+      return true;
+    }
+    catch (std::invalid_argument const&)
+    {
+      return false;
+    }
+  }
+
   auto operator <<(std::ostream & os, symbol const& datum) -> std::ostream &
   {
     if (datum.name.empty())
     {
       return os << "||";
     }
-    else if (std::find_if(datum.name.begin(), datum.name.end(), is_special_character) != datum.name.end())
+    else if (std::find_if(datum.name.begin(), datum.name.end(), is_special_character) != datum.name.end() or is_token_of_another_kind(datum.name))
     {
       return os << cyan("#") << string(datum.name);
     }
-- 
2.43.0


From 2148d595f22146beeb0f60ad86c392d20a93fcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 35/62] fix: resolve datum labels in cars and vectors, and
 after the datum they label

---
 src/kernel/textual_input_port.cpp | 60 +++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 14 deletions(-)

diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index bebda45..7c17c1e 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -14,6 +14,8 @@
    limitations under the License.
 */
 
+#include <unordered_set>
+
 #include <meevax/iostream/lexical_cast.hpp>
 #include <meevax/kernel/boolean.hpp>
 #include <meevax/kernel/environment.hpp>
@@ -85,19 +87,48 @@ namespace meevax::inline kernel
     {}
   };
 
-  auto circulate(object & xs, object const& x, std::string const& n) -> void
+  /*
+     Replaces the references to a datum label in a datum by the datum. Data
+     already labeled may be circular or shared and are visited once.
+  */
+  auto circulate(object const& x, object const& label) -> void
   {
-    if (xs.is<pair>())
+    auto visited = std::unordered_set<void const*>();
+
+    auto unvisited = std::vector<object>({ x });
+
+    auto visit = [&](object & y)
     {
-      circulate(car(xs), x, n);
+      if (y == label)
+      {
+        y = x;
+      }
+      else if (y.is<pair>() or y.is<vector>())
+      {
+        unvisited.push_back(y);
+      }
+    };
 
-      if (cdr(xs).is<datum_label>() and cdr(xs).as<datum_label>().n == n)
+    while (not unvisited.empty())
+    {
+      let y = unvisited.back();
+
+      unvisited.pop_back();
+
+      if (y.is<pair>())
       {
-        cdr(xs) = x;
+        if (visited.insert(std::addressof(y.as<pair>())).second)
+        {
+          visit(cdr(y));
+          visit(car(y));
+        }
       }
-      else
+      else if (y.is<vector>())
       {
-        circulate(cdr(xs), x, n);
+        if (visited.insert(std::addressof(y.as<vector>())).second)
+        {
+          std::ranges::for_each(y.as<vector>().objects, visit);
+        }
       }
     }
   }
@@ -218,7 +249,9 @@ namespace meevax::inline kernel
   {
     try
     {
-      return read(character());
+      let const x = read(character());
+      datum_labels.clear();
+      return x;
     }
     catch (std::integral_constant<char, ')'> const&)
     {
@@ -439,17 +472,16 @@ namespace meevax::inline kernel
               }
 
             case '=':
-              if (auto [iter, success] = datum_labels.emplace(n, make<datum_label>(n)); success)
+              if (let const label = make<datum_label>(n); datum_labels.emplace(n, label).second)
               {
-                if (let xs = read_datum(); xs != iter->second)
+                if (let xs = read_datum(); xs != label)
                 {
-                  circulate(xs, xs, n);
-                  datum_labels.erase(n);
-                  return xs;
+                  circulate(xs, label);
+                  return datum_labels[n] = xs; // The label is in scope until the end of the outermost datum.
                 }
                 else
                 {
-                  return nullptr;
+                  return datum_labels[n] = nullptr;
                 }
               }
               else
-- 
2.43.0


From a3c3a4f61cd243a6daf9e08d9a16f0319f317f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 36/62] fix: read numbers with a plus sign as exact numbers

---
 src/kernel/number.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 51861e1..7e3b2c0 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -402,6 +402,11 @@ namespace meevax::inline kernel
 
   auto make_rational(std::string const& literal, int radix) -> object
   {
+    if (2 <= literal.length() and literal[0] == '+' and literal[1] != '+' and literal[1] != '-')
+    {
+      return make_rational(literal.substr(1), radix);
+    }
+
     try
     {
       return make_integer(literal, radix);
-- 
2.43.0


From 10773a18fc45049f96460dec771955bc9489f033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 37/62] fix: do not take the sign of an exponent for that of an
 imaginary part

---
 src/kernel/complex.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/kernel/complex.cpp b/src/kernel/complex.cpp
index 22e8df4..56d291a 100644
--- a/src/kernel/complex.cpp
+++ b/src/kernel/complex.cpp
@@ -25,7 +25,12 @@ namespace meevax::inline kernel
 {
   complex::complex(std::string const& token, int radix)
   {
-    std::regex static const rectangular { R"(([+-]?.*)([+-].*)i)" };
+    // NOTE: In decimal, a sign after an exponent marker does not begin the imaginary part.
+    std::regex static const decimal_rectangular { R"((.*[^Ee]|)([+-].*)i)" };
+
+    std::regex static const radix_rectangular { R"((.*)([+-].*)i)" };
+
+    auto const& rectangular = radix == 10 ? decimal_rectangular : radix_rectangular;
 
     std::regex static const polar { R"(([+-]?.*)@([+-]?.*))" };
 
-- 
2.43.0


From ac76f55388e2caf26bd9490aca3d65c5bdcd9c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:11 +0000
Subject: [PATCH 38/62] fix: let the elements of a vector share datum labels
 when they are written

---
 include/meevax/kernel/datum_labels.hpp | 59 ++++++++++++++++++++++++++
 src/kernel/pair.cpp                    | 35 +--------------
 src/kernel/vector.cpp                  |  3 ++
 3 files changed, 63 insertions(+), 34 deletions(-)
 create mode 100644 include/meevax/kernel/datum_labels.hpp

diff --git a/include/meevax/kernel/datum_labels.hpp b/include/meevax/kernel/datum_labels.hpp
new file mode 100644
index 0000000..140deca
--- /dev/null
+++ b/include/meevax/kernel/datum_labels.hpp
@@ -0,0 +1,59 @@
+/*
+   Copyright 2018-2025 Tatsuya Yamasaki.
+
+   Licensed under the Apache License, Version 2.0 (the "License");
+   you may not use this file except in compliance with the License.
+   You may obtain a copy of the License at
+
+       http://www.apache.org/licenses/LICENSE-2.0
+
+   Unless required by applicable law or agreed to in writing, software
+   distributed under the License is distributed on an "AS IS" BASIS,
+   WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+   See the License for the specific language governing permissions and
+   limitations under the License.
+*/
+
+#ifndef INCLUDED_MEEVAX_KERNEL_DATUM_LABELS_HPP
+#define INCLUDED_MEEVAX_KERNEL_DATUM_LABELS_HPP
+
+#include <meevax/kernel/pair.hpp>
+#include <unordered_map>
+
+namespace meevax::inline kernel
+{
+  struct datum_labels
+  {
+    std::ostream & os;
+
+    auto static inline count_index = std::ios_base::xalloc();
+
+    auto static inline table_index = std::ios_base::xalloc();
+
+    using table = std::unordered_map<pair const*, std::size_t>;
+
+    explicit datum_labels(std::ostream & os)
+      : os { os }
+    {
+      if (not os.iword(count_index)++)
+      {
+        os.pword(table_index) = new table();
+      }
+    }
+
+    ~datum_labels()
+    {
+      if (not --os.iword(count_index))
+      {
+        delete static_cast<table *>(std::exchange(os.pword(table_index), nullptr));
+      }
+    }
+
+    auto static of(std::ostream & os)
+    {
+      return static_cast<table *>(os.pword(table_index));
+    }
+  };
+} // namespace meevax::kernel
+
+#endif // INCLUDED_MEEVAX_KERNEL_DATUM_LABELS_HPP
diff --git a/src/kernel/pair.cpp b/src/kernel/pair.cpp
index 41a6bb8..c46a265 100644
--- a/src/kernel/pair.cpp
+++ b/src/kernel/pair.cpp
@@ -15,8 +15,8 @@
 */
 
 #include <meevax/kernel/circular_list.hpp>
+#include <meevax/kernel/datum_labels.hpp>
 #include <meevax/kernel/list.hpp>
-#include <unordered_map>
 
 namespace meevax::inline kernel
 {
@@ -35,39 +35,6 @@ namespace meevax::inline kernel
     return o << static_cast<pair const&>(*this);
   }
 
-  struct datum_labels
-  {
-    std::ostream & os;
-
-    auto static inline count_index = std::ios_base::xalloc();
-
-    auto static inline table_index = std::ios_base::xalloc();
-
-    using table = std::unordered_map<pair const*, std::size_t>;
-
-    explicit datum_labels(std::ostream & os)
-      : os { os }
-    {
-      if (not os.iword(count_index)++)
-      {
-        os.pword(table_index) = new table();
-      }
-    }
-
-    ~datum_labels()
-    {
-      if (not --os.iword(count_index))
-      {
-        delete static_cast<table *>(std::exchange(os.pword(table_index), nullptr));
-      }
-    }
-
-    auto static of(std::ostream & os)
-    {
-      return static_cast<table *>(os.pword(table_index));
-    }
-  };
-
   auto operator <<(std::ostream & os, pair const& datum) -> std::ostream &
   {
     auto _ = datum_labels(os);
diff --git a/src/kernel/vector.cpp b/src/kernel/vector.cpp
index 8d0de4c..cd475ed 100644
--- a/src/kernel/vector.cpp
+++ b/src/kernel/vector.cpp
@@ -17,6 +17,7 @@
 #include <numeric>
 
 #include <meevax/kernel/comparator.hpp>
+#include <meevax/kernel/datum_labels.hpp>
 #include <meevax/kernel/vector.hpp>
 
 namespace meevax::inline kernel
@@ -28,6 +29,8 @@ namespace meevax::inline kernel
 
   auto operator <<(std::ostream & output, heterogeneous_vector const& datum) -> std::ostream &
   {
+    auto _ = datum_labels(output); // The elements share datum labels.
+
     output << magenta("#(");
 
     auto whitespace = "";
-- 
2.43.0


From 5fea68b4588f450d0da9034229ed3309f602cc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:36 +0000
Subject: [PATCH 39/62] fix: keep the list of what is imported or included
 alive while it is walked

---
 src/kernel/environment.cpp | 12 +++++++++---
 src/kernel/library.cpp     |  4 +++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/kernel/environment.cpp b/src/kernel/environment.cpp
index b8c0e66..e2bff98 100644
--- a/src/kernel/environment.cpp
+++ b/src/kernel/environment.cpp
@@ -47,7 +47,9 @@ namespace meevax::inline kernel
       }
       else if (name == "include")
       {
-        for (let const& command_or_definition : include(cdr(expression)) | as_proper_list)
+        let const commands_or_definitions = include(cdr(expression)); // NOTE: as_proper_list does not keep the list alive.
+
+        for (let const& command_or_definition : commands_or_definitions | as_proper_list)
         {
           evaluate(command_or_definition);
         }
@@ -56,7 +58,9 @@ namespace meevax::inline kernel
       }
       else if (name == "include-ci")
       {
-        for (let const& command_or_definition : include<case_insensitive>(cdr(expression)) | as_proper_list)
+        let const commands_or_definitions = include<case_insensitive>(cdr(expression));
+
+        for (let const& command_or_definition : commands_or_definitions | as_proper_list)
         {
           evaluate(command_or_definition);
         }
@@ -169,7 +173,9 @@ namespace meevax::inline kernel
 
   auto environment::import(object const& form) -> void
   {
-    for (let const& x : import_set(form) | as_proper_list)
+    let const identities = import_set(form);
+
+    for (let const& x : identities | as_proper_list)
     {
       assert(x.is<absolute>());
 
diff --git a/src/kernel/library.cpp b/src/kernel/library.cpp
index 6667f9e..25235e0 100644
--- a/src/kernel/library.cpp
+++ b/src/kernel/library.cpp
@@ -48,7 +48,9 @@ namespace meevax::inline kernel
       }
       else if (name == "include-library-declarations")
       {
-        for (let const& library_declaration : include(cdr(declaration)) | as_proper_list)
+        let const library_declarations = include(cdr(declaration)); // NOTE: as_proper_list does not keep the list alive.
+
+        for (let const& library_declaration : library_declarations | as_proper_list)
         {
           evaluate(library_declaration);
         }
-- 
2.43.0


From 709d3167ebd682a4bb312a6defd103bbc684e2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:51 +0000
Subject: [PATCH 40/62] fix: include what the files contain where include is
 not at the outermost level

---
 src/kernel/expander.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel/expander.cpp b/src/kernel/expander.cpp
index f043d3c..c3dc154 100644
--- a/src/kernel/expander.cpp
+++ b/src/kernel/expander.cpp
@@ -166,7 +166,7 @@ namespace meevax::inline kernel
   EXPANDER(expander::include)
   {
     return expander.expand(cons(default_rename("begin"),
-                                meevax::include(cadr(form))),
+                                meevax::include(cdr(form))),
                            bound_variables,
                            alpha);
   }
@@ -174,7 +174,7 @@ namespace meevax::inline kernel
   EXPANDER(expander::include_case_insensitive)
   {
     return expander.expand(cons(default_rename("begin"),
-                                meevax::include<case_insensitive>(cadr(form))),
+                                meevax::include<case_insensitive>(cdr(form))),
                            bound_variables,
                            alpha);
   }
-- 
2.43.0


From 7a65587b07ed1878548818ca0eaf86417d4d6cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:51 +0000
Subject: [PATCH 41/62] fix: forget the source files of pairs that are
 reclaimed

---
 src/kernel/collector.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/kernel/collector.cpp b/src/kernel/collector.cpp
index e0bfc71..d667835 100644
--- a/src/kernel/collector.cpp
+++ b/src/kernel/collector.cpp
@@ -16,6 +16,7 @@
 
 #include <meevax/kernel/collector.hpp>
 #include <meevax/kernel/object.hpp>
+#include <meevax/kernel/textual_context.hpp>
 #include <meevax/memory/pointer_set.hpp>
 #include <vector>
 
@@ -203,6 +204,12 @@ namespace meevax::inline kernel
 
     data.swap(new_data);
 
+    // The address of a deleted pair may be reused by a pair that was not read from the same file, or not read at all.
+    std::erase_if(textual_context::proxies, [](auto const& proxy)
+                  {
+                    return not data.contains(proxy.first);
+                  });
+
     capacity = std::max(capacity, size + (size / 2));
   }
 
-- 
2.43.0


From 01e9e9cb224e491b356bf83a4003f594fbf22816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 42/62] fix: resolve the declarations of a library again after
 a failure

---
 src/kernel/library.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/kernel/library.cpp b/src/kernel/library.cpp
index 25235e0..ccc59b6 100644
--- a/src/kernel/library.cpp
+++ b/src/kernel/library.cpp
@@ -77,9 +77,24 @@ namespace meevax::inline kernel
     {
       assert(declarations.is<null>());
 
-      for (let const& unresolved_declaration : unresolved_declarations | as_proper_list)
+      auto const a = evaluator.a;
+
+      let const second = evaluator.second;
+
+      try
+      {
+        for (let const& unresolved_declaration : unresolved_declarations | as_proper_list)
+        {
+          evaluate(unresolved_declaration);
+        }
+      }
+      catch (...) // NOTE: The next import resolves the declarations again, from the beginning.
       {
-        evaluate(unresolved_declaration);
+        declarations = unresolved_declarations;
+        export_specs = unit;
+        evaluator.a = a;
+        evaluator.second = second;
+        throw;
       }
     }
 
-- 
2.43.0


From c4f0ed52223c4c937944b13ee1184c54e3594da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:38 +0000
Subject: [PATCH 43/62] fix: remember source files by the path that is looked
 up

---
 include/meevax/kernel/input_file_port.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/meevax/kernel/input_file_port.hpp b/include/meevax/kernel/input_file_port.hpp
index d358b6e..434cee3 100644
--- a/include/meevax/kernel/input_file_port.hpp
+++ b/include/meevax/kernel/input_file_port.hpp
@@ -33,7 +33,7 @@ namespace meevax::inline kernel
       : name     { std::filesystem::canonical(name) }
       , ifstream { name, std::forward<decltype(xs)>(xs)... }
     {
-      textual_context::paths.emplace(name);
+      textual_context::paths.emplace(this->name);
     }
 
     auto close() -> void override;
-- 
2.43.0


From 4eddf7356a32abe40b1a31047127f7b98651c714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:41 +0000
Subject: [PATCH 44/62] fix: evaluate an empty sequence

---
 src/kernel/generator.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/kernel/generator.cpp b/src/kernel/generator.cpp
index 54869fb..09d742b 100644
--- a/src/kernel/generator.cpp
+++ b/src/kernel/generator.cpp
@@ -188,7 +188,12 @@ namespace meevax::inline kernel
 
   GENERATOR(generator::sequence)
   {
-    if (cdr(form).is<null>()) // is tail sequence
+    if (form.is<null>()) // is empty sequence
+    {
+      return cons(make<instruction>(instruction::secd_load_constant), unspecified,
+                  continuation);
+    }
+    else if (cdr(form).is<null>()) // is tail sequence
     {
       return generator.generate(car(form),
                                 bound_variables,
-- 
2.43.0


From 01257ce21676dd20b24d9006676a8811bcc85184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:52 +0000
Subject: [PATCH 45/62] fix: do not run out of stack while skipping comments

---
 src/kernel/textual_input_port.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index 7c17c1e..4ea2a17 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -433,14 +433,14 @@ namespace meevax::inline kernel
             take_character_until([](auto c) { return c == '\n'; });
           }
 
-          return read(character());
+          continue;
 
         case ',': // SRFI 10
           return interaction_environment().as<environment>().evaluate(read_datum());
 
         case ';': // SRFI 62
           read_datum(); // Discard an expression.
-          return read(character());
+          continue;
 
         case '"':
           return make_symbol(take_quoted(c2).utf8());
@@ -680,7 +680,7 @@ namespace meevax::inline kernel
             }
           }
 
-          return read(character());
+          continue;
 
         default:
           throw read_error(make<string>("unknown discriminator"), make<character>(c2));
-- 
2.43.0


From 7a55f7974dfb8c11ae81a8d620396e1d5354a0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 46/62] fix: do not run out of stack while reading a long token

---
 src/kernel/complex.cpp | 34 +++++++++++++++----------
 src/kernel/number.cpp  | 58 ++++++++++++++++++++++++++++++++++--------
 2 files changed, 67 insertions(+), 25 deletions(-)

diff --git a/src/kernel/complex.cpp b/src/kernel/complex.cpp
index 56d291a..30f0013 100644
--- a/src/kernel/complex.cpp
+++ b/src/kernel/complex.cpp
@@ -14,8 +14,6 @@
    limitations under the License.
 */
 
-#include <regex>
-
 #include <meevax/iostream/lexical_cast.hpp>
 #include <meevax/kernel/list.hpp>
 #include <meevax/kernel/number.hpp>
@@ -25,24 +23,32 @@ namespace meevax::inline kernel
 {
   complex::complex(std::string const& token, int radix)
   {
-    // NOTE: In decimal, a sign after an exponent marker does not begin the imaginary part.
-    std::regex static const decimal_rectangular { R"((.*[^Ee]|)([+-].*)i)" };
-
-    std::regex static const radix_rectangular { R"((.*)([+-].*)i)" };
+    // NOTE: Not std::regex, which takes stack in proportion to the length of the token.
+    auto imaginary = [&]() // Where the imaginary part begins.
+    {
+      auto i = token.ends_with('i') ? token.find_last_of("+-") : std::string::npos;
 
-    auto const& rectangular = radix == 10 ? decimal_rectangular : radix_rectangular;
+      // NOTE: In decimal, a sign after an exponent marker does not begin the imaginary part.
+      while (radix == 10 and i != std::string::npos and 0 < i and (token[i - 1] == 'E' or token[i - 1] == 'e'))
+      {
+        i = token.find_last_of("+-", i - 1);
+      }
 
-    std::regex static const polar { R"(([+-]?.*)@([+-]?.*))" };
+      return i;
+    };
 
-    if (std::smatch result; std::regex_match(token, result, rectangular))
+    if (auto const i = imaginary(); i != std::string::npos)
     {
-      std::get<0>(*this) = make_real(result[1].length() == 0 ?                 "0" : result.str(1), radix);
-      std::get<1>(*this) = make_real(result[2].length() == 1 ? result.str(2) + "1" : result.str(2), radix);
+      auto const real = token.substr(0, i);
+      auto const imag = token.substr(i, token.size() - i - 1);
+
+      std::get<0>(*this) = make_real(real.empty()     ?        "0" : real, radix);
+      std::get<1>(*this) = make_real(imag.size() == 1 ? imag + "1" : imag, radix);
     }
-    else if (std::regex_match(token, result, polar))
+    else if (auto const i = token.rfind('@'); i != std::string::npos)
     {
-      auto const magnitude = make_real(result.str(1), radix);
-      auto const angle     = make_real(result.str(2), radix);
+      auto const magnitude = make_real(token.substr(0, i), radix);
+      auto const angle     = make_real(token.substr(i + 1), radix);
 
       std::get<0>(*this) = magnitude * number::cos(angle);
       std::get<1>(*this) = magnitude * number::sin(angle);
diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 7e3b2c0..ef45391 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -23,7 +23,6 @@
 #include <meevax/kernel/number/trigonometric.hpp>
 #include <meevax/kernel/string.hpp>
 #include <memory> // std::unique_ptr
-#include <regex>
 #include <string_view>
 #include <unordered_map>
 
@@ -434,13 +433,55 @@ namespace meevax::inline kernel
         { "-nan.0", -std::numeric_limits<double>::quiet_NaN() },
       };
 
-      auto static const pattern = std::regex(R"([+-]?(?:\d+\.?|\d*\.\d+)(?:([DEFdef])[+-]?\d+)?)");
+      // NOTE: Not a std::regex, which takes stack in proportion to the length of the literal.
+      auto marker = std::string::npos;
+
+      auto matches = [&]()
+      {
+        auto i = std::size_t(0);
+
+        auto skip = [&](std::string_view characters, std::size_t limit = std::string::npos)
+        {
+          auto const begin = i;
+
+          while (i < literal.size() and i - begin < limit and characters.find(literal[i]) != std::string_view::npos)
+          {
+            ++i;
+          }
+
+          return i - begin;
+        };
+
+        constexpr std::string_view digits = "0123456789";
+
+        skip("+-", 1);
+
+        auto size = skip(digits);
+
+        skip(".", 1);
+
+        if (size += skip(digits); size == 0)
+        {
+          return false;
+        }
+
+        if (skip("DEFdef", 1))
+        {
+          marker = i - 1;
+
+          skip("+-", 1);
+
+          return skip(digits) != 0 and i == literal.size();
+        }
+
+        return i == literal.size();
+      };
 
       if (auto iter = constants.find(literal); iter != constants.end())
       {
         return make<double>(iter->second);
       }
-      else if (auto result = std::smatch(); std::regex_match(literal, result, pattern))
+      else if (matches())
       {
         /*
            R7RS 6.2.5. Syntax of numerical constants
@@ -455,14 +496,9 @@ namespace meevax::inline kernel
            double, but implementations may allow this default to be set by the
            user.
         */
-        assert(result.ready());
-        assert(result.size() == 2);
-
-        if (result[1].matched)
+        if (marker != std::string::npos)
         {
-          assert(result[1].length() == 1);
-
-          switch (*result[1].first)
+          switch (literal[marker])
           {
           case 'D': case 'd':
           case 'E': case 'e':
@@ -470,7 +506,7 @@ namespace meevax::inline kernel
             return make<double>(std::strtod(literal.c_str(), nullptr));
 
           case 'F': case 'f':
-            return make<float>(std::stof(literal.substr().replace(result.position(1), 1, "e")));
+            return make<float>(std::stof(literal.substr().replace(marker, 1, "e")));
           }
         }
         else
-- 
2.43.0


From 28eddd82d06bcc418b09f3f43c921e0bf766ec21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:10 +0000
Subject: [PATCH 47/62] fix: accept any text as the operand of an option

---
 src/kernel/configuration.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/kernel/configuration.cpp b/src/kernel/configuration.cpp
index 1f61dd4..b3bad5f 100644
--- a/src/kernel/configuration.cpp
+++ b/src/kernel/configuration.cpp
@@ -254,9 +254,17 @@ namespace meevax::inline kernel
 
     for (auto iter = std::next(args.begin()); iter != args.end(); ++iter)
     {
-      static std::regex const pattern { R"(--(\w[-\w]+)(?:=(.*))?|-([\w]+))" };
+      static std::regex const pattern { R"(--(\w[-\w]+)|-([\w]+))" };
 
-      if (std::smatch result; std::regex_match(*iter, result, pattern))
+      /*
+         The operand after `=` may be of any length and contain any characters,
+         so it must not be a part of what is matched with the pattern.
+      */
+      auto const name = iter->substr(0, iter->starts_with("--") ? iter->find('=') : std::string::npos);
+
+      auto const operand = iter->substr(std::min(name.size() + 1, iter->size()));
+
+      if (std::smatch result; std::regex_match(name, result, pattern))
       {
         auto read = [&]()
         {
@@ -271,18 +279,18 @@ namespace meevax::inline kernel
           }
         };
 
-        if (result.length(3))
+        if (result.length(2))
         {
-          for (auto str3 = result.str(3); not str3.empty(); str3.erase(0, 1))
+          for (auto str2 = result.str(2); not str2.empty(); str2.erase(0, 1))
           {
-            std::invoke(evaluator(str3.substr(0, 1)), read);
+            std::invoke(evaluator(str2.substr(0, 1)), read);
           }
         }
-        else if (result.length(2))
+        else if (not operand.empty())
         {
-          std::invoke(evaluator(result.str(1)), [result]()
+          std::invoke(evaluator(result.str(1)), [&]()
           {
-            return input_string_port(result.str(2)).read();
+            return input_string_port(operand).read();
           });
         }
         else if (result.length(1))
-- 
2.43.0


From 3d213d87d248312f3aa1cb3ed94f1448e890a053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:48 +0000
Subject: [PATCH 48/62] fix: report a failing file-exists? as a file error

---
 src/kernel/boot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 170a63b..02eca8b 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -145,7 +145,7 @@ namespace meevax::inline kernel
       { "file-error?",                   [](let const& xs) { return make<bool>(car(xs).is<file_error>()); } },
       { "kernel-exception-handler-set!", [](let const& xs) { return environment::exception_handler = car(xs); } },
 
-      { "file-exists?",                  [](let const& xs) { return make<bool>(std::filesystem::exists(car(xs).as<string>().utf8())); } },
+      { "file-exists?",                  [](let const& xs) { try { return make<bool>(std::filesystem::exists(car(xs).as<string>().utf8())); } catch (std::filesystem::filesystem_error const&) { throw file_error(make<string>("failed to look up file"), car(xs)); } } },
       { "delete-file",                   [](let const& xs) { try { if (not std::filesystem::remove(car(xs).as<string>().utf8())) { throw file_error(make<string>("failed to remove file"), car(xs)); } else { return unspecified; } } catch (std::filesystem::filesystem_error const& e) { throw file_error(make<string>(e.what()), car(xs)); } } },
       { "library-directories",           [](let const&   ) { let directories = unit; for (auto iterator = meevax::directories().rbegin(); iterator != meevax::directories().rend(); ++iterator) { directories = cons(make<string>(iterator->native()), directories); } return directories; } },
 
-- 
2.43.0


From dab4c710e751d5815a77098aea5d2250dc3cbd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:42 +0000
Subject: [PATCH 49/62] fix: read the exactness after the radix of a number

---
 src/kernel/textual_input_port.cpp | 56 +++++++++++++------------------
 1 file changed, 24 insertions(+), 32 deletions(-)

diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index 4ea2a17..47f9c75 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -398,6 +398,26 @@ namespace meevax::inline kernel
       return token.utf8();
     };
 
+    auto take_number = [&](int radix) // The rest of <number> after <radix R>: <complex R>, or <exactness> <complex R>
+    {
+      if (auto c1 = take_character(); c1 != '#')
+      {
+        return make_number(take_token(c1), radix);
+      }
+      else switch (auto c2 = take_character())
+      {
+      case 'e':
+        return literal(number::exact, make_number(take_token(take_character()), radix));
+
+      case 'i':
+        return literal(number::inexact, make_number(take_token(take_character()), radix));
+
+      default:
+        throw read_error(make<string>("unknown discriminator"),
+                         make<string>(lexical_cast('#', c2)));
+      }
+    };
+
     while (get_ready())
     {
       switch (auto const c1 = c0 ? c0 : take_character())
@@ -497,24 +517,10 @@ namespace meevax::inline kernel
           }
 
         case 'b':
-          switch (auto c3 = take_character())
-          {
-          case '#':
-            return make_number(lexical_cast(read_datum()), 2);
-
-          default:
-            return make_number(take_token(c3), 2);
-          }
+          return take_number(2);
 
         case 'd':
-          switch (auto c3 = take_character())
-          {
-          case '#':
-            return make_number(lexical_cast(read_datum()), 10);
-
-          default:
-            return make_number(take_token(c3), 10);
-          }
+          return take_number(10);
 
         case 'e':
           return literal(number::exact, read_datum()); // NOTE: Same as #,(exact (read))
@@ -537,14 +543,7 @@ namespace meevax::inline kernel
           return literal(number::inexact, read_datum()); // NOTE: Same as #,(inexact (read))
 
         case 'o':
-          switch (auto c3 = take_character())
-          {
-          case '#':
-            return make_number(lexical_cast(read_datum()), 8);
-
-          default:
-            return make_number(take_token(c3), 8);
-          }
+          return take_number(8);
 
         case 's':
           switch (auto n = take_character_while(is_digit); std::stoi(n))
@@ -591,14 +590,7 @@ namespace meevax::inline kernel
           }
 
         case 'x':
-          switch (auto c3 = take_character())
-          {
-          case '#':
-            return make_number(lexical_cast(read_datum()), 16);
-
-          default:
-            return make_number(take_token(c3), 16);
-          }
+          return take_number(16);
 
         case '(':
           return literal([](let const& x) { return make<vector>(elements(x) | as_proper_list); }, read(c2));
-- 
2.43.0


From 5599344611d59947cff11d5825efef561188151b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:42 +0000
Subject: [PATCH 50/62] fix: do not read digits beyond the radix as a decimal
 number

---
 src/kernel/number.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index ef45391..838f998 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -481,7 +481,7 @@ namespace meevax::inline kernel
       {
         return make<double>(iter->second);
       }
-      else if (matches())
+      else if (radix == 10 and matches())
       {
         /*
            R7RS 6.2.5. Syntax of numerical constants
-- 
2.43.0


From 4c1543e78d53bd4fc8ab1fba45f7ffd190f6c629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:42 +0000
Subject: [PATCH 51/62] fix: read the exponent after the marker d

---
 src/kernel/number.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 838f998..9a9872b 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -503,7 +503,7 @@ namespace meevax::inline kernel
           case 'D': case 'd':
           case 'E': case 'e':
           default:
-            return make<double>(std::strtod(literal.c_str(), nullptr));
+            return make<double>(std::strtod(literal.substr().replace(marker, 1, "e").c_str(), nullptr));
 
           case 'F': case 'f':
             return make<float>(std::stof(literal.substr().replace(marker, 1, "e")));
-- 
2.43.0


From ece99fa73778360868440b306b7d1cef4f4a6049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:55 +0000
Subject: [PATCH 52/62] fix: copy overlapping ranges of vectors and strings
 correctly

---
 src/kernel/boot.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 02eca8b..d2dce59 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -72,6 +72,19 @@ namespace meevax::inline kernel
     throw file_error(make<string>("failed to open file"), list(name));
   }
 
+  template <typename Iterator>
+  auto copy_overlapping(Iterator begin, Iterator end, Iterator output)
+  {
+    if (std::less()(std::to_address(begin), std::to_address(output)))
+    {
+      return std::copy_backward(begin, end, std::next(output, std::distance(begin, end)));
+    }
+    else
+    {
+      return std::copy(begin, end, output);
+    }
+  }
+
   auto resolve(char const* name) -> void *
   {
     using namespace number;
@@ -381,7 +394,7 @@ namespace meevax::inline kernel
       { "string->list",                  [](let const& xs) { auto push = [](let const& xs, character const& c) { return cons(make<character>(c), xs); }; switch (length(xs)) { case 1: return std::accumulate(car(xs).as<string>().characters.rbegin(), car(xs).as<string>().characters.rend(), unit, push); case 2: return std::accumulate(car(xs).as<string>().characters.rbegin(), std::prev(car(xs).as<string>().characters.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, push); case 3: return std::accumulate(std::prev(car(xs).as<string>().characters.rend(), exact_integer_cast<std::size_t>(caddr(xs))), std::prev(car(xs).as<string>().characters.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, push); default: throw error(make<string>("procedure string->list takes one to three arugments, but got"), xs); } } },
       { "list->string",                  [](let const& xs) { return make<string>(car(xs) | as_proper_list); } },
       { "string-copy",                   [](let const& xs) { switch (length(xs)) { case 1: return make<string>(car(xs).as<string>().characters.begin(), car(xs).as<string>().characters.end()); case 2: return make<string>(std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadr(xs))), car(xs).as<string>().characters.end()); case 3: return make<string>(std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(caddr(xs)))); default: throw error(make<string>("procedure string-copy takes one to three arugments, but got"), xs); } } },
-      { "string-copy!",                  [](let const& xs) { car(xs).as<string>().characters.reserve(car(xs).as<string>().characters.size() + caddr(xs).as<string>().characters.size()); switch (length(xs)) { case 3: std::copy(caddr(xs).as<string>().characters.begin(), caddr(xs).as<string>().characters.end(), std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; case 4: std::copy(std::next(caddr(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), caddr(xs).as<string>().characters.end(), std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; case 5: std::copy(std::next(caddr(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), std::next(caddr(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(caddddr(xs))), std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; default: throw error(make<string>("procedure string-copy takes three to five arugments, but got"), xs); } } },
+      { "string-copy!",                  [](let const& xs) { car(xs).as<string>().characters.reserve(car(xs).as<string>().characters.size() + caddr(xs).as<string>().characters.size()); switch (length(xs)) { case 3: copy_overlapping(caddr(xs).as<string>().characters.begin(), caddr(xs).as<string>().characters.end(), std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; case 4: copy_overlapping(std::next(caddr(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), caddr(xs).as<string>().characters.end(), std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; case 5: copy_overlapping(std::next(caddr(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), std::next(caddr(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(caddddr(xs))), std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; default: throw error(make<string>("procedure string-copy takes three to five arugments, but got"), xs); } } },
       { "string-fill!",                  [](let const& xs) { switch (length(xs)) { case 2: std::fill(car(xs).as_mutable<string>().characters.begin(), car(xs).as_mutable<string>().characters.end(), cadr(xs).as<character>()); return unspecified; case 3: std::fill(std::next(car(xs).as_mutable<string>().characters.begin(), exact_integer_cast<std::size_t>(caddr(xs))), car(xs).as_mutable<string>().characters.end(), cadr(xs).as<character>()); return unspecified; case 4: std::fill(std::next(car(xs).as_mutable<string>().characters.begin(), exact_integer_cast<std::size_t>(caddr(xs))), std::next(car(xs).as_mutable<string>().characters.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), cadr(xs).as<character>()); return unspecified; default: throw error(make<string>("procedure string-fill! takes one to three arugments, but got"), xs); } } },
 
       { "symbol?",                       [](let const& xs) { return make<bool>(car(xs).is<symbol>()); } },
@@ -412,7 +425,7 @@ namespace meevax::inline kernel
       { "vector->string",                [](let const& xs) { let s = make<string>(); auto push_back = [&](let const& x) { s.as<string>().characters.push_back(x.as<character>()); }; switch (length(xs)) { case 1: std::for_each(car(xs).as<vector>().objects.begin(), car(xs).as<vector>().objects.end(), push_back); return s; case 2: std::for_each(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), car(xs).as<vector>().objects.end(), push_back); return s; case 3: std::for_each(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs))), push_back); return s; default: throw error(make<string>("procedure vector->list takes one to three arugments, but got"), xs); } } },
       { "string->vector",                [](let const& xs) { let v = make<vector>(); for (auto c : car(xs).as<string>().characters) { v.as<vector>().objects.push_back(make<character>(c)); } return v; } },
       { "vector-copy",                   [](let const& xs) { switch (length(xs)) { case 1: return make<vector>(car(xs).as<vector>().objects.begin(), car(xs).as<vector>().objects.end()); case 2: return make<vector>(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), car(xs).as<vector>().objects.end()); case 3: return make<vector>(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs)))); default: throw error(make<string>("procedure vector-copy takes one to three arugments, but got"), xs); } } },
-      { "vector-copy!",                  [](let const& xs) { car(xs).as<vector>().objects.reserve(car(xs).as<vector>().objects.size() + caddr(xs).as<vector>().objects.size()); switch (length(xs)) { case 3: std::copy(caddr(xs).as<vector>().objects.begin(), caddr(xs).as<vector>().objects.end(), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; case 4: std::copy(std::next(caddr(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), caddr(xs).as<vector>().objects.end(), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; case 5: std::copy(std::next(caddr(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), std::next(caddr(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddddr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; default: throw error(make<string>("procedure vector-copy takes three to five arugments, but got"), xs); } } },
+      { "vector-copy!",                  [](let const& xs) { car(xs).as<vector>().objects.reserve(car(xs).as<vector>().objects.size() + caddr(xs).as<vector>().objects.size()); switch (length(xs)) { case 3: copy_overlapping(caddr(xs).as<vector>().objects.begin(), caddr(xs).as<vector>().objects.end(), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; case 4: copy_overlapping(std::next(caddr(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), caddr(xs).as<vector>().objects.end(), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; case 5: copy_overlapping(std::next(caddr(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), std::next(caddr(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddddr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; default: throw error(make<string>("procedure vector-copy takes three to five arugments, but got"), xs); } } },
       { "vector-append",                 [](let const& xs) { let v = make<vector>(); for (let const& x : xs | as_proper_list) { v.as<vector>().objects.insert(v.as<vector>().objects.end(), x.as<vector>().objects.begin(), x.as<vector>().objects.end()); } return v; } },
       { "vector-fill!",                  [](let const& xs) { switch (length(xs)) { case 2: std::fill(car(xs).as_mutable<vector>().objects.begin(), car(xs).as_mutable<vector>().objects.end(), cadr(xs)); return unspecified; case 3: std::fill(std::next(car(xs).as_mutable<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs))), car(xs).as_mutable<vector>().objects.end(), cadr(xs)); return unspecified; case 4: std::fill(std::next(car(xs).as_mutable<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs))), std::next(car(xs).as_mutable<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), cadr(xs)); return unspecified; default: return unspecified; } } },
 
@@ -424,7 +437,7 @@ namespace meevax::inline kernel
       { #TAG "vector-ref",               [](let const& xs) { return TAG##vector::output_cast(car(xs).as<TAG##vector>().values[exact_integer_cast<std::size_t>(cadr(xs))]); } }, \
       { #TAG "vector-set!",              [](let const& xs) { car(xs).as<TAG##vector>().values[exact_integer_cast<std::size_t>(cadr(xs))] = TAG##vector::input_cast(caddr(xs)); return unspecified; } }, \
       { #TAG "vector-copy",              [](let const& xs) { auto copy = [&](std::size_t begin, std::size_t end) { assert(begin <= end); return make<TAG##vector>(car(xs).as<TAG##vector>().values[std::slice(begin, end - begin, 1)]); }; switch (length(xs)) { case 1: return copy(0, car(xs).as<TAG##vector>().values.size()); case 2: return copy(exact_integer_cast<std::size_t>(cadr(xs)), car(xs).as<TAG##vector>().values.size()); case 3: return copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(caddr(xs))); default: throw error(make<string>("procedure " #TAG "vector-copy takes one to three arguments, but got"), xs); } } }, \
-      { #TAG "vector-copy!",             [](let const& xs) { auto copy = [&](std::size_t at, std::size_t begin, std::size_t end) { assert(begin <= end); auto i = std::slice(at, end - begin, 1); auto j = std::slice(begin, end - begin, 1); car(xs).as_mutable<TAG##vector>().values[i] = caddr(xs).as<TAG##vector>().values[j]; }; switch (length(xs)) { case 3: copy(exact_integer_cast<std::size_t>(cadr(xs)), 0, caddr(xs).as<TAG##vector>().values.size()); return unspecified; case 4: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), caddr(xs).as<TAG##vector>().values.size()); return unspecified; case 5: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), exact_integer_cast<std::size_t>(caddddr(xs))); return unspecified; default: throw error(make<string>("procedure " #TAG "vector-copy! takes three to five arguments, but got"), xs); } } }, \
+      { #TAG "vector-copy!",             [](let const& xs) { auto copy = [&](std::size_t at, std::size_t begin, std::size_t end) { assert(begin <= end); auto i = std::slice(at, end - begin, 1); auto j = std::slice(begin, end - begin, 1); car(xs).as_mutable<TAG##vector>().values[i] = std::valarray(caddr(xs).as<TAG##vector>().values[j]); }; switch (length(xs)) { case 3: copy(exact_integer_cast<std::size_t>(cadr(xs)), 0, caddr(xs).as<TAG##vector>().values.size()); return unspecified; case 4: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), caddr(xs).as<TAG##vector>().values.size()); return unspecified; case 5: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), exact_integer_cast<std::size_t>(caddddr(xs))); return unspecified; default: throw error(make<string>("procedure " #TAG "vector-copy! takes three to five arguments, but got"), xs); } } }, \
       { #TAG "vector-append",            [](let const& xs) { auto size = std::size_t(0); for (let const& x : xs | as_proper_list) { size += x.as<TAG##vector>().values.size(); } let const c = make<TAG##vector>(size); auto begin = std::begin(c.as<TAG##vector>().values); for (let const& x : xs | as_proper_list) { begin = std::copy(std::begin(x.as<TAG##vector>().values), std::end(x.as<TAG##vector>().values), begin); } return c; } }, \
       { #TAG "vector->list",             [](let const& xs) { auto list = [](auto&& v, auto&& a, auto&& b) { auto xcons = [](auto&& x, auto&& y) { return cons(TAG##vector::output_cast(y), x); }; return reverse(std::accumulate(std::next(std::begin(v), a), std::next(std::begin(v), b), unit, xcons)); }; switch (length(xs)) { case 1: return list(car(xs).as<TAG##vector>().values, 0, car(xs).as<TAG##vector>().values.size()); case 2: return list(car(xs).as<TAG##vector>().values, exact_integer_cast<std::size_t>(cadr(xs)), car(xs).as<TAG##vector>().values.size()); case 3: return list(car(xs).as<TAG##vector>().values, exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(caddr(xs))); default: throw error(make<string>("procedure " #TAG "vector->list takes one to three arguments, but got"), xs); } } }, \
       { "list->" #TAG "vector",          [](let const& xs) { return make<TAG##vector>(car(xs) | as_proper_list); } }
-- 
2.43.0


From 01f0d814d512a3e7017be9e0814202967a559867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:55 +0000
Subject: [PATCH 53/62] fix: let string->utf8 take a range

---
 src/kernel/boot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index d2dce59..ebc2ed7 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -447,7 +447,7 @@ namespace meevax::inline kernel
                                                  REGISTER_VECTOR(f32), REGISTER_VECTOR(f64),
 
       { "u8vector->string",              [](let const& xs) { auto buffer = std::ostringstream(); auto print = [&](auto const& x) { buffer << x; }; switch (length(xs)) { case 1: std::for_each(std::begin(car(xs).as<u8vector>().values), std::end(car(xs).as<u8vector>().values), print); break; case 2: std::for_each(std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(cadr(xs))), std::end(car(xs).as<u8vector>().values), print); break; case 3: std::for_each(std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(cadr(xs))), std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(caddr(xs))), print); break; default: throw error(make<string>("procedure u8vector->string takes one to three arguments, but got"), xs); } return make<string>(buffer.str()); } },
-      { "string->u8vector",              [](let const& xs) { auto convert = [](std::string const& s) { return make<u8vector>(reinterpret_cast<std::uint8_t const*>(s.data()), s.size()); }; return convert(car(xs).as<string>().utf8()); } },
+      { "string->u8vector",              [](let const& xs) { auto convert = [](std::string const& s) { return make<u8vector>(reinterpret_cast<std::uint8_t const*>(s.data()), s.size()); }; switch (length(xs)) { case 1: return convert(car(xs).as<string>().utf8()); case 2: return convert(string(std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadr(xs))), car(xs).as<string>().characters.end()).utf8()); case 3: return convert(string(std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(caddr(xs)))).utf8()); default: throw error(make<string>("procedure string->u8vector takes one to three arguments, but got"), xs); } } },
 
       { "put-char",                      [](let const& xs) { cadr(xs).as<textual_output_port>().put(car(xs).as<character>()); return unspecified; } },
       { "put-string",                    [](let const& xs) { cadr(xs).as<textual_output_port>().put(car(xs).as<string>()); return unspecified; } },
-- 
2.43.0


From 563d7ab39e1baba7033ca89838e785704c39de0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:55 +0000
Subject: [PATCH 54/62] fix: let string->vector take a range

---
 src/kernel/boot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index ebc2ed7..2d36d8f 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -423,7 +423,7 @@ namespace meevax::inline kernel
       { "vector->list",                  [](let const& xs) { switch (length(xs)) { case 1: return std::accumulate(car(xs).as<vector>().objects.rbegin(), car(xs).as<vector>().objects.rend(), unit, xcons); case 2: return std::accumulate(car(xs).as<vector>().objects.rbegin(), std::prev(car(xs).as<vector>().objects.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, xcons); case 3: return std::accumulate(std::prev(car(xs).as<vector>().objects.rend(), exact_integer_cast<std::size_t>(caddr(xs))), std::prev(car(xs).as<vector>().objects.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, xcons); default: throw error(make<string>("procedure vector->list takes one to three arugments, but got"), xs); } } },
       { "list->vector",                  [](let const& xs) { return make<vector>(car(xs) | as_proper_list); } },
       { "vector->string",                [](let const& xs) { let s = make<string>(); auto push_back = [&](let const& x) { s.as<string>().characters.push_back(x.as<character>()); }; switch (length(xs)) { case 1: std::for_each(car(xs).as<vector>().objects.begin(), car(xs).as<vector>().objects.end(), push_back); return s; case 2: std::for_each(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), car(xs).as<vector>().objects.end(), push_back); return s; case 3: std::for_each(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs))), push_back); return s; default: throw error(make<string>("procedure vector->list takes one to three arugments, but got"), xs); } } },
-      { "string->vector",                [](let const& xs) { let v = make<vector>(); for (auto c : car(xs).as<string>().characters) { v.as<vector>().objects.push_back(make<character>(c)); } return v; } },
+      { "string->vector",                [](let const& xs) { let v = make<vector>(); auto push_back = [&](auto const& c) { v.as<vector>().objects.push_back(make<character>(c)); }; switch (length(xs)) { case 1: std::for_each(car(xs).as<string>().characters.begin(), car(xs).as<string>().characters.end(), push_back); return v; case 2: std::for_each(std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadr(xs))), car(xs).as<string>().characters.end(), push_back); return v; case 3: std::for_each(std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(caddr(xs))), push_back); return v; default: throw error(make<string>("procedure string->vector takes one to three arguments, but got"), xs); } } },
       { "vector-copy",                   [](let const& xs) { switch (length(xs)) { case 1: return make<vector>(car(xs).as<vector>().objects.begin(), car(xs).as<vector>().objects.end()); case 2: return make<vector>(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), car(xs).as<vector>().objects.end()); case 3: return make<vector>(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs)))); default: throw error(make<string>("procedure vector-copy takes one to three arugments, but got"), xs); } } },
       { "vector-copy!",                  [](let const& xs) { car(xs).as<vector>().objects.reserve(car(xs).as<vector>().objects.size() + caddr(xs).as<vector>().objects.size()); switch (length(xs)) { case 3: copy_overlapping(caddr(xs).as<vector>().objects.begin(), caddr(xs).as<vector>().objects.end(), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; case 4: copy_overlapping(std::next(caddr(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), caddr(xs).as<vector>().objects.end(), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; case 5: copy_overlapping(std::next(caddr(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), std::next(caddr(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddddr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; default: throw error(make<string>("procedure vector-copy takes three to five arugments, but got"), xs); } } },
       { "vector-append",                 [](let const& xs) { let v = make<vector>(); for (let const& x : xs | as_proper_list) { v.as<vector>().objects.insert(v.as<vector>().objects.end(), x.as<vector>().objects.begin(), x.as<vector>().objects.end()); } return v; } },
-- 
2.43.0


From 166be33b545c86762d6aee025f65e12c6434ac7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:55 +0000
Subject: [PATCH 55/62] fix: do not compare homogeneous vectors of different
 lengths beyond the end of the shorter one

---
 include/meevax/kernel/homogeneous_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/meevax/kernel/homogeneous_vector.hpp b/include/meevax/kernel/homogeneous_vector.hpp
index 99eeeae..67f5306 100644
--- a/include/meevax/kernel/homogeneous_vector.hpp
+++ b/include/meevax/kernel/homogeneous_vector.hpp
@@ -100,7 +100,7 @@ namespace meevax::inline kernel
       return std::all_of(std::begin(xs), std::end(xs), [](auto x) { return x; });
     };
 
-    return check(a.values == b.values);
+    return a.values.size() == b.values.size() and check(a.values == b.values);
   }
 
   #define FOR_EACH_BITS(F) F(8) F(16) F(32) F(64)
-- 
2.43.0


From 74c232e6d629a5dfb08d2641292b6314017cfd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:55 +0000
Subject: [PATCH 56/62] fix: do not share the list given to apply with the
 procedure called

---
 library/meevax.ss | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/library/meevax.ss b/library/meevax.ss
index 98e5c62..575a182 100644
--- a/library/meevax.ss
+++ b/library/meevax.ss
@@ -112,7 +112,7 @@
                (emergency-exit . xs)))))
 
 (define-library (meevax apply)
-  (import (only (meevax core) define if lambda)
+  (import (only (meevax core) define if lambda quote)
           (only (meevax list) append null? reverse)
           (only (meevax pair) car cdr cons))
 
@@ -120,12 +120,15 @@
 
   (begin (define (apply f x . xs)
            (if (null? xs)
-               (f . x)
+               ((lambda (x)
+                  (f . x))
+                (append x '()))
                ((lambda (xs)
                   ((lambda (x)
                      (f . x))
                    (append (reverse (cdr xs))
-                           (car xs))))
+                           (car xs)
+                           '())))
                 (reverse (cons x xs)))))))
 
 (define-library (meevax map)
-- 
2.43.0


From be2b9174435aa07081ede29ea9ec30747cddbbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:58 +0000
Subject: [PATCH 57/62] fix: let macros refer to what is defined after them

An alias that had no binding in the environment of the macro at the time of
its definition was bound to whatever local variable of that name was visible
where the macro was used, or left to be undefined, or expanded endlessly.
---
 .../meevax/kernel/syntactic_environment.hpp   |  2 ++
 src/kernel/syntactic_closure.cpp              |  4 +--
 src/kernel/syntactic_environment.cpp          | 36 ++++++++++++++++---
 3 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/include/meevax/kernel/syntactic_environment.hpp b/include/meevax/kernel/syntactic_environment.hpp
index 8a8621c..b984a71 100644
--- a/include/meevax/kernel/syntactic_environment.hpp
+++ b/include/meevax/kernel/syntactic_environment.hpp
@@ -42,6 +42,8 @@ namespace meevax::inline kernel
 
     auto identify(object const& variable, object const& bound_variables) const -> object;
 
+    auto identify_alias(object const& alias, object const& bound_variables) const -> object;
+
     auto identify(object const& variable, object const& bound_variables) -> object;
 
     auto sweep(let const& form,
diff --git a/src/kernel/syntactic_closure.cpp b/src/kernel/syntactic_closure.cpp
index 62c319c..3184164 100644
--- a/src/kernel/syntactic_closure.cpp
+++ b/src/kernel/syntactic_closure.cpp
@@ -133,11 +133,11 @@ namespace meevax::inline kernel
       return syntactic_environment.as<struct syntactic_environment const>().identify(form, xs);
     };
 
-    if (let const& identity = identify(); identity != f)
+    if (let const& identity = identify(); identity != f or de_bruijn_level == 0)
     {
       return identity;
     }
-    else
+    else // Is automatically introduced by α-conversion.
     {
       return syntactic_environment.as<struct syntactic_environment const>().identify(form, bound_variables);
     }
diff --git a/src/kernel/syntactic_environment.cpp b/src/kernel/syntactic_environment.cpp
index 5ba72f1..8b739a9 100644
--- a/src/kernel/syntactic_environment.cpp
+++ b/src/kernel/syntactic_environment.cpp
@@ -55,7 +55,10 @@ namespace meevax::inline kernel
   {
     if (not form.is<pair>())
     {
-      if (form.is<syntactic_closure>() and identify(form, bound_variables) == f)
+      if (form.is<syntactic_closure>() and
+          not (form.as<syntactic_closure>().form.is_also<identifier>() and
+               form.as<syntactic_closure>().free_names.is<null>()) and // if is not an alias
+          identify(form, bound_variables) == f)
       {
         return form.as<syntactic_closure>().expand(bound_variables, alpha);
       }
@@ -68,7 +71,7 @@ namespace meevax::inline kernel
     {
       let const identifier = alpha.convert(car(form));
 
-      if (let const& identity = identifier.is<syntactic_closure>() ? identifier.as<syntactic_closure>().identify(bound_variables)
+      if (let const& identity = identifier.is<syntactic_closure>() ? identify_alias(identifier, bound_variables)
                                                                    : identify(car(form), bound_variables);
           identity.is_also<absolute>())
       {
@@ -161,7 +164,7 @@ namespace meevax::inline kernel
     if (variable.is<syntactic_closure>() and
         variable.as<syntactic_closure>().form.template is_also<identifier>()) // if is an alias
     {
-      return variable.as<syntactic_closure>().identify(bound_variables);
+      return identify_alias(variable, bound_variables);
     }
     else
     {
@@ -169,6 +172,25 @@ namespace meevax::inline kernel
     }
   }
 
+  auto syntactic_environment::identify_alias(object const& alias,
+                                             object const& bound_variables) const -> object
+  {
+    if (let const& identity = alias.as<syntactic_closure>().identify(bound_variables);
+        identity != f or not alias.as<syntactic_closure>().form.template is_also<identifier>())
+    {
+      return identity;
+    }
+    else
+    {
+      /*
+         The environment of a syntactic closure has no bindings that were made
+         after the syntactic closure. An alias that is not bound there stands
+         for a variable or keyword that is defined at the outermost level later.
+      */
+      return identify(alias.as<syntactic_closure>().form, unit);
+    }
+  }
+
   auto syntactic_environment::identify(object const& variable,
                                        object const& bound_variables) -> object
   {
@@ -194,7 +216,11 @@ namespace meevax::inline kernel
          <variable> to a new location before performing the assignment, whereas
          it would be an error to perform a set! on an unbound variable.
       */
-      assert(not variable.is<syntactic_closure>());
+      if (variable.is<syntactic_closure>() and
+          variable.as<syntactic_closure>().form.template is_also<identifier>()) // if is an alias
+      {
+        return identify(variable.as<syntactic_closure>().form, unit);
+      }
 
       return car(second = cons(make<absolute>(variable, undefined), second));
     }
@@ -220,7 +246,7 @@ namespace meevax::inline kernel
 
     if (sequence.is<pair>())
     {
-      if (car(sequence).is<syntactic_closure>() and identify(car(sequence), car(current_environment)) == f)
+      if (car(sequence).is<syntactic_closure>() and not car(sequence).as<syntactic_closure>().form.is_also<identifier>()) // is not an alias
       {
         return sweep(form,
                      cons(car(sequence).as<syntactic_closure>().expand(car(current_environment), alpha),
-- 
2.43.0


From 107a493a79705e7ede73b7b5fcd0a92c8e793f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:53 +0000
Subject: [PATCH 58/62] fix: let macros of a library refer to what the library
 defines after them

The free variables of a syntactic closure are those at the time it was made.
Share those of the environment as of now with everything made from it, so that
an alias is looked up where its macro was defined, and not where it is used.
---
 .../meevax/kernel/syntactic_environment.hpp   |  8 ++++
 src/kernel/environment.cpp                    |  2 +-
 src/kernel/expander.cpp                       |  6 +--
 src/kernel/generator.cpp                      |  3 +-
 src/kernel/library.cpp                        |  2 +-
 src/kernel/syntactic_environment.cpp          | 46 ++++++++++++++++---
 6 files changed, 53 insertions(+), 14 deletions(-)

diff --git a/include/meevax/kernel/syntactic_environment.hpp b/include/meevax/kernel/syntactic_environment.hpp
index b984a71..da78b9c 100644
--- a/include/meevax/kernel/syntactic_environment.hpp
+++ b/include/meevax/kernel/syntactic_environment.hpp
@@ -27,10 +27,16 @@ namespace meevax::inline kernel
   {
     using pair::pair;
 
+    let bindings = unit; // (<free-variables>), whose element is kept up to date by rebind.
+
+    let outer = unit; // The bindings of the environment that made this one by enclose, if any.
+
     auto compile(object const& form) -> object;
 
     auto define(object const&, object const& = undefined) -> object;
 
+    auto enclose(object const& bound_variables) const -> object;
+
     auto expand(object const& form, object const& bound_variables) const -> object;
 
     auto expand(object const& form, object const& bound_variables, syntactic_closure::alpha &) const -> object;
@@ -46,6 +52,8 @@ namespace meevax::inline kernel
 
     auto identify(object const& variable, object const& bound_variables) -> object;
 
+    auto rebind(object const& free_variables) -> void;
+
     auto sweep(let const& form,
                let const& sequence,
                let const& bound_variables,
diff --git a/src/kernel/environment.cpp b/src/kernel/environment.cpp
index e2bff98..f1953b1 100644
--- a/src/kernel/environment.cpp
+++ b/src/kernel/environment.cpp
@@ -181,7 +181,7 @@ namespace meevax::inline kernel
 
       if (let const& y = std::as_const(*this).identify(car(x), unit); y == f or this == std::addressof(interaction_environment().as<environment>()))
       {
-        second = cons(x, second);
+        rebind(cons(x, second));
       }
       else if (x != y)
       {
diff --git a/src/kernel/expander.cpp b/src/kernel/expander.cpp
index c3dc154..2a12cd3 100644
--- a/src/kernel/expander.cpp
+++ b/src/kernel/expander.cpp
@@ -90,7 +90,7 @@ namespace meevax::inline kernel
               current_environment] = expander.sweep(form,
                                                     form,
                                                     bound_variables,
-                                                    make<syntactic_environment>(bound_variables, expander.second),
+                                                    expander.enclose(bound_variables),
                                                     alpha);
         reversed_binding_specs)
     {
@@ -227,7 +227,7 @@ namespace meevax::inline kernel
 
   EXPANDER(expander::let_syntax)
   {
-    let const current_environment = make<syntactic_environment>(bound_variables, expander.second);
+    let const current_environment = expander.enclose(bound_variables);
 
     auto formal = [&](let const& syntax_spec)
     {
@@ -247,7 +247,7 @@ namespace meevax::inline kernel
 
   EXPANDER(expander::letrec_syntax)
   {
-    let current_environment = make<syntactic_environment>(bound_variables, expander.second);
+    let current_environment = expander.enclose(bound_variables);
 
     auto formal = [&](let const& syntax_spec)
     {
diff --git a/src/kernel/generator.cpp b/src/kernel/generator.cpp
index 09d742b..c9d1dca 100644
--- a/src/kernel/generator.cpp
+++ b/src/kernel/generator.cpp
@@ -251,8 +251,7 @@ namespace meevax::inline kernel
 
     cdr(identity) = make<transformer>(environment().execute(generator.generate(cadr(form),
                                                                                bound_variables)),
-                                      make<syntactic_environment>(bound_variables,
-                                                                  generator.second));
+                                      generator.enclose(bound_variables));
 
     return cons(make<instruction>(instruction::secd_load_constant), unspecified,
                 continuation);
diff --git a/src/kernel/library.cpp b/src/kernel/library.cpp
index ccc59b6..1d2e06b 100644
--- a/src/kernel/library.cpp
+++ b/src/kernel/library.cpp
@@ -93,7 +93,7 @@ namespace meevax::inline kernel
         declarations = unresolved_declarations;
         export_specs = unit;
         evaluator.a = a;
-        evaluator.second = second;
+        evaluator.rebind(second);
         throw;
       }
     }
diff --git a/src/kernel/syntactic_environment.cpp b/src/kernel/syntactic_environment.cpp
index 8b739a9..ec97a96 100644
--- a/src/kernel/syntactic_environment.cpp
+++ b/src/kernel/syntactic_environment.cpp
@@ -41,10 +41,17 @@ namespace meevax::inline kernel
     return variable;
   }
 
+  auto syntactic_environment::enclose(object const& bound_variables) const -> object
+  {
+    let x = make<syntactic_environment>(bound_variables, second);
+    x.as<syntactic_environment>().outer = outer.is<pair>() ? outer : bindings;
+    return x;
+  }
+
   auto syntactic_environment::expand(object const& form,
                                      object const& bound_variables) const -> object
   {
-    auto enclosure = syntactic_closure(make<syntactic_environment>(bound_variables, second), unit, form);
+    auto enclosure = syntactic_closure(enclose(bound_variables), unit, form);
     auto alpha = syntactic_closure::alpha(&enclosure, nullptr);
     return expand(form, bound_variables, alpha);
   }
@@ -77,7 +84,7 @@ namespace meevax::inline kernel
       {
         if (let const& value = cdr(identity); value.is<transformer>())
         {
-          return expand(value.as<transformer>().transform(form, make<syntactic_environment>(bound_variables, second)),
+          return expand(value.as<transformer>().transform(form, enclose(bound_variables)),
                         bound_variables,
                         alpha);
         }
@@ -183,10 +190,19 @@ namespace meevax::inline kernel
     else
     {
       /*
-         The environment of a syntactic closure has no bindings that were made
-         after the syntactic closure. An alias that is not bound there stands
-         for a variable or keyword that is defined at the outermost level later.
+         The free variables of the environment of a syntactic closure are those
+         at the time the syntactic closure was made. An alias that is not bound
+         there stands for a variable or keyword that is defined later at the
+         outermost level of that environment, or else of this one.
       */
+      if (let const& outer = alias.as<syntactic_closure>().syntactic_environment.as<syntactic_environment>().outer; outer.is<pair>())
+      {
+        if (let const& identity = assq(alias.as<syntactic_closure>().form, car(outer)); identity != f)
+        {
+          return identity;
+        }
+      }
+
       return identify(alias.as<syntactic_closure>().form, unit);
     }
   }
@@ -222,7 +238,23 @@ namespace meevax::inline kernel
         return identify(variable.as<syntactic_closure>().form, unit);
       }
 
-      return car(second = cons(make<absolute>(variable, undefined), second));
+      rebind(cons(make<absolute>(variable, undefined), second));
+
+      return car(second);
+    }
+  }
+
+  auto syntactic_environment::rebind(object const& free_variables) -> void
+  {
+    second = free_variables;
+
+    if (bindings.is<pair>())
+    {
+      car(bindings) = second;
+    }
+    else
+    {
+      bindings = list(second);
     }
   }
 
@@ -239,7 +271,7 @@ namespace meevax::inline kernel
       return sweep(form,
                    form,
                    bound_variables,
-                   make<syntactic_environment>(cons(formals, bound_variables), second),
+                   enclose(cons(formals, bound_variables)),
                    alpha,
                    formals);
     };
-- 
2.43.0


From fab7310ffa5186301f1fba2df3c3ce62fb560a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:53 +0000
Subject: [PATCH 59/62] fix: keep the names that letrec binds out of the
 expressions around it

The renaming of a name that is bound already was left in effect for what is
expanded after the letrec expression, which then referred to another binding.
---
 src/kernel/expander.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/kernel/expander.cpp b/src/kernel/expander.cpp
index 2a12cd3..e82f455 100644
--- a/src/kernel/expander.cpp
+++ b/src/kernel/expander.cpp
@@ -189,7 +189,9 @@ namespace meevax::inline kernel
 
   EXPANDER(expander::letrec)
   {
-    let const extended_bound_variables = cons(alpha.convert_formals(map(car, cadr(form)), bound_variables),
+    auto scoped_alpha = alpha;
+
+    let const extended_bound_variables = cons(scoped_alpha.convert_formals(map(car, cadr(form)), bound_variables),
                                               bound_variables);
 
     return cons(car(form),
@@ -198,13 +200,13 @@ namespace meevax::inline kernel
                       return list(car(binding),
                                   expander.expand(cadr(binding),
                                                   extended_bound_variables,
-                                                  alpha));
+                                                  scoped_alpha));
                     },
                     cadr(form)),
                 body(expander,
                      cddr(form),
                      extended_bound_variables,
-                     alpha));
+                     scoped_alpha));
   }
 
   EXPANDER(expander::sequence)
-- 
2.43.0


From fe04d363c79bbff9b25a4631aa03084a079507dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:43 +0000
Subject: [PATCH 60/62] fix: a macro bound or shadowed by a name that a
 template introduces is found in the scope of that name

---
 src/kernel/syntactic_environment.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/kernel/syntactic_environment.cpp b/src/kernel/syntactic_environment.cpp
index ec97a96..743b29d 100644
--- a/src/kernel/syntactic_environment.cpp
+++ b/src/kernel/syntactic_environment.cpp
@@ -78,9 +78,7 @@ namespace meevax::inline kernel
     {
       let const identifier = alpha.convert(car(form));
 
-      if (let const& identity = identifier.is<syntactic_closure>() ? identify_alias(identifier, bound_variables)
-                                                                   : identify(car(form), bound_variables);
-          identity.is_also<absolute>())
+      if (let const& identity = identify(identifier.is<syntactic_closure>() ? identifier : car(form), bound_variables); identity.is_also<absolute>())
       {
         if (let const& value = cdr(identity); value.is<transformer>())
         {
-- 
2.43.0


From f031b171180547823a727a8caaa58c4fb0c6b8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:43 +0000
Subject: [PATCH 61/62] fix: comparing identifiers does not bind them in the
 environment they were compared in

---
 src/kernel/syntactic_closure.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/kernel/syntactic_closure.cpp b/src/kernel/syntactic_closure.cpp
index 3184164..1d8caa0 100644
--- a/src/kernel/syntactic_closure.cpp
+++ b/src/kernel/syntactic_closure.cpp
@@ -155,10 +155,30 @@ namespace meevax::inline kernel
        cond clause. A macro definition for syntax-rules would use
        free-identifier=? to look for literals in the input.
     */
+    auto identify = [](syntactic_closure const& closure) -> object
+    {
+      auto const& environment = closure.syntactic_environment.as<struct syntactic_environment const>();
+
+      if (let const& identity = environment.identify(closure.form, environment.first); identity != f)
+      {
+        return identity;
+      }
+      else // Has no binding. Comparing must not make one.
+      {
+        let name = closure.form;
+
+        while (name.is<syntactic_closure>())
+        {
+          name = object(name.as<syntactic_closure>().form);
+        }
+
+        return make<absolute>(name, undefined);
+      }
+    };
+
     return x.form.template is_also<identifier>() and
            y.form.template is_also<identifier>() and
-           eqv(x.syntactic_environment.as<struct syntactic_environment>().identify(x.form, x.syntactic_environment.as<struct syntactic_environment>().first),
-               y.syntactic_environment.as<struct syntactic_environment>().identify(y.form, y.syntactic_environment.as<struct syntactic_environment>().first));
+           eqv(identify(x), identify(y));
   }
 
   auto operator <<(std::ostream & os, syntactic_closure const& datum) -> std::ostream &
-- 
2.43.0


From 26ef76e552cf32a6394067752cda8f6d40ca4e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:43 +0000
Subject: [PATCH 62/62] fix: quoted data in the output of a macro consist of
 symbols, not of renamed identifiers

---
 src/kernel/generator.cpp | 68 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 66 insertions(+), 2 deletions(-)

diff --git a/src/kernel/generator.cpp b/src/kernel/generator.cpp
index c9d1dca..a8d7348 100644
--- a/src/kernel/generator.cpp
+++ b/src/kernel/generator.cpp
@@ -14,14 +14,79 @@
    limitations under the License.
 */
 
+#include <algorithm>
+#include <unordered_set>
+
 #include <meevax/iostream/lexical_cast.hpp>
 #include <meevax/kernel/environment.hpp>
 #include <meevax/kernel/generator.hpp>
 #include <meevax/kernel/identity.hpp>
 #include <meevax/kernel/transformer.hpp>
+#include <meevax/kernel/vector.hpp>
 
 namespace meevax::inline kernel
 {
+  static auto includes_alias(object const& datum, std::unordered_set<pair const*> & visited) -> bool
+  {
+    if (datum.is<syntactic_closure>())
+    {
+      return true;
+    }
+    else if (datum.is<pair>())
+    {
+      for (let x = datum; visited.insert(x.get()).second; x = cdr(x))
+      {
+        if (includes_alias(car(x), visited))
+        {
+          return true;
+        }
+        else if (not cdr(x).is<pair>())
+        {
+          return includes_alias(cdr(x), visited);
+        }
+      }
+
+      return false;
+    }
+    else
+    {
+      return datum.is<vector>() and
+             visited.insert(datum.get()).second and
+             std::ranges::any_of(datum.as<vector>().objects, [&](let const& x) { return includes_alias(x, visited); });
+    }
+  }
+
+  /*
+     A macro renames the identifiers of the output it makes, including those
+     that turn out to be part of a quoted datum, where they stand for symbols.
+  */
+  static auto strip(object const& datum) -> object
+  {
+    if (std::unordered_set<pair const*> visited; not includes_alias(datum, visited))
+    {
+      return datum;
+    }
+    else if (datum.is<syntactic_closure>())
+    {
+      return strip(datum.as<syntactic_closure>().form);
+    }
+    else if (datum.is<pair>())
+    {
+      return cons(strip(car(datum)), strip(cdr(datum)));
+    }
+    else
+    {
+      let const v = make<vector>();
+
+      for (let const& x : datum.as<vector>().objects)
+      {
+        v.as<vector>().objects.push_back(strip(x));
+      }
+
+      return v;
+    }
+  }
+
   #define GENERATOR(NAME)                                                      \
   auto NAME([[maybe_unused]] syntactic_environment & generator,                \
             [[maybe_unused]] object const& form,                               \
@@ -31,8 +96,7 @@ namespace meevax::inline kernel
 
   GENERATOR(generator::quote)
   {
-    return cons(make<instruction>(instruction::secd_load_constant), car(form).is<syntactic_closure>() ? car(form).as<syntactic_closure>().form
-                                                                                                      : car(form),
+    return cons(make<instruction>(instruction::secd_load_constant), strip(car(form)),
                 continuation);
   }
 
-- 
2.43.0

