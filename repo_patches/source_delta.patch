From 1b43da37d4f81c9c747e5aab267b371192b3127a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:34 +0000
Subject: [PATCH 1/7] fix: C++98 strings can contain the character with value
 EOF

BOOST_NO_CHAR, the marker of the unused elements of string, was EOF (-1),
which is the value of '\377' where char is signed. Such characters at the
end of a string were not part of it.
---
 include/boost/metaparse/v1/impl/no_char.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/metaparse/v1/impl/no_char.hpp b/include/boost/metaparse/v1/impl/no_char.hpp
index c6b91f0..d098c18 100644
--- a/include/boost/metaparse/v1/impl/no_char.hpp
+++ b/include/boost/metaparse/v1/impl/no_char.hpp
@@ -6,12 +6,13 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          http://www.boost.org/LICENSE_1_0.txt)
 
-#include <cstdio>
+#include <climits>
 
 #ifdef BOOST_NO_CHAR
 #  error BOOST_NO_CHAR already defined
 #endif
-#define BOOST_NO_CHAR EOF
+// Has to be different from the value of every character
+#define BOOST_NO_CHAR INT_MAX
 
 #endif
 
-- 
2.43.0


From 9dd508c9bf88d7410a73fc250fb6f5f9a9f92f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:50 +0000
Subject: [PATCH 2/7] fix: C++98 strings of exactly the maximum length

Strings of exactly BOOST_METAPARSE_LIMIT_STRING_SIZE characters had no size
(and thus no end), and push_front silently dropped their last character.
---
 .../boost/metaparse/v1/cpp98/impl/push_front_c.hpp | 14 ++++++++++++--
 include/boost/metaparse/v1/cpp98/impl/size.hpp     |  9 +++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/boost/metaparse/v1/cpp98/impl/push_front_c.hpp b/include/boost/metaparse/v1/cpp98/impl/push_front_c.hpp
index 0cf96a7..06146bb 100644
--- a/include/boost/metaparse/v1/cpp98/impl/push_front_c.hpp
+++ b/include/boost/metaparse/v1/cpp98/impl/push_front_c.hpp
@@ -22,12 +22,22 @@ namespace boost
         template <class S, char C>
         struct push_front_c;
 
+        // Not defined for strings of maximum length
         template <
-          BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_STRING_SIZE, int C),
+          BOOST_PP_ENUM_PARAMS(
+            BOOST_PP_DEC(BOOST_METAPARSE_LIMIT_STRING_SIZE),
+            int C
+          ),
           char Ch
         >
         struct push_front_c<
-          string<BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_STRING_SIZE, C)>,
+          string<
+            BOOST_PP_ENUM_PARAMS(
+              BOOST_PP_DEC(BOOST_METAPARSE_LIMIT_STRING_SIZE),
+              C
+            ),
+            BOOST_NO_CHAR
+          >,
           Ch
         > :
           string<
diff --git a/include/boost/metaparse/v1/cpp98/impl/size.hpp b/include/boost/metaparse/v1/cpp98/impl/size.hpp
index 7de1241..6a8b22a 100644
--- a/include/boost/metaparse/v1/cpp98/impl/size.hpp
+++ b/include/boost/metaparse/v1/cpp98/impl/size.hpp
@@ -28,6 +28,15 @@ namespace boost
         template <class S>
         struct size;
 
+        // string of maximum length
+        template <BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_STRING_SIZE, int C)>
+        struct
+          size<
+            string<BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_STRING_SIZE, C)>
+          > :
+          boost::mpl::int_<BOOST_METAPARSE_LIMIT_STRING_SIZE>
+        {};
+
         #ifdef BOOST_METAPARSE_STRING_CASE
         #  error BOOST_METAPARSE_STRING_CASE
         #endif
-- 
2.43.0


From 7ab9f5701d1ec31046602ebc86a22fc377c3479e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:20 +0000
Subject: [PATCH 3/7] fix: C++98 sequence, nth_of and last_of accept as many
 parsers as documented

BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE is documented to be the maximum number
of parsers, but they could be used with one parser less than that only.
---
 include/boost/metaparse/v1/cpp98/impl/nth_of_c.hpp | 3 ++-
 include/boost/metaparse/v1/cpp98/impl/sequence.hpp | 3 ++-
 include/boost/metaparse/v1/cpp98/last_of.hpp       | 7 ++++++-
 include/boost/metaparse/v1/cpp98/nth_of_c.hpp      | 7 ++++++-
 include/boost/metaparse/v1/cpp98/sequence.hpp      | 6 +++++-
 5 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/include/boost/metaparse/v1/cpp98/impl/nth_of_c.hpp b/include/boost/metaparse/v1/cpp98/impl/nth_of_c.hpp
index f71728c..fa65df9 100644
--- a/include/boost/metaparse/v1/cpp98/impl/nth_of_c.hpp
+++ b/include/boost/metaparse/v1/cpp98/impl/nth_of_c.hpp
@@ -13,6 +13,7 @@
 
 #include <boost/mpl/list.hpp>
 
+#include <boost/preprocessor/arithmetic/inc.hpp>
 #include <boost/preprocessor/repetition/repeat.hpp>
 #include <boost/preprocessor/punctuation/comma_if.hpp>
 #include <boost/preprocessor/repetition/enum_params.hpp>
@@ -46,7 +47,7 @@ namespace boost
           {};
         
         BOOST_PP_REPEAT(
-          BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE,
+          BOOST_PP_INC(BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE),
           BOOST_METAPARSE_NTH_OF_CASE,
           ~
         )
diff --git a/include/boost/metaparse/v1/cpp98/impl/sequence.hpp b/include/boost/metaparse/v1/cpp98/impl/sequence.hpp
index 7f28766..3d0955a 100644
--- a/include/boost/metaparse/v1/cpp98/impl/sequence.hpp
+++ b/include/boost/metaparse/v1/cpp98/impl/sequence.hpp
@@ -11,6 +11,7 @@
 
 #include <boost/mpl/vector.hpp>
 
+#include <boost/preprocessor/arithmetic/inc.hpp>
 #include <boost/preprocessor/repetition/repeat_from_to.hpp>
 #include <boost/preprocessor/repetition/enum_params.hpp>
 #include <boost/preprocessor/cat.hpp>
@@ -44,7 +45,7 @@ namespace boost
         
         BOOST_PP_REPEAT_FROM_TO(
           1,
-          BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE,
+          BOOST_PP_INC(BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE),
           BOOST_METAPARSE_SEQUENCE_CASE,
           ~
         )
diff --git a/include/boost/metaparse/v1/cpp98/last_of.hpp b/include/boost/metaparse/v1/cpp98/last_of.hpp
index 4e5e475..2f22a5c 100644
--- a/include/boost/metaparse/v1/cpp98/last_of.hpp
+++ b/include/boost/metaparse/v1/cpp98/last_of.hpp
@@ -30,7 +30,12 @@ namespace boost
           boost::mpl::na
         )
       >
-      struct last_of;
+      struct last_of :
+        impl::BOOST_PP_CAT(nth_of_c, BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE)<
+          BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE - 1,
+          BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE, P)
+        >
+      {};
 
       #ifdef BOOST_METAPARSE_LAST_OF_N
       #  error BOOST_METAPARSE_LAST_OF_N already defined
diff --git a/include/boost/metaparse/v1/cpp98/nth_of_c.hpp b/include/boost/metaparse/v1/cpp98/nth_of_c.hpp
index ae86d31..a734390 100644
--- a/include/boost/metaparse/v1/cpp98/nth_of_c.hpp
+++ b/include/boost/metaparse/v1/cpp98/nth_of_c.hpp
@@ -32,7 +32,12 @@ namespace boost
           boost::mpl::na
         )
       >
-      struct nth_of_c;
+      struct nth_of_c :
+        impl::BOOST_PP_CAT(nth_of_c, BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE)<
+          N,
+          BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE, P)
+        >
+      {};
 
       #ifdef BOOST_METAPARSE_NTH_OF_N
       #  error BOOST_METAPARSE_NTH_OF_N already defined
diff --git a/include/boost/metaparse/v1/cpp98/sequence.hpp b/include/boost/metaparse/v1/cpp98/sequence.hpp
index 6aae835..75f30ea 100644
--- a/include/boost/metaparse/v1/cpp98/sequence.hpp
+++ b/include/boost/metaparse/v1/cpp98/sequence.hpp
@@ -30,7 +30,11 @@ namespace boost
           boost::mpl::na
         )
       >
-      struct sequence;
+      struct sequence :
+        impl::BOOST_PP_CAT(sequence, BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE)<
+          BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE, P)
+        >
+      {};
 
       #ifdef BOOST_METAPARSE_SEQUENCE_N
       #  error BOOST_METAPARSE_SEQUENCE_N already defined
-- 
2.43.0


From 570103040eac5d4126b046b41aa5dfdef9e183b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:37 +0000
Subject: [PATCH 4/7] fix: C++98 one_char_except, one_char_except_c and
 one_of_c accept as many characters as documented

The documented maxima are BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE and
BOOST_METAPARSE_LIMIT_ONE_OF_SIZE, but only one character less could be used.
---
 .../boost/metaparse/v1/cpp98/impl/is_none.hpp |  3 +-
 .../metaparse/v1/cpp98/one_char_except.hpp    | 13 ++++++++-
 .../metaparse/v1/cpp98/one_char_except_c.hpp  | 29 ++++++++++++++-----
 include/boost/metaparse/v1/cpp98/one_of_c.hpp | 20 +++++++++----
 4 files changed, 50 insertions(+), 15 deletions(-)

diff --git a/include/boost/metaparse/v1/cpp98/impl/is_none.hpp b/include/boost/metaparse/v1/cpp98/impl/is_none.hpp
index 7586586..54e7eb9 100644
--- a/include/boost/metaparse/v1/cpp98/impl/is_none.hpp
+++ b/include/boost/metaparse/v1/cpp98/impl/is_none.hpp
@@ -13,6 +13,7 @@
 
 #include <boost/preprocessor/cat.hpp>
 #include <boost/preprocessor/arithmetic/dec.hpp>
+#include <boost/preprocessor/arithmetic/inc.hpp>
 #include <boost/preprocessor/repetition/enum_params.hpp>
 #include <boost/preprocessor/repetition/repeat_from_to.hpp>
 
@@ -55,7 +56,7 @@ namespace boost
 
         BOOST_PP_REPEAT_FROM_TO(
           1,
-          BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE,
+          BOOST_PP_INC(BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE),
           BOOST_METAPARSE_DEFINE_IS_NONE,
           ~
         )
diff --git a/include/boost/metaparse/v1/cpp98/one_char_except.hpp b/include/boost/metaparse/v1/cpp98/one_char_except.hpp
index 330b593..a7e161c 100644
--- a/include/boost/metaparse/v1/cpp98/one_char_except.hpp
+++ b/include/boost/metaparse/v1/cpp98/one_char_except.hpp
@@ -35,7 +35,18 @@ namespace boost
           impl::one_char_except_not_used
         )
       >
-      struct one_char_except;
+      struct one_char_except :
+        accept_when<
+          one_char,
+          impl::BOOST_PP_CAT(
+            is_none,
+            BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE
+          )<
+            BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE, C)
+          >,
+          error::unexpected_character
+        >
+      {};
 
       #ifdef MPLLBIS_METAPARSE_ONE_CHAR_EXCEPT_CASE
       #  error MPLLBIS_METAPARSE_ONE_CHAR_EXCEPT_CASE already defined
diff --git a/include/boost/metaparse/v1/cpp98/one_char_except_c.hpp b/include/boost/metaparse/v1/cpp98/one_char_except_c.hpp
index 5556039..20165a9 100644
--- a/include/boost/metaparse/v1/cpp98/one_char_except_c.hpp
+++ b/include/boost/metaparse/v1/cpp98/one_char_except_c.hpp
@@ -31,6 +31,12 @@ namespace boost
   {
     namespace v1
     {
+      #ifdef BOOST_METAPARSE_WRAP
+      #  error BOOST_METAPARSE_WRAP already defined
+      #endif
+      #define BOOST_METAPARSE_WRAP(z, n, unused) \
+        boost::mpl::char_<BOOST_PP_CAT(C, n)>
+
       template <
         BOOST_PP_ENUM_PARAMS_WITH_A_DEFAULT(
           BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE,
@@ -38,13 +44,22 @@ namespace boost
           1024
         )
       >
-      struct one_char_except_c;
-
-      #ifdef BOOST_METAPARSE_WRAP
-      #  error BOOST_METAPARSE_WRAP already defined
-      #endif
-      #define BOOST_METAPARSE_WRAP(z, n, unused) \
-        boost::mpl::char_<BOOST_PP_CAT(C, n)>
+      struct one_char_except_c :
+        accept_when<
+          one_char,
+          impl::BOOST_PP_CAT(
+            is_none,
+            BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE
+          )<
+            BOOST_PP_ENUM(
+              BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE,
+              BOOST_METAPARSE_WRAP,
+              ~
+            )
+          >,
+          error::unexpected_character
+        >
+      {};
 
       #ifdef MPLLBIS_METAPARSE_ONE_CHAR_EXCEPT_CASE
       #  error MPLLBIS_METAPARSE_ONE_CHAR_EXCEPT_CASE already defined
diff --git a/include/boost/metaparse/v1/cpp98/one_of_c.hpp b/include/boost/metaparse/v1/cpp98/one_of_c.hpp
index 9a13a33..0952bb6 100644
--- a/include/boost/metaparse/v1/cpp98/one_of_c.hpp
+++ b/include/boost/metaparse/v1/cpp98/one_of_c.hpp
@@ -32,6 +32,11 @@ namespace boost
       #endif
       #define BOOST_NO_SCALAR_VALUE LONG_MAX
 
+      #ifdef BOOST_METAPARSE_ONE_OF_C_LIT
+      #  error BOOST_METAPARSE_ONE_OF_C_LIT already defined
+      #endif
+      #define BOOST_METAPARSE_ONE_OF_C_LIT(z, n, unused) lit_c<BOOST_PP_CAT(C, n)>
+
       template <
         BOOST_PP_ENUM_PARAMS_WITH_A_DEFAULT(
           BOOST_METAPARSE_LIMIT_ONE_OF_SIZE,
@@ -39,12 +44,15 @@ namespace boost
           BOOST_NO_SCALAR_VALUE
         )
       >
-      struct one_of_c;
-
-      #ifdef BOOST_METAPARSE_ONE_OF_C_LIT
-      #  error BOOST_METAPARSE_ONE_OF_C_LIT already defined
-      #endif
-      #define BOOST_METAPARSE_ONE_OF_C_LIT(z, n, unused) lit_c<BOOST_PP_CAT(C, n)>
+      struct one_of_c :
+        one_of<
+          BOOST_PP_ENUM(
+            BOOST_METAPARSE_LIMIT_ONE_OF_SIZE,
+            BOOST_METAPARSE_ONE_OF_C_LIT,
+            ~
+          )
+        >
+      {};
 
       #ifdef BOOST_METAPARSE_ONE_OF_C_CASE
       #  error BOOST_METAPARSE_ONE_OF_C_CASE already defined
-- 
2.43.0


From 529b0941827386ce32463b93b372a02ae377d280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:37 +0000
Subject: [PATCH 5/7] fix: add the documented header error/expected_to_fail.hpp

The reference documents boost/metaparse/error/expected_to_fail.hpp and
error::expected_to_fail, which were available as v1 only. The all-in-one
header includes it and string_value.hpp, which it left out as well.
---
 include/boost/metaparse.hpp                   |  2 ++
 .../metaparse/error/expected_to_fail.hpp      | 23 +++++++++++++++++++
 2 files changed, 25 insertions(+)
 create mode 100644 include/boost/metaparse/error/expected_to_fail.hpp

diff --git a/include/boost/metaparse.hpp b/include/boost/metaparse.hpp
index d6efecc..6d4d93d 100644
--- a/include/boost/metaparse.hpp
+++ b/include/boost/metaparse.hpp
@@ -26,6 +26,7 @@
 #include <boost/metaparse/entire_input.hpp>
 #include <boost/metaparse/error/digit_expected.hpp>
 #include <boost/metaparse/error/end_of_input_expected.hpp>
+#include <boost/metaparse/error/expected_to_fail.hpp>
 #include <boost/metaparse/error/index_out_of_range.hpp>
 #include <boost/metaparse/error/letter_expected.hpp>
 #include <boost/metaparse/error/literal_expected.hpp>
@@ -97,6 +98,7 @@
 #include <boost/metaparse/start.hpp>
 #include <boost/metaparse/string.hpp>
 #include <boost/metaparse/string_tag.hpp>
+#include <boost/metaparse/string_value.hpp>
 #include <boost/metaparse/token.hpp>
 #include <boost/metaparse/transform_error.hpp>
 #include <boost/metaparse/transform_error_message.hpp>
diff --git a/include/boost/metaparse/error/expected_to_fail.hpp b/include/boost/metaparse/error/expected_to_fail.hpp
new file mode 100644
index 0000000..bc7cc88
--- /dev/null
+++ b/include/boost/metaparse/error/expected_to_fail.hpp
@@ -0,0 +1,23 @@
+#ifndef BOOST_METAPARSE_ERROR_EXPECTED_TO_FAIL_HPP
+#define BOOST_METAPARSE_ERROR_EXPECTED_TO_FAIL_HPP
+
+// Copyright Abel Sinkovics (abel@sinkovics.hu)  2015.
+// Distributed under the Boost Software License, Version 1.0.
+//    (See accompanying file LICENSE_1_0.txt or copy at
+//          http://www.boost.org/LICENSE_1_0.txt)
+
+#include <boost/metaparse/v1/error/expected_to_fail.hpp>
+
+namespace boost
+{
+  namespace metaparse
+  {
+    namespace error
+    {
+      using v1::error::expected_to_fail;
+    }
+  }
+}
+
+#endif
+
-- 
2.43.0


From 00f13e2752246fb37db652c96e82b9102ea92642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:21 +0000
Subject: [PATCH 6/7] fix: nth_of_c documentation names the header that
 provides it

---
 doc/nth_of_c.qbk | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doc/nth_of_c.qbk b/doc/nth_of_c.qbk
index 17691ed..7ddd8a7 100644
--- a/doc/nth_of_c.qbk
+++ b/doc/nth_of_c.qbk
@@ -26,7 +26,7 @@ On compilers, which are not C++11-compliant, the maximum number of parsers
 
 [h1 Header]
 
-  #include <boost/metaparse/nth_of.hpp>
+  #include <boost/metaparse/nth_of_c.hpp>
 
 [h1 Expression semantics]
 For any `p0`, ..., `pn` parsers and `k` integer value, where `0 <= k < n` the
-- 
2.43.0


From 3851e2c75e9701edfe62f44d4fb4645ce67644c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:56 +0000
Subject: [PATCH 7/7] fix: debug_parsing_error prints texts that contain null
 characters in full

---
 include/boost/metaparse/v1/debug_parsing_error.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/boost/metaparse/v1/debug_parsing_error.hpp b/include/boost/metaparse/v1/debug_parsing_error.hpp
index ea44188..c9d9f6a 100644
--- a/include/boost/metaparse/v1/debug_parsing_error.hpp
+++ b/include/boost/metaparse/v1/debug_parsing_error.hpp
@@ -12,6 +12,7 @@
 #include <boost/metaparse/v1/get_remaining.hpp>
 
 #include <boost/mpl/if.hpp>
+#include <boost/mpl/size.hpp>
 #include <boost/mpl/string.hpp>
 
 #include <iostream>
@@ -38,7 +39,8 @@ namespace boost
           cout << "Compile-time parsing results" << endl;
           cout << "----------------------------" << endl;
           cout << "Input text:" << endl;
-          cout << c_str<S>::type::value << endl;
+          cout.write(c_str<S>::type::value, boost::mpl::size<S>::type::value);
+          cout << endl;
           cout << endl;
           runner::run();
           
@@ -75,8 +77,12 @@ namespace boost
             typedef typename get_remaining<Result>::type remaining_string;
             
             cout
-              << "Parsing was successful. Remaining string is:" << endl
-              << c_str<remaining_string>::type::value << endl;
+              << "Parsing was successful. Remaining string is:" << endl;
+            cout.write(
+              c_str<remaining_string>::type::value,
+              boost::mpl::size<remaining_string>::type::value
+            );
+            cout << endl;
           }
         };
 
-- 
2.43.0

