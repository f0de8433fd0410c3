From 1637c776042edebaef0a58bad25b0f6802ef94bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 01/25] fix: \s leaves the cursor in place when it does not
 match

A failed \s advanced the cursor, so the scan skipped characters: \s did
not find the space in "ab c".
---
 src/terminals/space_characters.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/terminals/space_characters.hpp b/src/terminals/space_characters.hpp
index 4ed983e..7b8ffbb 100644
--- a/src/terminals/space_characters.hpp
+++ b/src/terminals/space_characters.hpp
@@ -29,7 +29,10 @@ namespace e_regex::terminals
                                    *result.actual_iterator_end)
                          != matched.end();
 
-                result.actual_iterator_end++;
+                if (result)
+                {
+                    result.actual_iterator_end++;
+                }
 
                 return result;
             }
-- 
2.43.0


From 674aca4e20f0ac9dea4a324bd4e84193a4ec1d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 02/25] fix: make \D, \W, \S and \N compile and consume one
 character

The documented negated classes could not be instantiated; had they been,
they would have accepted without consuming the character.
---
 src/terminals/common.hpp           | 23 ++++++++++++-----------
 src/terminals/digit_characters.hpp |  3 ++-
 src/terminals/new_line.hpp         |  3 ++-
 src/terminals/space_characters.hpp |  3 ++-
 src/terminals/word_characters.hpp  |  3 ++-
 5 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/terminals/common.hpp b/src/terminals/common.hpp
index 32bc961..100bb29 100644
--- a/src/terminals/common.hpp
+++ b/src/terminals/common.hpp
@@ -1,8 +1,6 @@
 #ifndef E_REGEX_TERMINALS_COMMON_HPP_
 #define E_REGEX_TERMINALS_COMMON_HPP_
 
-#include <utility>
-
 #include "nodes/meta.hpp"
 #include "utilities/admitted_set.hpp"
 #include "utilities/static_string.hpp"
@@ -36,20 +34,23 @@ namespace e_regex::terminals
             }
     };
 
-    template<typename terminal, typename admission_set>
+    template<typename derived, typename terminal, typename admission_set>
     struct negated_terminal
-        : public terminal_common<negated_terminal<terminal, admission_set>,
-                                 admitted_set_complement_t<admission_set>>
+        : public terminal_common<derived, admitted_set_complement_t<admission_set>>
     {
-            template<typename... injected_children>
-            using optimize = negated_terminal;
-
-            template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
                 match_(auto& result) -> auto&
             {
-                result = terminal::match_(std::move(result));
-                result = !result.accepted;
+                const auto start = result.actual_iterator_end;
+
+                terminal::match_(result);
+                result                     = !result.accepted;
+                result.actual_iterator_end = start;
+
+                if (result)
+                {
+                    result.actual_iterator_end++;
+                }
 
                 return result;
             }
diff --git a/src/terminals/digit_characters.hpp b/src/terminals/digit_characters.hpp
index 49fa499..616fb10 100644
--- a/src/terminals/digit_characters.hpp
+++ b/src/terminals/digit_characters.hpp
@@ -16,7 +16,8 @@ namespace e_regex::terminals
 
     template<>
     struct terminal<pack_string<'\\', 'D'>>
-        : public negated_terminal<terminal<pack_string<'\\', 'd'>>,
+        : public negated_terminal<terminal<pack_string<'\\', 'D'>>,
+                                  terminal<pack_string<'\\', 'd'>>,
                                   admitted_set_range_t<char, '0', '9'>>
     {
             static constexpr auto expression = static_string {"\\D"};
diff --git a/src/terminals/new_line.hpp b/src/terminals/new_line.hpp
index e276d34..d8ec558 100644
--- a/src/terminals/new_line.hpp
+++ b/src/terminals/new_line.hpp
@@ -15,7 +15,8 @@ namespace e_regex::terminals
 
     template<>
     struct terminal<pack_string<'\\', 'N'>>
-        : public negated_terminal<terminal<pack_string<'\\', 'n'>>,
+        : public negated_terminal<terminal<pack_string<'\\', 'N'>>,
+                                  terminal<pack_string<'\\', 'n'>>,
                                   admitted_set<char, '\n'>>
     {
             static constexpr auto expression = static_string {"\\N"};
diff --git a/src/terminals/space_characters.hpp b/src/terminals/space_characters.hpp
index 7b8ffbb..44285c6 100644
--- a/src/terminals/space_characters.hpp
+++ b/src/terminals/space_characters.hpp
@@ -40,7 +40,8 @@ namespace e_regex::terminals
 
     template<>
     struct terminal<pack_string<'\\', 'S'>>
-        : public negated_terminal<terminal<pack_string<'\\', 's'>>,
+        : public negated_terminal<terminal<pack_string<'\\', 'S'>>,
+                                  terminal<pack_string<'\\', 's'>>,
                                   space_characters_admission_set>
     {
             static constexpr auto expression = static_string {"\\S"};
diff --git a/src/terminals/word_characters.hpp b/src/terminals/word_characters.hpp
index ed1b5b4..3cd688a 100644
--- a/src/terminals/word_characters.hpp
+++ b/src/terminals/word_characters.hpp
@@ -39,7 +39,8 @@ namespace e_regex::terminals
 
     template<>
     struct terminal<pack_string<'\\', 'W'>>
-        : public negated_terminal<terminal<pack_string<'\\', 'w'>>, word_characters_admission_set>
+        : public negated_terminal<terminal<pack_string<'\\', 'W'>>,
+                                  terminal<pack_string<'\\', 'w'>>, word_characters_admission_set>
     {
             static constexpr auto expression = static_string {"\\W"};
     };
-- 
2.43.0


From aa5a6794185b0424a09cfd4aebe5b200165a7b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 03/25] fix: [^...] does not move the cursor when it rejects a
 character

The rejected character stayed consumed, so [^a] did not find 'b' in "aab".
---
 src/nodes/negated.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nodes/negated.hpp b/src/nodes/negated.hpp
index 601a9b9..7bb00fd 100644
--- a/src/nodes/negated.hpp
+++ b/src/nodes/negated.hpp
@@ -38,8 +38,11 @@ namespace e_regex::nodes
                     return result;
                 }
 
+                const auto start = result.actual_iterator_end;
+
                 matcher::match(result);
-                result.accepted = !result.accepted;
+                result.accepted            = !result.accepted;
+                result.actual_iterator_end = start;
 
                 if (result)
                 {
-- 
2.43.0


From bc9820180aae2d9eda9c150afccf5692fdf956b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 04/25] fix: never read past the end of the query

$ looked at (and could consume) the byte after the query, and a multi
character exact matcher such as \x{4141} compared bytes beyond it.
---
 src/terminals/anchors/end.hpp   | 3 ++-
 src/terminals/exact_matcher.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/terminals/anchors/end.hpp b/src/terminals/anchors/end.hpp
index 4bfe158..390bcad 100644
--- a/src/terminals/anchors/end.hpp
+++ b/src/terminals/anchors/end.hpp
@@ -34,7 +34,8 @@ namespace e_regex::terminals::anchors
                     = (result.actual_iterator_end == result.query.end())
                       || *result.actual_iterator_end == '\n';
 
-                if (*result.actual_iterator_end == '\n')
+                if (result.actual_iterator_end != result.query.end()
+                    && *result.actual_iterator_end == '\n')
                 {
                     result.actual_iterator_end++;
                 }
diff --git a/src/terminals/exact_matcher.hpp b/src/terminals/exact_matcher.hpp
index f9ec4e4..7b4726f 100644
--- a/src/terminals/exact_matcher.hpp
+++ b/src/terminals/exact_matcher.hpp
@@ -35,7 +35,8 @@ namespace e_regex::terminals
                 for (const auto c:
                      pack_string<identifier, identifiers...>::string.to_view())
                 {
-                    if (c != *result.actual_iterator_end)
+                    if (result.actual_iterator_end >= result.query.end()
+                        || c != *result.actual_iterator_end)
                     {
                         result.actual_iterator_end = start;
                         result.accepted            = false;
-- 
2.43.0


From 569cf805774fe1167b4454c2f1efd7b2306bf2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 05/25] fix: decode hex digits above 9, and take only octal
 digits as octal

\x4A matched 'Q', lowercase digits were not digits, \x4? took '?' for a
nibble, the last digit of an odd \x{...} got lost and 8 was octal.
---
 src/operators/hex.hpp   | 30 +++++++++++++++++++-----------
 src/operators/octal.hpp | 11 ++++++-----
 2 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/operators/hex.hpp b/src/operators/hex.hpp
index 94eeee2..24b828c 100644
--- a/src/operators/hex.hpp
+++ b/src/operators/hex.hpp
@@ -8,7 +8,14 @@
 namespace e_regex
 {
     template<char C>
-    concept hex = C >= '0' && C <= 'F';
+    concept hex = (C >= '0' && C <= '9') || (C >= 'A' && C <= 'F')
+                  || (C >= 'a' && C <= 'f');
+
+    template<char C>
+        requires hex<C>
+    static constexpr unsigned nibble_v = C <= '9'   ? C - '0'
+                                         : C <= 'F' ? C - 'A' + 10
+                                                    : C - 'a' + 10;
 
     template<char... digits>
     struct hex_to_bin;
@@ -17,10 +24,10 @@ namespace e_regex
     struct hex_to_bin<first, second, tail...>
     {
             static_assert(hex<first> && hex<second>,
-                          "Hex characters must be included between 0 and F");
+                          "Hex characters must be included between 0 and 9 or A and F");
 
-            static constexpr char current
-                = ((first - '0') << 4) | (second - '0');
+            static constexpr char current = static_cast<char>(
+                (nibble_v<first> << 4) | nibble_v<second>);
 
             using result
                 = merge_pack_strings_t<pack_string<current>,
@@ -31,22 +38,23 @@ namespace e_regex
     struct hex_to_bin<first, second, third>
     {
             static_assert(hex<first> && hex<second> && hex<third>,
-                          "Hex characters must be included between 0 and F");
+                          "Hex characters must be included between 0 and 9 or A and F");
 
-            static constexpr char current
-                = ((first - '0') << (4)) | (second - '0');
-            static constexpr char current_second = (third - '0') << 4;
+            static constexpr char current = static_cast<char>(
+                (nibble_v<first> << 4) | nibble_v<second>);
+            static constexpr char current_second
+                = static_cast<char>(nibble_v<third> << 4);
 
-            using result = pack_string<current>;
+            using result = pack_string<current, current_second>;
     };
 
     template<char first>
     struct hex_to_bin<first>
     {
             static_assert(hex<first>,
-                          "Hex characters must be included between 0 and F");
+                          "Hex characters must be included between 0 and 9 or A and F");
 
-            static constexpr char current = first - '0';
+            static constexpr char current = nibble_v<first>;
 
             using result = pack_string<current>;
     };
diff --git a/src/operators/octal.hpp b/src/operators/octal.hpp
index 7cc26e0..ef39233 100644
--- a/src/operators/octal.hpp
+++ b/src/operators/octal.hpp
@@ -7,7 +7,7 @@
 namespace e_regex
 {
     template<char C>
-    concept octal = C >= '0' && C <= '8';
+    concept octal = C >= '0' && C <= '7';
 
     template<char... digits>
     struct octal_to_bin;
@@ -16,11 +16,12 @@ namespace e_regex
     struct octal_to_bin<first, second, third, tail...>
     {
             static_assert(octal<first> && octal<second> && octal<third>,
-                          "Octal characters must be included between 0 and 8");
+                          "Octal characters must be included between 0 and 7");
 
-            static constexpr char current = ((first - '0') << 6)
-                                            | ((second - '0') << 3)
-                                            | (third - '0');
+            static constexpr char current
+                = static_cast<char>(((first - '0') << 6)
+                                    | ((second - '0') << 3)
+                                    | (third - '0'));
 
             using result
                 = merge_pack_strings_t<pack_string<current>,
-- 
2.43.0


From 1f98163607983adc29b9ee367e40c9bad41253b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 06/25] fix: support the documented \oNNN form

---
 src/operators/octal.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/operators/octal.hpp b/src/operators/octal.hpp
index ef39233..88d14b8 100644
--- a/src/operators/octal.hpp
+++ b/src/operators/octal.hpp
@@ -68,6 +68,31 @@ namespace e_regex
             using tree = add_child_t<last_node, new_node>;
     };
 
+    template<typename last_node,
+             char first_nibble,
+             char second_nibble,
+             char third_nibble,
+             typename... tail,
+             auto group_index>
+        requires octal<first_nibble> && octal<second_nibble>
+                 && octal<third_nibble>
+    struct tree_builder_helper<last_node,
+                               std::tuple<pack_string<'\\', 'o'>,
+                                          pack_string<first_nibble>,
+                                          pack_string<second_nibble>,
+                                          pack_string<third_nibble>,
+                                          tail...>,
+                               group_index>
+        : public tree_builder_helper<last_node,
+                                     std::tuple<pack_string<'\\', first_nibble>,
+                                                pack_string<second_nibble>,
+                                                pack_string<third_nibble>,
+                                                tail...>,
+                                     group_index>
+    {
+            // \oNNN, same as \NNN
+    };
+
     template<typename last_node, typename... tail, auto group_index>
     struct tree_builder_helper<
         last_node,
-- 
2.43.0


From eb5cd2737fee8ed2bc9981884ff8057991f54e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 07/25] fix: admission sets cover bytes above 0x7F and the
 newline $ consumes

'.*' and '[^x]*' became possessive before a byte above 0x7F, and '\n*'
before $; [a-a] was rejected although its static_assert allows it.
---
 src/terminals/anchors/end.hpp  | 2 +-
 src/terminals/any.hpp          | 2 +-
 src/utilities/admitted_set.hpp | 8 +++++---
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/terminals/anchors/end.hpp b/src/terminals/anchors/end.hpp
index 390bcad..ccf5171 100644
--- a/src/terminals/anchors/end.hpp
+++ b/src/terminals/anchors/end.hpp
@@ -11,7 +11,7 @@ namespace e_regex::terminals::anchors
             static constexpr auto expression = static_string {"$"};
 
             static constexpr auto meta = e_regex::meta<
-                admitted_set_complement_t<admitted_set<char, '\n'>>> {
+                admitted_set<char, '\n'>> {
                 .policy_            = e_regex::policy::NONE,
                 .minimum_match_size = 0,
                 .maximum_match_size = 1,
diff --git a/src/terminals/any.hpp b/src/terminals/any.hpp
index a3eec05..592eac8 100644
--- a/src/terminals/any.hpp
+++ b/src/terminals/any.hpp
@@ -9,7 +9,7 @@ namespace e_regex::terminals
     template<>
     struct terminal<pack_string<'.'>>
         : public terminal_common<terminal<pack_string<'.'>>,
-                                 admitted_set_range_t<char, '\0', '\x7F'>>
+                                 admitted_set_complement_t<admitted_set<char, '\n'>>>
     {
             static constexpr auto expression = static_string {"."};
 
diff --git a/src/utilities/admitted_set.hpp b/src/utilities/admitted_set.hpp
index 4d4353b..055bc96 100644
--- a/src/utilities/admitted_set.hpp
+++ b/src/utilities/admitted_set.hpp
@@ -27,14 +27,14 @@ namespace e_regex
              Char start,
              Char end,
              typename seq = std::make_integer_sequence<unsigned, 1 + end - start>>
-        requires(end > start)
+        requires(end >= start)
     struct admitted_set_range;
 
     template<typename Char, Char start, Char end, auto... seq>
     struct admitted_set_range<Char, start, end, std::integer_sequence<unsigned, seq...>>
     {
             using type
-                = admitted_set<Char, (static_cast<Char>(seq) + start)...>;
+                = admitted_set<Char, static_cast<Char>(static_cast<int>(seq) + start)...>;
     };
 
     template<typename Char, Char start, Char end>
@@ -194,7 +194,9 @@ namespace e_regex
     template<typename set, typename Char = typename set::Char_t>
     using admitted_set_complement_t = admitted_sets_difference_t<
         set,
-        admitted_set_range_t<Char, 0, std::numeric_limits<Char>::max()>>;
+        admitted_set_range_t<Char,
+                             std::numeric_limits<Char>::min(),
+                             std::numeric_limits<Char>::max()>>;
 
     // Intersection of two sets
     template<typename set1,
-- 
2.43.0


From 5b954c76af3d52cf122cb9782e0b7a26d7bd8d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 08/25] fix: admission sets and match sizes account for every
 branch and for optional parts

a|b admitted only 'a', a group or repeated part that may be empty hid what
follows it, so b*(a|b)c and a*(b?)a became possessive and stopped matching;
maximum sizes were taken from minimum sizes or wrapped around.
---
 src/nodes/basic.hpp      | 17 ++++++-----------
 src/nodes/greedy.hpp     | 13 ++++++++-----
 src/nodes/group.hpp      | 16 ++++++++++++----
 src/nodes/lazy.hpp       | 13 ++++++++-----
 src/nodes/possessive.hpp | 13 ++++++++-----
 src/nodes/repeated.hpp   | 16 ++++++++++++----
 src/utilities/math.hpp   | 15 +++++++++++++++
 7 files changed, 69 insertions(+), 34 deletions(-)

diff --git a/src/nodes/basic.hpp b/src/nodes/basic.hpp
index d299d6c..2ff07ec 100644
--- a/src/nodes/basic.hpp
+++ b/src/nodes/basic.hpp
@@ -55,8 +55,8 @@ namespace e_regex::nodes
                 = matcher::meta.minimum_match_size
                   + min(children::meta.minimum_match_size...),
                 .maximum_match_size
-                = matcher::meta.maximum_match_size
-                  + max(children::meta.minimum_match_size...),
+                = saturated_sum(matcher::meta.maximum_match_size,
+                                max(children::meta.maximum_match_size...)),
             };
 
             template<typename... injected_children>
@@ -88,23 +88,18 @@ namespace e_regex::nodes
     template<typename... children>
     struct simple<void, children...> : public base<void, children...>
     {
-            using child
-                = std::tuple_element_t<0, std::tuple<children...>>;
-
             static constexpr auto expression
                 = get_children_expression<children...>();
 
-            using admission_set = std::conditional_t<
-                child::meta.minimum_match_size == 0,
-                typename extract_admission_set<children...>::type,
-                typename extract_admission_set<child>::type>;
+            using admission_set =
+                typename extract_admission_set<children...>::type;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = policy::NONE,
                 .minimum_match_size
                 = min(children::meta.minimum_match_size...),
                 .maximum_match_size
-                = max(children::meta.minimum_match_size...),
+                = max(children::meta.maximum_match_size...),
             };
 
             template<typename... injected_children>
@@ -132,7 +127,7 @@ namespace e_regex::nodes
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_            = policy::NONE,
                 .minimum_match_size = child::meta.minimum_match_size,
-                .maximum_match_size = child::meta.minimum_match_size,
+                .maximum_match_size = child::meta.maximum_match_size,
             };
 
             template<typename... injected_children>
diff --git a/src/nodes/greedy.hpp b/src/nodes/greedy.hpp
index 3dcb5f3..3c26b0c 100644
--- a/src/nodes/greedy.hpp
+++ b/src/nodes/greedy.hpp
@@ -26,10 +26,11 @@ namespace e_regex::nodes
             using self_admission_set =
                 typename decltype(matcher::meta)::admission_set;
 
-            // If matcher is optional (aka repetitions_min==0),
-            // admission set must include children too
+            // If matcher is optional (aka repetitions_min==0 or it
+            // accepts an empty string), admission set must include
+            // children too
             using admission_set = std::conditional_t<
-                repetitions_min == 0,
+                matcher::meta.minimum_match_size * repetitions_min == 0,
                 typename extract_admission_set<matcher, children...>::type,
                 self_admission_set>;
 
@@ -41,8 +42,10 @@ namespace e_regex::nodes
                 .maximum_match_size
                 = repetitions_max == std::numeric_limits<unsigned>::max()
                       ? std::numeric_limits<unsigned>::max()
-                      : matcher::meta.maximum_match_size * repetitions_max
-                            + max(children::meta.maximum_match_size...),
+                      : saturated_sum(
+                            saturated_product(matcher::meta.maximum_match_size,
+                                              repetitions_max),
+                            max(children::meta.maximum_match_size...)),
             };
 
             static constexpr unsigned groups
diff --git a/src/nodes/group.hpp b/src/nodes/group.hpp
index 5fc7019..1b37751 100644
--- a/src/nodes/group.hpp
+++ b/src/nodes/group.hpp
@@ -17,13 +17,21 @@ namespace e_regex::nodes
                 = '(' + matcher::expression + ')'
                   + get_children_expression<children...>();
 
-            using admission_set =
-                typename extract_admission_set<matcher>::type;
+            // If matcher is optional, admission set must include
+            // children too
+            using admission_set = std::conditional_t<
+                matcher::meta.minimum_match_size == 0,
+                typename extract_admission_set<matcher, children...>::type,
+                typename extract_admission_set<matcher>::type>;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::NONE,
-                .minimum_match_size = matcher::meta.minimum_match_size,
-                .maximum_match_size = matcher::meta.maximum_match_size};
+                .minimum_match_size
+                = matcher::meta.minimum_match_size
+                  + min(children::meta.minimum_match_size...),
+                .maximum_match_size
+                = saturated_sum(matcher::meta.maximum_match_size,
+                                max(children::meta.maximum_match_size...))};
 
             static constexpr auto next_group_index = group_index + 1;
 
diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index aa309a2..02435a9 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -17,10 +17,11 @@ namespace e_regex::nodes
              typename... children>
     struct lazy : public base<matcher, children...>
     {
-            // If matcher is optional (aka repetitions_min==0),
-            // admission set must include children too
+            // If matcher is optional (aka repetitions_min==0 or it
+            // accepts an empty string), admission set must include
+            // children too
             using admission_set = std::conditional_t<
-                repetitions_min == 0,
+                matcher::meta.minimum_match_size * repetitions_min == 0,
                 typename extract_admission_set<matcher, children...>::type,
                 typename decltype(matcher::meta)::admission_set>;
 
@@ -32,8 +33,10 @@ namespace e_regex::nodes
                 .maximum_match_size
                 = repetitions_max == std::numeric_limits<unsigned>::max()
                       ? std::numeric_limits<unsigned>::max()
-                      : matcher::meta.maximum_match_size * repetitions_max
-                            + max(children::meta.maximum_match_size...),
+                      : saturated_sum(
+                            saturated_product(matcher::meta.maximum_match_size,
+                                              repetitions_max),
+                            max(children::meta.maximum_match_size...)),
             };
 
             static constexpr auto expression = []() {
diff --git a/src/nodes/possessive.hpp b/src/nodes/possessive.hpp
index a625909..7a25263 100644
--- a/src/nodes/possessive.hpp
+++ b/src/nodes/possessive.hpp
@@ -16,10 +16,11 @@ namespace e_regex::nodes
              typename... children>
     struct possessive : public base<matcher, children...>
     {
-            // If matcher is optional (aka repetitions_min==0),
-            // admission set must include children too
+            // If matcher is optional (aka repetitions_min==0 or it
+            // accepts an empty string), admission set must include
+            // children too
             using admission_set = std::conditional_t<
-                repetitions_min == 0,
+                matcher::meta.minimum_match_size * repetitions_min == 0,
                 typename extract_admission_set<matcher, children...>::type,
                 typename decltype(matcher::meta)::admission_set>;
 
@@ -31,8 +32,10 @@ namespace e_regex::nodes
                 .maximum_match_size
                 = repetitions_max == std::numeric_limits<unsigned>::max()
                       ? std::numeric_limits<unsigned>::max()
-                      : matcher::meta.maximum_match_size * repetitions_max
-                            + max(children::meta.maximum_match_size...),
+                      : saturated_sum(
+                            saturated_product(matcher::meta.maximum_match_size,
+                                              repetitions_max),
+                            max(children::meta.maximum_match_size...)),
             };
 
             static constexpr auto expression = []() {
diff --git a/src/nodes/repeated.hpp b/src/nodes/repeated.hpp
index 2ee9821..8d14a27 100644
--- a/src/nodes/repeated.hpp
+++ b/src/nodes/repeated.hpp
@@ -12,15 +12,23 @@ namespace e_regex::nodes
     template<typename matcher, unsigned repetitions, typename... children>
     struct repeated : public base<matcher, children...>
     {
-            using admission_set =
-                typename extract_admission_set<matcher>::type;
+            // If matcher is optional, admission set must include
+            // children too
+            using admission_set = std::conditional_t<
+                matcher::meta.minimum_match_size * repetitions == 0,
+                typename extract_admission_set<matcher, children...>::type,
+                typename extract_admission_set<matcher>::type>;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::NONE,
                 .minimum_match_size
-                = matcher::meta.minimum_match_size * repetitions,
+                = matcher::meta.minimum_match_size * repetitions
+                  + min(children::meta.minimum_match_size...),
                 .maximum_match_size
-                = matcher::meta.maximum_match_size * repetitions,
+                = saturated_sum(
+                    saturated_product(matcher::meta.maximum_match_size,
+                                      repetitions),
+                    max(children::meta.maximum_match_size...)),
             };
 
             static constexpr auto expression = []() {
diff --git a/src/utilities/math.hpp b/src/utilities/math.hpp
index 1b9eab7..fe75847 100644
--- a/src/utilities/math.hpp
+++ b/src/utilities/math.hpp
@@ -2,6 +2,7 @@
 #define E_REGEX_UTILITIES_MATH_HPP_
 
 #include <algorithm>
+#include <limits>
 
 namespace e_regex
 {
@@ -45,6 +46,20 @@ namespace e_regex
         return max(std::max(n1, n2), tail...);
     }
 
+    // Sizes saturate: max means unlimited
+    consteval auto saturated_sum(unsigned a, unsigned b) -> unsigned
+    {
+        return a > std::numeric_limits<unsigned>::max() - b
+                   ? std::numeric_limits<unsigned>::max()
+                   : a + b;
+    }
+
+    consteval auto saturated_product(unsigned a, unsigned b) -> unsigned
+    {
+        return b != 0 && a > std::numeric_limits<unsigned>::max() / b
+                   ? std::numeric_limits<unsigned>::max()
+                   : a * b;
+    }
 } // namespace e_regex
 
 #endif /* E_REGEX_UTILITIES_MATH_HPP_*/
-- 
2.43.0


From f512e88a01bbe1d8b54f907c290fe32e2b927477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 09/25] fix: number capturing groups by their opening bracket

Groups after a nested group, a set, a non capturing group or in a later
branch reused the index of an earlier one: (a)[b](c) lost its second group.
---
 src/nodes/group.hpp               | 5 ++++-
 src/operators/round_brackets.hpp  | 4 ++--
 src/operators/square_brackets.hpp | 7 ++-----
 src/tree_builder/tree_builder.hpp | 2 +-
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/nodes/group.hpp b/src/nodes/group.hpp
index 1b37751..c9493e4 100644
--- a/src/nodes/group.hpp
+++ b/src/nodes/group.hpp
@@ -33,7 +33,10 @@ namespace e_regex::nodes
                 = saturated_sum(matcher::meta.maximum_match_size,
                                 max(children::meta.maximum_match_size...))};
 
-            static constexpr auto next_group_index = group_index + 1;
+            static constexpr auto next_group_index
+                = max(group_index + 1,
+                      group_index_getter<matcher>::value,
+                      group_index_getter<children>::value...);
 
             template<typename... injected_children>
             using optimize
diff --git a/src/operators/round_brackets.hpp b/src/operators/round_brackets.hpp
index 2d755f6..c1c2af9 100644
--- a/src/operators/round_brackets.hpp
+++ b/src/operators/round_brackets.hpp
@@ -21,7 +21,7 @@ namespace e_regex
             using tree =
                 typename branched<std::tuple<parsed..., subtree>,
                                   std::tuple<subregexes...>,
-                                  group_index>::tree;
+                                  max(group_index, subtree::next_group_index)>::tree;
     };
 
     template<typename... parsed, auto group_index>
@@ -70,7 +70,7 @@ namespace e_regex
             using new_node =
                 typename tree_builder_helper<subregex,
                                              typename substring::remaining,
-                                             subregex::next_group_index>::tree;
+                                             max(group_index, subregex::next_group_index)>::tree;
 
             using tree = add_child_t<last_node, new_node>;
     };
diff --git a/src/operators/square_brackets.hpp b/src/operators/square_brackets.hpp
index 4b9618e..6a7f627 100644
--- a/src/operators/square_brackets.hpp
+++ b/src/operators/square_brackets.hpp
@@ -107,7 +107,7 @@ namespace e_regex
             using new_node =
                 typename tree_builder_helper<subregex,
                                              typename substring::remaining,
-                                             subregex::next_group_index>::tree;
+                                             group_index>::tree;
 
             using tree = add_child_t<last_node, new_node>;
     };
@@ -127,13 +127,10 @@ namespace e_regex
                 typename substring::result,
                 group_index>::tree;
 
-            // if subregex_group_index is 0 the subregex does not
-            // contain any group
-
             using new_node = typename tree_builder_helper<
                 nodes::simple<nodes::negated_node<subregex>>,
                 typename substring::remaining,
-                subregex::next_group_index>::tree;
+                group_index>::tree;
 
             using tree = add_child_t<last_node, new_node>;
     };
diff --git a/src/tree_builder/tree_builder.hpp b/src/tree_builder/tree_builder.hpp
index f327789..acee3d4 100644
--- a/src/tree_builder/tree_builder.hpp
+++ b/src/tree_builder/tree_builder.hpp
@@ -22,7 +22,7 @@ namespace e_regex
             using tree =
                 typename tree_builder_branches<std::tuple<parsed..., subtree>,
                                                std::tuple<subregexes...>,
-                                               subtree::next_group_index>::tree;
+                                               max(group_index, subtree::next_group_index)>::tree;
     };
 
     template<typename... parsed, auto group_index>
-- 
2.43.0


From ffea0ca5be124774e3d65ef1a825ca136448af3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 10/25] fix: iterating terminates on empty matches, tries the
 end of input and never leaves stale captures

---
 src/match_result.hpp | 67 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 50 insertions(+), 17 deletions(-)

diff --git a/src/match_result.hpp b/src/match_result.hpp
index fe5e0ba..f6b99c4 100644
--- a/src/match_result.hpp
+++ b/src/match_result.hpp
@@ -50,15 +50,8 @@ namespace e_regex
             constexpr __attribute__((always_inline))
             match_result(literal_string_view<> query) noexcept
             {
-                data.query                 = query;
-                data.actual_iterator_start = query.begin();
-                data.actual_iterator_end = data.actual_iterator_start;
-
-                data = matcher::match(data);
-                if (!data)
-                {
-                    next();
-                }
+                data.query = query;
+                search(query.begin());
             }
 
             constexpr __attribute__((always_inline)) auto
@@ -176,23 +169,63 @@ namespace e_regex
              */
             constexpr __attribute__((always_inline)) auto next() noexcept
             {
-                data.match_groups = {};
-                data.actual_iterator_start = data.actual_iterator_end;
+                if (!data.accepted)
+                {
+                    return false;
+                }
+
+                if (data.actual_iterator_start != data.actual_iterator_end)
+                {
+                    return search(data.actual_iterator_end);
+                }
 
-                while (data.actual_iterator_start < data.query.end())
+                // The last match was empty: go on from the next
+                // character, to not find it again
+                if (data.actual_iterator_end == data.query.end())
                 {
-                    matcher::match(data);
+                    return reject();
+                }
 
-                    if (data.accepted)
+                return search(data.actual_iterator_end + 1);
+            }
+
+        private:
+            /**
+             * @brief Find the first match that starts at or after from
+             */
+            constexpr auto
+                search(typename literal_string_view<Char_Type>::iterator from) noexcept
+                -> bool
+            {
+                while (true)
+                {
+                    // Every attempt starts afresh
+                    data.actual_iterator_start = from;
+                    data.actual_iterator_end   = from;
+                    data.match_groups          = {};
+                    data.accepted              = true;
+
+                    if (matcher::match(data))
                     {
                         return true;
                     }
 
-                    data.actual_iterator_start
-                        = ++data.actual_iterator_end;
+                    if (from == data.query.end())
+                    {
+                        return reject();
+                    }
+
+                    ++from;
                 }
+            }
+
+            constexpr auto reject() noexcept -> bool
+            {
+                data.actual_iterator_start = data.query.end();
+                data.actual_iterator_end   = data.query.end();
+                data.match_groups          = {};
+                data.accepted              = false;
 
-                data.accepted = false;
                 return false;
             }
     };
-- 
2.43.0


From 9b2431360cf6964deafb395ab453b2b6b6d8bdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 11/25] fix: alternatives, quantifiers and groups backtrack
 into all that follows them, exactly

A node was matched without what follows its parents, groups injected their
children twice, and greedy and lazy nodes guessed where repetitions end: valid
matches were missed, or had a wrong (even negative) length, and loops on empty
repetitions did not end. Every node now matches what follows it too, restores
the result when it fails, and gives whole repetitions back.
---
 src/nodes/basic.hpp             |  24 ++----
 src/nodes/common.hpp            |  52 +++++++++++-
 src/nodes/greedy.hpp            | 142 ++++++++++++--------------------
 src/nodes/group.hpp             |  41 ++++++---
 src/nodes/lazy.hpp              |  79 ++++++------------
 src/nodes/negated.hpp           |   5 ++
 src/nodes/possessive.hpp        |  37 +++++----
 src/nodes/repeated.hpp          |  19 +++--
 src/terminals/anchors/end.hpp   |   8 ++
 src/terminals/anchors/start.hpp |   6 ++
 src/terminals/common.hpp        |  12 ++-
 11 files changed, 223 insertions(+), 202 deletions(-)

diff --git a/src/nodes/basic.hpp b/src/nodes/basic.hpp
index 2ff07ec..882c398 100644
--- a/src/nodes/basic.hpp
+++ b/src/nodes/basic.hpp
@@ -61,27 +61,15 @@ namespace e_regex::nodes
 
             template<typename... injected_children>
             using optimize
-                = simple<typename matcher::template optimize<injected_children...>,
-                         typename children::template optimize<>...>;
+                = simple<typename matcher::template optimize<children..., injected_children...>,
+                         typename children::template optimize<injected_children...>...>;
 
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
                 match(auto& res) -> auto&
             {
-                auto begin = res.actual_iterator_end;
-
-                matcher::match(res);
-
-                if (res)
-                {
-                    if (!dfs<std::tuple<children...>,
-                             std::tuple<injected_children...>>(res))
-                    {
-                        res.actual_iterator_end = begin;
-                    }
-                }
-
-                return res;
+                return matcher::template match<branches<children...>,
+                                               injected_children...>(res);
             }
     };
 
@@ -104,7 +92,7 @@ namespace e_regex::nodes
 
             template<typename... injected_children>
             using optimize
-                = simple<void, typename children::template optimize<>...>;
+                = simple<void, typename children::template optimize<injected_children...>...>;
 
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
@@ -164,7 +152,7 @@ namespace e_regex::nodes
             static constexpr __attribute__((always_inline)) auto
                 match(auto& res) -> auto&
             {
-                return matcher::match(res);
+                return matcher::template match<injected_children...>(res);
             }
     };
 
diff --git a/src/nodes/common.hpp b/src/nodes/common.hpp
index 48ad323..46b08fa 100644
--- a/src/nodes/common.hpp
+++ b/src/nodes/common.hpp
@@ -77,6 +77,29 @@ namespace e_regex::nodes
                   + sum(group_getter<children>::value...);
     };
 
+    /**
+     * @brief Match what follows a node: injected_children, in sequence
+     *
+     * Every node matches itself, its children and then its
+     * injected_children: it has to find another way to match when they
+     * do not. A node that fails leaves the result as it found it.
+     */
+    template<typename... injected_children>
+    constexpr auto follow(auto& res) noexcept -> auto&
+    {
+        if constexpr (sizeof...(injected_children) == 0)
+        {
+            return res;
+        }
+        else
+        {
+            return []<typename head, typename... tail>(
+                       std::tuple<head, tail...>*, auto& res) -> auto&
+            { return head::template match<tail...>(res); }(
+                static_cast<std::tuple<injected_children...>*>(nullptr), res);
+        }
+    }
+
     template<typename injected_children>
     struct invoke_match;
 
@@ -89,6 +112,12 @@ namespace e_regex::nodes
             {
                 return T::template match<injected_children...>(res);
             }
+
+            static constexpr __attribute__((always_inline)) auto
+                match(auto& res) -> auto&
+            {
+                return follow<injected_children...>(res);
+            }
     };
 
     template<typename nodes,
@@ -107,14 +136,15 @@ namespace e_regex::nodes
     constexpr __attribute__((always_inline)) auto
         dfs(auto& match_result) noexcept -> auto&
     {
+        using invoker = invoke_match<injected_children>;
+
         if constexpr (std::tuple_size_v<children> == 0)
         {
-            return match_result;
+            return invoker::match(match_result);
         }
         else
         {
             using _children = first_type<children>;
-            using invoker   = invoke_match<injected_children>;
 
             if constexpr (std::tuple_size_v<children> == 1)
             {
@@ -130,10 +160,26 @@ namespace e_regex::nodes
                 }
 
                 match_result.accepted = true;
-                return dfs<typename _children::remaining>(match_result);
+                return dfs<typename _children::remaining, injected_children>(
+                    match_result);
             }
         }
     }
+
+    /**
+     * @brief The children of a node, as an injected child
+     */
+    template<typename... children>
+    struct branches
+    {
+            template<typename... injected_children>
+            static constexpr __attribute__((always_inline)) auto
+                match(auto& res) -> auto&
+            {
+                return dfs<std::tuple<children...>,
+                           std::tuple<injected_children...>>(res);
+            }
+    };
 } // namespace e_regex::nodes
 
 #endif /* E_REGEX_NODES_COMMON_HPP_*/
diff --git a/src/nodes/greedy.hpp b/src/nodes/greedy.hpp
index 3c26b0c..d2f5844 100644
--- a/src/nodes/greedy.hpp
+++ b/src/nodes/greedy.hpp
@@ -114,123 +114,83 @@ namespace e_regex::nodes
                 possessive<typename matcher::template optimize<>,
                            repetitions_min,
                            repetitions_max,
-                           typename children::template optimize<>...>,
+                           typename children::template optimize<injected_children...>...>,
                 greedy<typename matcher::template optimize<>,
                        repetitions_min,
                        repetitions_max,
-                       typename children::template optimize<>...>>;
-
-            template<typename... injected_children>
-            static constexpr auto __attribute__((always_inline))
-            backtrack(auto& result) -> auto&
-            {
-                if constexpr (sizeof...(children) > 0)
-                {
-                    return dfs<std::tuple<children...>>(result);
-                }
-                else
-                {
-                    auto bak = result.actual_iterator_end;
-
-                    dfs<std::tuple<injected_children...>>(result);
-                    result.actual_iterator_end = bak;
-
-                    return result;
-                }
-            }
+                       typename children::template optimize<injected_children...>...>>;
 
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
                 match(auto& result) -> auto&
             {
-                if constexpr (std::is_same_v<matcher, void>)
-                {
-                    return dfs<std::tuple<children...>>(result);
-                }
-                else if constexpr (repetitions_min == 0
-                                   && repetitions_max == 1
-                                   && matcher::meta.minimum_match_size
-                                          == matcher::meta.maximum_match_size)
-                {
-                    // Optional node with a terminal matcher
-                    matcher::match(result);
+                const auto checkpoint = result;
 
-                    if (!backtrack<injected_children...>(result)
-                        && result.actual_iterator_end
-                               > result.actual_iterator_start)
-                    {
-                        result.actual_iterator_end
-                            -= matcher::meta.minimum_match_size;
-                        backtrack<injected_children...>(result);
-                    }
+                // Iterate while this matcher accepts
+                auto repetitions = iterate(result, repetitions_max);
 
-                    return result;
-                }
-                else
+                while (repetitions >= repetitions_min)
                 {
-                    const auto begin = result.actual_iterator_end;
+                    if (dfs<std::tuple<children...>,
+                            std::tuple<injected_children...>>(result))
+                    {
+                        return result;
+                    }
 
-                    if constexpr (repetitions_min > 0)
+                    if (repetitions == 0)
                     {
-                        for (unsigned i = 0; i < repetitions_min; ++i)
-                        {
-                            if (!matcher::match(result))
-                            {
-                                return result;
-                            }
-                        }
+                        break;
                     }
 
-                    // Iterate while this matcher accepts
-                    auto       repetitions = repetitions_min;
-                    const auto start = result.actual_iterator_end;
+                    // Now backtrack: give the last repetition back
+                    --repetitions;
 
-                    while (repetitions < repetitions_max)
+                    if constexpr (groups_ == 0
+                                  && matcher::meta.minimum_match_size
+                                         == matcher::meta.maximum_match_size)
                     {
-                        if (!matcher::match(result))
-                        {
-                            // Restore last good match
-                            result = true;
-                            break;
-                        }
-
-                        repetitions++;
+                        result.accepted = true;
+                        result.actual_iterator_end
+                            -= matcher::meta.minimum_match_size;
                     }
-
-                    // Now backtrack
-                    while (repetitions > repetitions_min)
+                    else
                     {
-                        if (backtrack<injected_children...>(result))
-                        {
-                            return result;
-                        }
-
-                        for (auto iter = result.actual_iterator_end - 1;
-                             iter >= start;
-                             --iter)
-                        {
-                            result.actual_iterator_end = iter;
-
-                            if (matcher::match(result))
-                            {
-                                result.actual_iterator_end = iter;
-                                break;
-                            }
-                        }
-
-                        --repetitions;
+                        result = checkpoint;
+                        iterate(result, repetitions);
                     }
+                }
 
-                    result = repetitions >= repetitions_min;
+                result          = checkpoint;
+                result.accepted = false;
+
+                return result;
+            }
 
-                    if (result)
+        private:
+            static constexpr auto groups_ = group_getter<matcher>::value;
+
+            static constexpr __attribute__((always_inline)) auto
+                iterate(auto& result, unsigned limit) -> unsigned
+            {
+                for (unsigned i = 0; i < limit; ++i)
+                {
+                    const auto start = result.actual_iterator_end;
+
+                    if (!matcher::match(result))
                     {
-                        return dfs<std::tuple<children...>>(result);
+                        // Restore last good match
+                        result = true;
+                        return i;
                     }
 
-                    result.actual_iterator_end = begin;
-                    return result;
+                    if (result.actual_iterator_end == start)
+                    {
+                        // Every other repetition would be empty too
+                        return std::max(i + 1, repetitions_min);
+                    }
                 }
+
+                return limit;
             }
     };
 } // namespace e_regex::nodes
diff --git a/src/nodes/group.hpp b/src/nodes/group.hpp
index c9493e4..a393520 100644
--- a/src/nodes/group.hpp
+++ b/src/nodes/group.hpp
@@ -10,6 +10,25 @@
 
 namespace e_regex::nodes
 {
+    /**
+     * @brief End of a group, whose start is in its match
+     */
+    template<auto group_index>
+    struct group_end
+    {
+            template<typename... injected_children>
+            static constexpr __attribute__((always_inline)) auto
+                match(auto& result) -> auto&
+            {
+                auto& match = result.match_groups[group_index];
+
+                match = literal_string_view {match.begin(),
+                                             result.actual_iterator_end};
+
+                return follow<injected_children...>(result);
+            }
+    };
+
     template<typename matcher, auto group_index, typename... children>
     struct group
     {
@@ -42,7 +61,7 @@ namespace e_regex::nodes
             using optimize
                 = group<typename matcher::template optimize<children..., injected_children...>,
                         group_index,
-                        typename children::template optimize<>...>;
+                        typename children::template optimize<injected_children...>...>;
 
             static constexpr unsigned groups
                 = group_getter<matcher>::value
@@ -52,20 +71,20 @@ namespace e_regex::nodes
             static constexpr __attribute__((always_inline)) auto
                 match(auto& result) -> auto&
             {
-                auto begin = result.actual_iterator_end;
+                const auto previous = result.match_groups[group_index];
+
+                result.match_groups[group_index]
+                    = literal_string_view {result.actual_iterator_end,
+                                           result.actual_iterator_end};
 
                 // This node's children matter in backtracking
-                matcher::template match<children...>(result);
+                matcher::template match<group_end<group_index>,
+                                        branches<children...>,
+                                        injected_children...>(result);
 
-                if (result)
+                if (!result)
                 {
-                    result.match_groups[group_index]
-                        = literal_string_view {
-                            begin, result.actual_iterator_end};
-
-                    return dfs<std::tuple<children...>,
-                               std::tuple<children..., injected_children...>>(
-                        result);
+                    result.match_groups[group_index] = previous;
                 }
 
                 return result;
diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index 02435a9..d612425 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -91,84 +91,55 @@ namespace e_regex::nodes
                 }
             }();
 
-            // If this node has no intersections with its children,
-            // backtracking is not needed
+            // If this node has no intersections with its children, and
+            // they can't accept an empty string, the first accepted
+            // repetition is the last one
             template<typename... injected_children>
             using optimize = std::conditional_t<
                 admitted_sets_intersection_t<
                     admission_set,
-                    typename extract_admission_set<children..., injected_children...>::type>::empty,
+                    typename extract_admission_set<children..., injected_children...>::type>::empty
+                    && (min(children::meta.minimum_match_size...)
+                            + sum(injected_children::meta.minimum_match_size...)
+                        > 0),
                 possessive<typename matcher::template optimize<>,
                            repetitions_min,
                            repetitions_max,
-                           typename children::template optimize<>...>,
+                           typename children::template optimize<injected_children...>...>,
                 lazy<typename matcher::template optimize<>,
                      repetitions_min,
                      repetitions_max,
-                     typename children::template optimize<>...>>;
+                     typename children::template optimize<injected_children...>...>>;
 
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
                 match(auto& result) -> auto&
             {
-                auto start = result.actual_iterator_end;
+                const auto checkpoint = result;
 
-                if constexpr (std::is_same_v<matcher, void>)
+                for (unsigned i = 0;; ++i)
                 {
-                    return dfs<std::tuple<children...>>(result);
-                }
-                else
-                {
-                    if constexpr (repetitions_min != 0)
+                    if (i >= repetitions_min
+                        && dfs<std::tuple<children...>,
+                               std::tuple<injected_children...>>(result))
                     {
-                        for (unsigned i = 0; i < repetitions_min; ++i)
-                        {
-                            if (!matcher::match(result))
-                            {
-                                return result;
-                            }
-                        }
+                        return result;
                     }
 
-                    unsigned matches = repetitions_min;
+                    const auto start = result.actual_iterator_end;
+                    result.accepted  = true;
 
-                    while (result.actual_iterator_end < result.query.end()
-                           && matches < repetitions_max)
+                    // After repetitions_min, an empty repetition can't
+                    // change what follows
+                    if (i >= repetitions_max || !matcher::match(result)
+                        || (i >= repetitions_min
+                            && result.actual_iterator_end == start))
                     {
-                        if constexpr (sizeof...(children) > 0)
-                        {
-                            dfs<std::tuple<children...>>(result);
+                        result          = checkpoint;
+                        result.accepted = false;
 
-                            if (result)
-                            {
-                                return result;
-                            }
-                        }
-                        else
-                        {
-                            auto bak = result.actual_iterator_end;
-                            dfs<std::tuple<injected_children...>>(result);
-                            result.actual_iterator_end = bak;
-                        }
-
-                        if (!result)
-                        {
-                            matcher::match(result);
-                            matches++;
-
-                            if (!result)
-                            {
-                                result.actual_iterator_end = start;
-                                return result;
-                            }
-                        }
-                        else
-                        {
-                            break;
-                        }
+                        return result;
                     }
-
-                    return dfs<std::tuple<children...>>(result);
                 }
             }
     };
diff --git a/src/nodes/negated.hpp b/src/nodes/negated.hpp
index 7bb00fd..7694a07 100644
--- a/src/nodes/negated.hpp
+++ b/src/nodes/negated.hpp
@@ -47,6 +47,11 @@ namespace e_regex::nodes
                 if (result)
                 {
                     result.actual_iterator_end++;
+
+                    if (!follow<injected_children...>(result))
+                    {
+                        result.actual_iterator_end = start;
+                    }
                 }
 
                 return result;
diff --git a/src/nodes/possessive.hpp b/src/nodes/possessive.hpp
index 7a25263..e3ae059 100644
--- a/src/nodes/possessive.hpp
+++ b/src/nodes/possessive.hpp
@@ -95,37 +95,42 @@ namespace e_regex::nodes
                 = possessive<typename matcher::template optimize<>,
                              repetitions_min,
                              repetitions_max,
-                             typename children::template optimize<>...>;
+                             typename children::template optimize<injected_children...>...>;
 
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
                 match(auto& result) -> auto&
             {
-	      auto end = result.actual_iterator_end;
+                const auto checkpoint = result;
 
                 for (unsigned i = 0; i < repetitions_max; ++i)
                 {
-                    matcher::template match<injected_children...>(result);
+                    const auto start = result.actual_iterator_end;
 
-                    if (!result)
+                    if (!matcher::match(result))
                     {
-                        if (i < repetitions_min)
-                        {
-                            // Failed too early
-                            return result;
-                        }
-
-                        // Failed but repetitions_min was satisfied,
-                        // run dfs
-                        result.accepted = true;
-			result.actual_iterator_end = end;
+                        // Failed, but that is fine if repetitions_min
+                        // was satisfied
+                        result.accepted = i >= repetitions_min;
                         break;
                     }
 
-		  end = result.actual_iterator_end;
+                    if (result.actual_iterator_end == start)
+                    {
+                        // Every other repetition would be empty too
+                        break;
+                    }
+                }
+
+                if (!result
+                    || !dfs<std::tuple<children...>,
+                            std::tuple<injected_children...>>(result))
+                {
+                    result          = checkpoint;
+                    result.accepted = false;
                 }
 
-                return dfs<std::tuple<children...>>(result);
+                return result;
             }
     };
 
diff --git a/src/nodes/repeated.hpp b/src/nodes/repeated.hpp
index 8d14a27..eee8cce 100644
--- a/src/nodes/repeated.hpp
+++ b/src/nodes/repeated.hpp
@@ -52,21 +52,26 @@ namespace e_regex::nodes
             using optimize
                 = repeated<typename matcher::template optimize<>,
                            repetitions,
-                           typename children::template optimize<>...>;
+                           typename children::template optimize<injected_children...>...>;
 
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
                 match(auto& res) -> auto&
             {
-                for (unsigned i = 0; i < repetitions; ++i)
+                const auto checkpoint = res;
+
+                for (unsigned i = 0; i < repetitions && matcher::match(res); ++i)
+                {}
+
+                if (!res
+                    || !dfs<std::tuple<children...>,
+                            std::tuple<injected_children...>>(res))
                 {
-                    if (!matcher::match(res))
-                    {
-                        return res;
-                    }
+                    res          = checkpoint;
+                    res.accepted = false;
                 }
 
-                return dfs<std::tuple<children...>>(res);
+                return res;
             }
     };
 } // namespace e_regex::nodes
diff --git a/src/terminals/anchors/end.hpp b/src/terminals/anchors/end.hpp
index ccf5171..3056eb8 100644
--- a/src/terminals/anchors/end.hpp
+++ b/src/terminals/anchors/end.hpp
@@ -1,6 +1,7 @@
 #ifndef E_REGEX_TERMINALS_ANCHORS_END_HPP_
 #define E_REGEX_TERMINALS_ANCHORS_END_HPP_
 
+#include "nodes/common.hpp"
 #include "nodes/meta.hpp"
 #include "terminals/common.hpp"
 
@@ -30,6 +31,8 @@ namespace e_regex::terminals::anchors
                     return result;
                 }
 
+                const auto start = result.actual_iterator_end;
+
                 result
                     = (result.actual_iterator_end == result.query.end())
                       || *result.actual_iterator_end == '\n';
@@ -40,6 +43,11 @@ namespace e_regex::terminals::anchors
                     result.actual_iterator_end++;
                 }
 
+                if (result && !nodes::follow<injected_children...>(result))
+                {
+                    result.actual_iterator_end = start;
+                }
+
                 return result;
             }
     };
diff --git a/src/terminals/anchors/start.hpp b/src/terminals/anchors/start.hpp
index e58799b..646e672 100644
--- a/src/terminals/anchors/start.hpp
+++ b/src/terminals/anchors/start.hpp
@@ -1,6 +1,7 @@
 #ifndef E_REGEX_TERMINALS_ANCHORS_START_HPP_
 #define E_REGEX_TERMINALS_ANCHORS_START_HPP_
 
+#include "nodes/common.hpp"
 #include "nodes/meta.hpp"
 #include "terminals/common.hpp"
 
@@ -33,6 +34,11 @@ namespace e_regex::terminals::anchors
                 result = (result.actual_iterator_end
                           == result.query.begin());
 
+                if (result)
+                {
+                    nodes::follow<injected_children...>(result);
+                }
+
                 return result;
             }
     };
diff --git a/src/terminals/common.hpp b/src/terminals/common.hpp
index 100bb29..ba660e4 100644
--- a/src/terminals/common.hpp
+++ b/src/terminals/common.hpp
@@ -1,6 +1,7 @@
 #ifndef E_REGEX_TERMINALS_COMMON_HPP_
 #define E_REGEX_TERMINALS_COMMON_HPP_
 
+#include "nodes/common.hpp"
 #include "nodes/meta.hpp"
 #include "utilities/admitted_set.hpp"
 #include "utilities/static_string.hpp"
@@ -19,7 +20,6 @@ namespace e_regex::terminals
                 .maximum_match_size = 1,
             };
 
-            // Template used only for compatibility with nodes
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
                 match(auto& result) -> auto&
@@ -30,7 +30,15 @@ namespace e_regex::terminals
                     return result;
                 }
 
-                return terminal::match_(result);
+                const auto start = result.actual_iterator_end;
+
+                if (terminal::match_(result)
+                    && !nodes::follow<injected_children...>(result))
+                {
+                    result.actual_iterator_end = start;
+                }
+
+                return result;
             }
     };
 
-- 
2.43.0


From 0a91f350885f420a355e296b47f139f5b30136e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 12/25] fix: ^ matches at the start of a line and on empty
 input, and anchors the whole of a token's regex

---
 src/terminals/anchors/start.hpp | 11 +++--------
 src/tokenization/iterator.hpp   | 20 ++++++++++++++++----
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/terminals/anchors/start.hpp b/src/terminals/anchors/start.hpp
index 646e672..7218d8f 100644
--- a/src/terminals/anchors/start.hpp
+++ b/src/terminals/anchors/start.hpp
@@ -25,14 +25,9 @@ namespace e_regex::terminals::anchors
             static constexpr __attribute__((always_inline)) auto
                 match(auto& result) -> auto&
             {
-                if (result.actual_iterator_end >= result.query.end())
-                {
-                    result.accepted = false;
-                    return result;
-                }
-
-                result = (result.actual_iterator_end
-                          == result.query.begin());
+                // Start of input or start of line
+                result = result.actual_iterator_end == result.query.begin()
+                         || *(result.actual_iterator_end - 1) == '\n';
 
                 if (result)
                 {
diff --git a/src/tokenization/iterator.hpp b/src/tokenization/iterator.hpp
index fb16900..5d557b1 100644
--- a/src/tokenization/iterator.hpp
+++ b/src/tokenization/iterator.hpp
@@ -40,7 +40,7 @@ namespace e_regex::tokenization
                         token.type,
                         // Adding ^ to alway match the beginning of
                         // current
-                        e_regex::regex<static_string {"^"} + token.matcher> {}}),
+                        e_regex::regex<static_string {"^(?:"} + token.matcher + ')'> {}}),
                     rec::tokens);
                 static constexpr auto separators = rec::separators;
         };
@@ -53,7 +53,7 @@ namespace e_regex::tokenization
                 static constexpr auto tokens     = rec::tokens;
                 static constexpr auto separators = std::tuple_cat(
                     std::make_tuple(
-                        e_regex::regex<static_string {"^"} + token.matcher> {}),
+                        e_regex::regex<static_string {"^(?:"} + token.matcher + ')'> {}),
                     rec::separators);
         };
 
@@ -98,11 +98,23 @@ namespace e_regex::tokenization
             token_t               last_match;
             bool                  valid = true;
 
+            // What regex matches at the beginning of current
+            [[nodiscard]] constexpr auto match_beginning(auto regex) const
+                -> literal_string_view<>
+            {
+                literal_string_view<> match = regex(current).to_view();
+
+                // ^ accepts the beginning of any line
+                return match.begin() == current.begin()
+                           ? match
+                           : literal_string_view<> {};
+            }
+
             [[nodiscard]] constexpr auto match_separator() -> bool
             {
                 auto matches = std::apply(
                     [this](auto... regex) {
-                        return std::array {regex(current).to_view()...};
+                        return std::array {match_beginning(regex)...};
                     },
                     data::separators);
 
@@ -129,7 +141,7 @@ namespace e_regex::tokenization
                 auto matches = std::apply(
                     [this](auto... token) {
                         return std::array {token_t {
-                            .value = token.matcher(current).to_view(),
+                            .value = match_beginning(token.matcher),
                             .type  = token.type}...};
                     },
                     data::tokens);
-- 
2.43.0


From 4ffe0126d09a5b4703e59cfe3d07c784270525f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 13/25] fix: size() and the conversion to std::string_view
 compile

---
 src/match_result.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/match_result.hpp b/src/match_result.hpp
index f6b99c4..2c19534 100644
--- a/src/match_result.hpp
+++ b/src/match_result.hpp
@@ -146,6 +146,12 @@ namespace e_regex
                                          data.actual_iterator_end};
             }
 
+            constexpr __attribute__((always_inline))
+            operator std::string_view() const noexcept
+            {
+                return to_view();
+            }
+
             constexpr __attribute__((always_inline))
             operator literal_string_view<Char_Type>() const noexcept
             {
@@ -154,7 +160,7 @@ namespace e_regex
 
             constexpr __attribute__((always_inline)) auto size() const noexcept
             {
-                return data.matches;
+                return groups_;
             }
 
             static __attribute__((always_inline)) constexpr auto groups() noexcept
-- 
2.43.0


From 786670aaeb850bb24c07dbdf30f0ab27decfa0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 14/25] fix: get_expression escapes, delimits and negates so
 that it describes the same regex

---
 src/nodes/basic.hpp                     |  8 +++--
 src/nodes/get_expression.hpp            | 32 +++++++++++++++++-
 src/nodes/greedy.hpp                    |  2 +-
 src/nodes/lazy.hpp                      |  2 +-
 src/nodes/negated.hpp                   | 45 +++++++++++++++++++++++--
 src/nodes/possessive.hpp                |  2 +-
 src/nodes/repeated.hpp                  |  2 +-
 src/terminals/common.hpp                |  2 ++
 src/terminals/escaped.hpp               |  5 +--
 src/terminals/exact_matcher.hpp         | 31 +++++++++++++++--
 src/terminals/range.hpp                 |  6 +++-
 src/utilities/number_to_pack_string.hpp |  5 +--
 12 files changed, 123 insertions(+), 19 deletions(-)

diff --git a/src/nodes/basic.hpp b/src/nodes/basic.hpp
index 882c398..2860719 100644
--- a/src/nodes/basic.hpp
+++ b/src/nodes/basic.hpp
@@ -33,12 +33,12 @@ namespace e_regex::nodes
             static constexpr auto expression = []() {
                 if constexpr (sizeof...(children) <= 1)
                 {
-                    return matcher::expression
+                    return get_atom_expression<matcher>()
                            + get_children_expression<children...>();
                 }
                 else
                 {
-                    return matcher::expression + "(?:"
+                    return get_atom_expression<matcher>() + "(?:"
                            + get_children_expression<children...>()
                            + ')';
                 }
@@ -76,8 +76,10 @@ namespace e_regex::nodes
     template<typename... children>
     struct simple<void, children...> : public base<void, children...>
     {
+            static constexpr auto atom = true;
+
             static constexpr auto expression
-                = get_children_expression<children...>();
+                = "(?:" + get_children_expression<children...>() + ')';
 
             using admission_set =
                 typename extract_admission_set<children...>::type;
diff --git a/src/nodes/get_expression.hpp b/src/nodes/get_expression.hpp
index aa4e3b9..b8755ca 100644
--- a/src/nodes/get_expression.hpp
+++ b/src/nodes/get_expression.hpp
@@ -7,6 +7,26 @@
 
 namespace e_regex::nodes
 {
+    template<typename node>
+    concept is_atom = requires { node::atom; };
+
+    /**
+     * @brief Expression of a node, that can be quantified or followed
+     * by other expressions
+     */
+    template<typename node>
+    constexpr __attribute__((always_inline)) auto get_atom_expression()
+    {
+        if constexpr (is_atom<node>)
+        {
+            return node::expression;
+        }
+        else
+        {
+            return "(?:" + node::expression + ')';
+        }
+    }
+
     template<typename... children>
     constexpr __attribute__((always_inline)) auto get_children_expression()
     {
@@ -16,7 +36,17 @@ namespace e_regex::nodes
         }
         else if constexpr (sizeof...(children) == 1)
         {
-            return std::tuple_element_t<0, std::tuple<children...>>::expression;
+            using child = std::tuple_element_t<0, std::tuple<children...>>;
+
+            if constexpr (child::expression.to_view().starts_with('^'))
+            {
+                // Not the beginning anymore
+                return "(?:" + child::expression + ')';
+            }
+            else
+            {
+                return child::expression;
+            }
         }
         else
         {
diff --git a/src/nodes/greedy.hpp b/src/nodes/greedy.hpp
index d2f5844..152ecf3 100644
--- a/src/nodes/greedy.hpp
+++ b/src/nodes/greedy.hpp
@@ -89,7 +89,7 @@ namespace e_regex::nodes
                     }
                 }();
 
-                auto self = matcher::expression;
+                auto self = get_atom_expression<matcher>();
 
                 if constexpr (sizeof...(children) <= 1)
                 {
diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index d612425..b59748e 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -76,7 +76,7 @@ namespace e_regex::nodes
                     }
                 }();
 
-                auto self = matcher::expression;
+                auto self = get_atom_expression<matcher>();
 
                 if constexpr (sizeof...(children) <= 1)
                 {
diff --git a/src/nodes/negated.hpp b/src/nodes/negated.hpp
index 7694a07..c8da06f 100644
--- a/src/nodes/negated.hpp
+++ b/src/nodes/negated.hpp
@@ -9,11 +9,53 @@
 
 namespace e_regex::nodes
 {
+    /**
+     * @brief Expression of a matcher, inside square brackets
+     */
+    template<typename matcher>
+    struct set_expression
+    {
+            static constexpr auto value = []() {
+                constexpr auto view = matcher::expression.to_view();
+
+                if constexpr (view.starts_with('['))
+                {
+                    return matcher::expression
+                        .template substring<1, view.size() - 1>();
+                }
+                else if constexpr (view == "-")
+                {
+                    return '\\' + matcher::expression;
+                }
+                else
+                {
+                    return matcher::expression;
+                }
+            }();
+    };
+
+    template<typename... children>
+    struct set_expression<simple<void, children...>>
+    {
+            static constexpr auto value
+                = (static_string {""} + ... + set_expression<children>::value);
+    };
+
+    template<typename child>
+    struct set_expression<simple<child>> : public set_expression<child>
+    {};
+
+    template<typename child>
+    struct set_expression<simple<void, child>> : public set_expression<child>
+    {};
+
     template<typename matcher>
     struct negated_node : public base<matcher>
     {
+            static constexpr auto atom = true;
+
             static constexpr auto expression
-                = "[^" + matcher::expression + "]";
+                = "[^" + set_expression<matcher>::value + "]";
 
             using admission_set = admitted_set_complement_t<
                 typename extract_admission_set<matcher>::type>;
@@ -58,7 +100,6 @@ namespace e_regex::nodes
             }
     };
 
-    // TODO missing get_expression
 } // namespace e_regex::nodes
 
 #endif /* E_REGEX_NODES_NEGATED_HPP_*/
diff --git a/src/nodes/possessive.hpp b/src/nodes/possessive.hpp
index e3ae059..984c36f 100644
--- a/src/nodes/possessive.hpp
+++ b/src/nodes/possessive.hpp
@@ -75,7 +75,7 @@ namespace e_regex::nodes
                     }
                 }();
 
-                auto self = matcher::expression;
+                auto self = get_atom_expression<matcher>();
 
                 if constexpr (sizeof...(children) <= 1)
                 {
diff --git a/src/nodes/repeated.hpp b/src/nodes/repeated.hpp
index eee8cce..8d0b3ad 100644
--- a/src/nodes/repeated.hpp
+++ b/src/nodes/repeated.hpp
@@ -32,7 +32,7 @@ namespace e_regex::nodes
             };
 
             static constexpr auto expression = []() {
-                auto self = matcher::expression + '{'
+                auto self = get_atom_expression<matcher>() + '{'
                             + number_to_pack_string_t<repetitions>::string
                             + '}';
 
diff --git a/src/terminals/common.hpp b/src/terminals/common.hpp
index ba660e4..b18d63b 100644
--- a/src/terminals/common.hpp
+++ b/src/terminals/common.hpp
@@ -11,6 +11,8 @@ namespace e_regex::terminals
     template<typename terminal, typename admission_set>
     struct terminal_common
     {
+            static constexpr auto atom = true;
+
             template<typename... injected_children>
             using optimize = terminal;
 
diff --git a/src/terminals/escaped.hpp b/src/terminals/escaped.hpp
index 36918a6..16072db 100644
--- a/src/terminals/escaped.hpp
+++ b/src/terminals/escaped.hpp
@@ -9,10 +9,7 @@ namespace e_regex::terminals
     template<char identifier>
     struct terminal<pack_string<'\\', identifier>>
         : public exact_matcher<pack_string<identifier>>
-    {
-            static constexpr auto expression
-                = pack_string<'\\', identifier>::string;
-    };
+    {};
 } // namespace e_regex::terminals
 
 #endif /* E_REGEX_NODES_TERMINALS_ESCAPED_HPP_*/
diff --git a/src/terminals/exact_matcher.hpp b/src/terminals/exact_matcher.hpp
index 7b4726f..8921816 100644
--- a/src/terminals/exact_matcher.hpp
+++ b/src/terminals/exact_matcher.hpp
@@ -1,12 +1,28 @@
 #ifndef E_REGEX_TERMINALS_EXACT_MATCHER_HPP_
 #define E_REGEX_TERMINALS_EXACT_MATCHER_HPP_
 
+#include <string_view>
+
 #include "common.hpp"
 #include "utilities/admitted_set.hpp"
 #include "utilities/static_string.hpp"
 
 namespace e_regex::terminals
 {
+    template<char identifier>
+    consteval auto escape()
+    {
+        if constexpr (std::string_view {"\\^$.|?*+()[]{}"}.find(identifier)
+                      != std::string_view::npos)
+        {
+            return pack_string<'\\', identifier>::string;
+        }
+        else
+        {
+            return pack_string<identifier>::string;
+        }
+    }
+
     template<typename identifier>
     struct exact_matcher;
 
@@ -16,8 +32,19 @@ namespace e_regex::terminals
               exact_matcher<pack_string<identifier, identifiers...>>,
               admitted_set<char, identifier, identifiers...>>
     {
-            static constexpr auto expression
-                = pack_string<identifier, identifiers...>::string;
+            static constexpr auto expression = []() {
+                if constexpr (sizeof...(identifiers) == 0)
+                {
+                    return escape<identifier>();
+                }
+                else
+                {
+                    return "(?:"
+                           + (escape<identifier>() + ...
+                              + escape<identifiers>())
+                           + ')';
+                }
+            }();
 
             static constexpr auto meta
                 = e_regex::meta<admitted_set<char, identifier, identifiers...>> {
diff --git a/src/terminals/range.hpp b/src/terminals/range.hpp
index 4314cde..ce42882 100644
--- a/src/terminals/range.hpp
+++ b/src/terminals/range.hpp
@@ -16,7 +16,11 @@ namespace e_regex::terminals
               admitted_set_range_t<char, start, end>>
     {
             static constexpr auto expression
-                = pack_string<'[', start, '-', end, ']'>::string;
+                = std::conditional_t<
+                    start == '^',
+                    // Not a negation
+                    pack_string<'[', end, start, '-', end, ']'>,
+                    pack_string<'[', start, '-', end, ']'>>::string;
 
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
diff --git a/src/utilities/number_to_pack_string.hpp b/src/utilities/number_to_pack_string.hpp
index 4c964b6..7a3581a 100644
--- a/src/utilities/number_to_pack_string.hpp
+++ b/src/utilities/number_to_pack_string.hpp
@@ -35,8 +35,9 @@ namespace e_regex
                                                pack_string<(current_unit + '0'), current...>>::type;
     };
 
-    template<>
-    struct number_to_pack_string<0, pack_string<>>
+    template<auto number>
+        requires(!nonzero(number))
+    struct number_to_pack_string<number, pack_string<>>
     {
             using type = pack_string<'0'>;
     };
-- 
2.43.0


From e86319311a056358907bf03356699de355aeafd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 15/25] fix: get<n>() and decomposition compile when the regex
 is a single terminal

---
 src/match_result.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/match_result.hpp b/src/match_result.hpp
index 2c19534..376b2af 100644
--- a/src/match_result.hpp
+++ b/src/match_result.hpp
@@ -111,7 +111,7 @@ namespace e_regex
             constexpr __attribute__((always_inline)) auto get() const noexcept
             {
                 static_assert(
-                    index <= matcher::groups,
+                    index <= groups_,
                     "Group index is greater than the number of groups.");
 
                 return get_group(index);
@@ -243,7 +243,7 @@ namespace std
     template<typename matcher>
     struct tuple_size<e_regex::match_result<matcher>>
     {
-            static const unsigned value = matcher::groups + 1;
+            static const unsigned value = e_regex::nodes::group_getter<matcher>::value + 1;
     };
 
     template<std::size_t N, typename matcher, typename Char_Type>
-- 
2.43.0


From f8f78933c1fcac4aef2a377324171c426194fe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 16/25] fix: results of an optional group are usable in
 constant expressions

---
 src/match_result.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/match_result.hpp b/src/match_result.hpp
index 376b2af..0631711 100644
--- a/src/match_result.hpp
+++ b/src/match_result.hpp
@@ -208,7 +208,7 @@ namespace e_regex
                     // Every attempt starts afresh
                     data.actual_iterator_start = from;
                     data.actual_iterator_end   = from;
-                    data.match_groups          = {};
+                    data.match_groups.fill({});
                     data.accepted              = true;
 
                     if (matcher::match(data))
@@ -229,7 +229,7 @@ namespace e_regex
             {
                 data.actual_iterator_start = data.query.end();
                 data.actual_iterator_end   = data.query.end();
-                data.match_groups          = {};
+                data.match_groups.fill({});
                 data.accepted              = false;
 
                 return false;
-- 
2.43.0


From 5e6ff66c9c899f9c9525c83fceafdc7449c9b86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:10 +0000
Subject: [PATCH 17/25] fix: accept tokenizers without separators

---
 src/tokenization/iterator.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tokenization/iterator.hpp b/src/tokenization/iterator.hpp
index 5d557b1..eac56b5 100644
--- a/src/tokenization/iterator.hpp
+++ b/src/tokenization/iterator.hpp
@@ -114,7 +114,9 @@ namespace e_regex::tokenization
             {
                 auto matches = std::apply(
                     [this](auto... regex) {
-                        return std::array {match_beginning(regex)...};
+                        // Separators can be missing
+                        return std::array<literal_string_view<>, sizeof...(regex)> {
+                            match_beginning(regex)...};
                     },
                     data::separators);
 
@@ -126,7 +128,7 @@ namespace e_regex::tokenization
                         return first.size() < second.size();
                     });
 
-                if (best_match->size() > 0)
+                if (best_match != matches.end() && best_match->size() > 0)
                 {
                     current = literal_string_view<> {
                         best_match->end(), current.end()};
-- 
2.43.0


From b982296fc21b001377f86170b4c1fa414ffbc686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:13 +0000
Subject: [PATCH 18/25] fix: matching and inspecting are noexcept, as
 documented

---
 src/regex.hpp                         | 10 +++++-----
 src/utilities/literal_string_view.hpp |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/regex.hpp b/src/regex.hpp
index a8282a0..f78abb9 100644
--- a/src/regex.hpp
+++ b/src/regex.hpp
@@ -38,26 +38,26 @@ namespace e_regex
                 typename tree_builder<build_pack_string_t<expression>>::tree>::type;
 
             static constexpr __attribute__((always_inline)) auto
-                match(literal_string_view<> data)
+                match(literal_string_view<> data) noexcept
             {
                 return match_result<ast> {data};
             }
 
             constexpr __attribute__((always_inline)) auto
-                operator()(literal_string_view<> data) const
+                operator()(literal_string_view<> data) const noexcept
             {
                 return match(data);
             }
 
             static __attribute__((always_inline)) constexpr auto
-                get_expression()
+                get_expression() noexcept
             {
                 return ast::expression.to_view();
             }
 
             template<typename other>
             static constexpr __attribute__((always_inline)) auto
-                is_independent() -> bool
+                is_independent() noexcept -> bool
             {
                 using intersection = admitted_sets_intersection_t<
                     typename nodes::extract_admission_set<ast>::type,
@@ -68,7 +68,7 @@ namespace e_regex
 
             template<typename T>
             static constexpr __attribute__((always_inline)) auto
-                is_independent(T /*other*/) -> bool
+                is_independent(T /*other*/) noexcept -> bool
             {
                 return is_independent<T>();
             }
diff --git a/src/utilities/literal_string_view.hpp b/src/utilities/literal_string_view.hpp
index 4b71b8b..ce9546c 100644
--- a/src/utilities/literal_string_view.hpp
+++ b/src/utilities/literal_string_view.hpp
@@ -14,12 +14,12 @@ namespace e_regex
             iterator begin_;
             iterator end_;
 
-            constexpr __attribute__((always_inline)) literal_string_view()
+            constexpr __attribute__((always_inline)) literal_string_view() noexcept
                 : begin_ {nullptr}, end_ {nullptr}
             {}
 
             constexpr __attribute__((always_inline))
-            literal_string_view(iterator begin_, iterator end_)
+            literal_string_view(iterator begin_, iterator end_) noexcept
                 : begin_ {begin_}, end_ {end_}
             {}
 
@@ -30,7 +30,7 @@ namespace e_regex
             {}
 
             constexpr __attribute__((always_inline))
-            literal_string_view(std::string_view data)
+            literal_string_view(std::string_view data) noexcept
                 : begin_ {data.begin()}, end_ {data.end()}
             {}
 
-- 
2.43.0


From 41fffb238e4a5a33e61d363f28faeeb8ae6e33d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:24 +0000
Subject: [PATCH 19/25] fix: lazy quantifiers whose minimum is 0 become
 possessive, as documented

---
 src/nodes/lazy.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index b59748e..a1e6d5d 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -17,13 +17,16 @@ namespace e_regex::nodes
              typename... children>
     struct lazy : public base<matcher, children...>
     {
+            using self_admission_set =
+                typename decltype(matcher::meta)::admission_set;
+
             // If matcher is optional (aka repetitions_min==0 or it
             // accepts an empty string), admission set must include
             // children too
             using admission_set = std::conditional_t<
                 matcher::meta.minimum_match_size * repetitions_min == 0,
                 typename extract_admission_set<matcher, children...>::type,
-                typename decltype(matcher::meta)::admission_set>;
+                self_admission_set>;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::LAZY,
@@ -97,7 +100,7 @@ namespace e_regex::nodes
             template<typename... injected_children>
             using optimize = std::conditional_t<
                 admitted_sets_intersection_t<
-                    admission_set,
+                    self_admission_set,
                     typename extract_admission_set<children..., injected_children...>::type>::empty
                     && (min(children::meta.minimum_match_size...)
                             + sum(injected_children::meta.minimum_match_size...)
-- 
2.43.0


From ce5e2c8536d53e4fc23e74af01ec11a4f233933f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:25 +0000
Subject: [PATCH 20/25] fix: saturate numbers that do not fit in quantifiers,
 instead of wrapping them

---
 src/utilities/pack_string_to_number.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/utilities/pack_string_to_number.hpp b/src/utilities/pack_string_to_number.hpp
index 5273fca..791e7dd 100644
--- a/src/utilities/pack_string_to_number.hpp
+++ b/src/utilities/pack_string_to_number.hpp
@@ -1,6 +1,7 @@
 #ifndef E_REGEX_UTILITIES_PACK_STRING_TO_NUMBER_HPP_
 #define E_REGEX_UTILITIES_PACK_STRING_TO_NUMBER_HPP_
 
+#include "math.hpp"
 #include "static_string.hpp"
 
 namespace e_regex
@@ -11,21 +12,23 @@ namespace e_regex
     template<char head, char... tail, unsigned index>
     struct pack_string_to_number<pack_string<head, tail...>, index>
     {
+            // A number that does not fit saturates
             static consteval auto ten_power(unsigned exp) -> unsigned
             {
                 unsigned res = 1;
 
                 while (exp-- != 0)
                 {
-                    res *= 10;
+                    res = saturated_product(res, 10);
                 }
 
                 return res;
             }
 
             static inline const constinit unsigned value
-                = ((head - '0') * ten_power(index))
-                  + pack_string_to_number<pack_string<tail...>, index - 1>::value;
+                = saturated_sum(
+                    saturated_product(head - '0', ten_power(index)),
+                    pack_string_to_number<pack_string<tail...>, index - 1>::value);
     };
 
     template<unsigned index>
-- 
2.43.0


From 60562e6c95febc93979e6a24a210be873abd7ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:25 +0000
Subject: [PATCH 21/25] fix: end a repetition of something empty before its
 minimum, as many times it can be

---
 src/nodes/lazy.hpp     |  6 ++++++
 src/nodes/repeated.hpp | 13 +++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index a1e6d5d..307c3d2 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -143,6 +143,12 @@ namespace e_regex::nodes
 
                         return result;
                     }
+
+                    if (result.actual_iterator_end == start)
+                    {
+                        // Every other repetition would be empty too
+                        i = repetitions_min - 1;
+                    }
                 }
             }
     };
diff --git a/src/nodes/repeated.hpp b/src/nodes/repeated.hpp
index 8d0b3ad..780f8c7 100644
--- a/src/nodes/repeated.hpp
+++ b/src/nodes/repeated.hpp
@@ -60,8 +60,17 @@ namespace e_regex::nodes
             {
                 const auto checkpoint = res;
 
-                for (unsigned i = 0; i < repetitions && matcher::match(res); ++i)
-                {}
+                for (unsigned i = 0; i < repetitions; ++i)
+                {
+                    const auto start = res.actual_iterator_end;
+
+                    if (!matcher::match(res) || res.actual_iterator_end == start)
+                    {
+                        // Failed, or every other repetition would be
+                        // empty too
+                        break;
+                    }
+                }
 
                 if (!res
                     || !dfs<std::tuple<children...>,
-- 
2.43.0


From 89c04aefa3c399299ebf3d71be502f94bcb83611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:25 +0000
Subject: [PATCH 22/25] fix: saturate minimum sizes too, whose wrapped value
 made first characters wrong

---
 src/nodes/basic.hpp      | 4 ++--
 src/nodes/greedy.hpp     | 8 +++++---
 src/nodes/group.hpp      | 4 ++--
 src/nodes/lazy.hpp       | 8 +++++---
 src/nodes/possessive.hpp | 8 +++++---
 src/nodes/repeated.hpp   | 8 +++++---
 6 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/nodes/basic.hpp b/src/nodes/basic.hpp
index 2860719..d9bddf5 100644
--- a/src/nodes/basic.hpp
+++ b/src/nodes/basic.hpp
@@ -52,8 +52,8 @@ namespace e_regex::nodes
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = policy::NONE,
                 .minimum_match_size
-                = matcher::meta.minimum_match_size
-                  + min(children::meta.minimum_match_size...),
+                = saturated_sum(matcher::meta.minimum_match_size,
+                                min(children::meta.minimum_match_size...)),
                 .maximum_match_size
                 = saturated_sum(matcher::meta.maximum_match_size,
                                 max(children::meta.maximum_match_size...)),
diff --git a/src/nodes/greedy.hpp b/src/nodes/greedy.hpp
index 152ecf3..9c7637b 100644
--- a/src/nodes/greedy.hpp
+++ b/src/nodes/greedy.hpp
@@ -30,15 +30,17 @@ namespace e_regex::nodes
             // accepts an empty string), admission set must include
             // children too
             using admission_set = std::conditional_t<
-                matcher::meta.minimum_match_size * repetitions_min == 0,
+                matcher::meta.minimum_match_size == 0 || repetitions_min == 0,
                 typename extract_admission_set<matcher, children...>::type,
                 self_admission_set>;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::GREEDY,
                 .minimum_match_size
-                = matcher::meta.minimum_match_size * repetitions_min
-                  + min(children::meta.minimum_match_size...),
+                = saturated_sum(
+                    saturated_product(matcher::meta.minimum_match_size,
+                                      repetitions_min),
+                    min(children::meta.minimum_match_size...)),
                 .maximum_match_size
                 = repetitions_max == std::numeric_limits<unsigned>::max()
                       ? std::numeric_limits<unsigned>::max()
diff --git a/src/nodes/group.hpp b/src/nodes/group.hpp
index a393520..7c8dac9 100644
--- a/src/nodes/group.hpp
+++ b/src/nodes/group.hpp
@@ -46,8 +46,8 @@ namespace e_regex::nodes
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::NONE,
                 .minimum_match_size
-                = matcher::meta.minimum_match_size
-                  + min(children::meta.minimum_match_size...),
+                = saturated_sum(matcher::meta.minimum_match_size,
+                                min(children::meta.minimum_match_size...)),
                 .maximum_match_size
                 = saturated_sum(matcher::meta.maximum_match_size,
                                 max(children::meta.maximum_match_size...))};
diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index 307c3d2..6f985b5 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -24,15 +24,17 @@ namespace e_regex::nodes
             // accepts an empty string), admission set must include
             // children too
             using admission_set = std::conditional_t<
-                matcher::meta.minimum_match_size * repetitions_min == 0,
+                matcher::meta.minimum_match_size == 0 || repetitions_min == 0,
                 typename extract_admission_set<matcher, children...>::type,
                 self_admission_set>;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::LAZY,
                 .minimum_match_size
-                = matcher::meta.minimum_match_size * repetitions_min
-                  + min(children::meta.minimum_match_size...),
+                = saturated_sum(
+                    saturated_product(matcher::meta.minimum_match_size,
+                                      repetitions_min),
+                    min(children::meta.minimum_match_size...)),
                 .maximum_match_size
                 = repetitions_max == std::numeric_limits<unsigned>::max()
                       ? std::numeric_limits<unsigned>::max()
diff --git a/src/nodes/possessive.hpp b/src/nodes/possessive.hpp
index 984c36f..270b2d6 100644
--- a/src/nodes/possessive.hpp
+++ b/src/nodes/possessive.hpp
@@ -20,15 +20,17 @@ namespace e_regex::nodes
             // accepts an empty string), admission set must include
             // children too
             using admission_set = std::conditional_t<
-                matcher::meta.minimum_match_size * repetitions_min == 0,
+                matcher::meta.minimum_match_size == 0 || repetitions_min == 0,
                 typename extract_admission_set<matcher, children...>::type,
                 typename decltype(matcher::meta)::admission_set>;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::POSSESSIVE,
                 .minimum_match_size
-                = matcher::meta.minimum_match_size * repetitions_min
-                  + min(children::meta.minimum_match_size...),
+                = saturated_sum(
+                    saturated_product(matcher::meta.minimum_match_size,
+                                      repetitions_min),
+                    min(children::meta.minimum_match_size...)),
                 .maximum_match_size
                 = repetitions_max == std::numeric_limits<unsigned>::max()
                       ? std::numeric_limits<unsigned>::max()
diff --git a/src/nodes/repeated.hpp b/src/nodes/repeated.hpp
index 780f8c7..c8eea5e 100644
--- a/src/nodes/repeated.hpp
+++ b/src/nodes/repeated.hpp
@@ -15,15 +15,17 @@ namespace e_regex::nodes
             // If matcher is optional, admission set must include
             // children too
             using admission_set = std::conditional_t<
-                matcher::meta.minimum_match_size * repetitions == 0,
+                matcher::meta.minimum_match_size == 0 || repetitions == 0,
                 typename extract_admission_set<matcher, children...>::type,
                 typename extract_admission_set<matcher>::type>;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::NONE,
                 .minimum_match_size
-                = matcher::meta.minimum_match_size * repetitions
-                  + min(children::meta.minimum_match_size...),
+                = saturated_sum(
+                    saturated_product(matcher::meta.minimum_match_size,
+                                      repetitions),
+                    min(children::meta.minimum_match_size...)),
                 .maximum_match_size
                 = saturated_sum(
                     saturated_product(matcher::meta.maximum_match_size,
-- 
2.43.0


From eb7e6abebac63ed924dba955413bf89894a4ae4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:26 +0000
Subject: [PATCH 23/25] fix: a lazy quantifier on a group that can be empty
 stays lazy

As a possessive one it took one more repetition, an empty one, and the
group lost its text: (a?)+?b on "ab" gave an empty first group.
---
 src/nodes/lazy.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index 6f985b5..e622163 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -98,7 +98,8 @@ namespace e_regex::nodes
 
             // If this node has no intersections with its children, and
             // they can't accept an empty string, the first accepted
-            // repetition is the last one
+            // repetition is the last one. Another one, that is empty,
+            // would change the groups in it
             template<typename... injected_children>
             using optimize = std::conditional_t<
                 admitted_sets_intersection_t<
@@ -106,7 +107,9 @@ namespace e_regex::nodes
                     typename extract_admission_set<children..., injected_children...>::type>::empty
                     && (min(children::meta.minimum_match_size...)
                             + sum(injected_children::meta.minimum_match_size...)
-                        > 0),
+                        > 0)
+                    && (matcher::meta.minimum_match_size > 0
+                        || group_getter<matcher>::value == 0),
                 possessive<typename matcher::template optimize<>,
                            repetitions_min,
                            repetitions_max,
-- 
2.43.0


From bbaf11b07a1b99e4bf830dc710e4fd972be694d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:12 +0000
Subject: [PATCH 24/25] fix: end() has no groups, like every rejected result

---
 src/match_result.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/match_result.hpp b/src/match_result.hpp
index 0631711..77686d7 100644
--- a/src/match_result.hpp
+++ b/src/match_result.hpp
@@ -84,9 +84,7 @@ namespace e_regex
             constexpr __attribute__((always_inline)) auto end() const noexcept
             {
                 auto res = *this;
-                res.data.actual_iterator_start
-                    = res.data.actual_iterator_end;
-                res.data.accepted = false;
+                res.reject();
 
                 return res;
             }
-- 
2.43.0


From 799659623ae4e8eda8a388bc0b8270132ad3626b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:26 +0000
Subject: [PATCH 25/25] fix: what is repeated zero times begins nothing

The first characters of an item with {0} or {0,0} counted as what can begin
at it: regexes that share none were not reported as independent, and
quantifiers before it were not made possessive.
---
 src/nodes/greedy.hpp     | 4 +++-
 src/nodes/lazy.hpp       | 5 ++++-
 src/nodes/possessive.hpp | 5 ++++-
 src/nodes/repeated.hpp   | 5 ++++-
 4 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/nodes/greedy.hpp b/src/nodes/greedy.hpp
index 9c7637b..7aae622 100644
--- a/src/nodes/greedy.hpp
+++ b/src/nodes/greedy.hpp
@@ -31,7 +31,9 @@ namespace e_regex::nodes
             // children too
             using admission_set = std::conditional_t<
                 matcher::meta.minimum_match_size == 0 || repetitions_min == 0,
-                typename extract_admission_set<matcher, children...>::type,
+                typename extract_admission_set<
+                    std::conditional_t<repetitions_max == 0, void, matcher>,
+                    children...>::type,
                 self_admission_set>;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index e622163..9a9c7fa 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -3,6 +3,7 @@
 
 #include <cstddef>
 #include <limits>
+#include <type_traits>
 
 #include "basic.hpp"
 #include "meta.hpp"
@@ -25,7 +26,9 @@ namespace e_regex::nodes
             // children too
             using admission_set = std::conditional_t<
                 matcher::meta.minimum_match_size == 0 || repetitions_min == 0,
-                typename extract_admission_set<matcher, children...>::type,
+                typename extract_admission_set<
+                    std::conditional_t<repetitions_max == 0, void, matcher>,
+                    children...>::type,
                 self_admission_set>;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
diff --git a/src/nodes/possessive.hpp b/src/nodes/possessive.hpp
index 270b2d6..512317d 100644
--- a/src/nodes/possessive.hpp
+++ b/src/nodes/possessive.hpp
@@ -3,6 +3,7 @@
 
 #include <cstddef>
 #include <limits>
+#include <type_traits>
 
 #include "basic.hpp"
 #include "meta.hpp"
@@ -21,7 +22,9 @@ namespace e_regex::nodes
             // children too
             using admission_set = std::conditional_t<
                 matcher::meta.minimum_match_size == 0 || repetitions_min == 0,
-                typename extract_admission_set<matcher, children...>::type,
+                typename extract_admission_set<
+                    std::conditional_t<repetitions_max == 0, void, matcher>,
+                    children...>::type,
                 typename decltype(matcher::meta)::admission_set>;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
diff --git a/src/nodes/repeated.hpp b/src/nodes/repeated.hpp
index c8eea5e..d972df4 100644
--- a/src/nodes/repeated.hpp
+++ b/src/nodes/repeated.hpp
@@ -2,6 +2,7 @@
 #define E_REGEX_NODES_REPEATED_HPP_
 
 #include <cstddef>
+#include <type_traits>
 
 #include "basic.hpp"
 #include "meta.hpp"
@@ -16,7 +17,9 @@ namespace e_regex::nodes
             // children too
             using admission_set = std::conditional_t<
                 matcher::meta.minimum_match_size == 0 || repetitions == 0,
-                typename extract_admission_set<matcher, children...>::type,
+                typename extract_admission_set<
+                    std::conditional_t<repetitions == 0, void, matcher>,
+                    children...>::type,
                 typename extract_admission_set<matcher>::type>;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
-- 
2.43.0

