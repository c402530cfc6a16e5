From 16bf687a1c5d4a05c06e290d9db2df8a15e4b24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 01/33] fix: bounds-check every character of a multi-character
 literal

---
 src/terminals/exact_matcher.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/terminals/exact_matcher.hpp b/src/terminals/exact_matcher.hpp
index f9ec4e4..6a41a63 100644
--- a/src/terminals/exact_matcher.hpp
+++ b/src/terminals/exact_matcher.hpp
@@ -35,7 +35,8 @@ namespace e_regex::terminals
                 for (const auto c:
                      pack_string<identifier, identifiers...>::string.to_view())
                 {
-                    if (c != *result.actual_iterator_end)
+                    if (result.actual_iterator_end == result.query.end()
+                        || c != *result.actual_iterator_end)
                     {
                         result.actual_iterator_end = start;
                         result.accepted            = false;
-- 
2.43.0


From 877780a4d2faf0288e9297e6432e24cd8c4f0094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 02/33] fix: \s must not consume a character it does not accept

---
 src/terminals/space_characters.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/terminals/space_characters.hpp b/src/terminals/space_characters.hpp
index 4ed983e..7b8ffbb 100644
--- a/src/terminals/space_characters.hpp
+++ b/src/terminals/space_characters.hpp
@@ -29,7 +29,10 @@ namespace e_regex::terminals
                                    *result.actual_iterator_end)
                          != matched.end();
 
-                result.actual_iterator_end++;
+                if (result)
+                {
+                    result.actual_iterator_end++;
+                }
 
                 return result;
             }
-- 
2.43.0


From 9040ee2c11bd7f29e7a023c6fd3c3f1f1ccbe8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 03/33] fix: negated character classes (\D, \W, \S, \N) consume
 exactly one character

---
 src/terminals/common.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/terminals/common.hpp b/src/terminals/common.hpp
index 32bc961..47bc38f 100644
--- a/src/terminals/common.hpp
+++ b/src/terminals/common.hpp
@@ -1,8 +1,6 @@
 #ifndef E_REGEX_TERMINALS_COMMON_HPP_
 #define E_REGEX_TERMINALS_COMMON_HPP_
 
-#include <utility>
-
 #include "nodes/meta.hpp"
 #include "utilities/admitted_set.hpp"
 #include "utilities/static_string.hpp"
@@ -41,6 +39,9 @@ namespace e_regex::terminals
         : public terminal_common<negated_terminal<terminal, admission_set>,
                                  admitted_set_complement_t<admission_set>>
     {
+            static constexpr auto expression
+                = "[^" + terminal::expression + "]";
+
             template<typename... injected_children>
             using optimize = negated_terminal;
 
@@ -48,8 +49,16 @@ namespace e_regex::terminals
             static constexpr __attribute__((always_inline)) auto
                 match_(auto& result) -> auto&
             {
-                result = terminal::match_(std::move(result));
-                result = !result.accepted;
+                const auto start = result.actual_iterator_end;
+
+                terminal::match_(result);
+                result.actual_iterator_end = start;
+                result                     = !result.accepted;
+
+                if (result)
+                {
+                    result.actual_iterator_end++;
+                }
 
                 return result;
             }
-- 
2.43.0


From 63eae2dd5c9f3990d890bffb4edd7043b0a01c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 04/33] fix: $ must not read the character past the end of the
 input

---
 src/terminals/anchors/end.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/terminals/anchors/end.hpp b/src/terminals/anchors/end.hpp
index 4bfe158..350fe05 100644
--- a/src/terminals/anchors/end.hpp
+++ b/src/terminals/anchors/end.hpp
@@ -34,7 +34,8 @@ namespace e_regex::terminals::anchors
                     = (result.actual_iterator_end == result.query.end())
                       || *result.actual_iterator_end == '\n';
 
-                if (*result.actual_iterator_end == '\n')
+                if (result
+                    && result.actual_iterator_end < result.query.end())
                 {
                     result.actual_iterator_end++;
                 }
-- 
2.43.0


From 4d6660bbe0eb0ae398ee126be9ec388a8d1fd553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 05/33] fix: ^ matches at the start of every line and on empty
 input

---
 src/terminals/anchors/start.hpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/terminals/anchors/start.hpp b/src/terminals/anchors/start.hpp
index e58799b..a1a6de4 100644
--- a/src/terminals/anchors/start.hpp
+++ b/src/terminals/anchors/start.hpp
@@ -24,14 +24,9 @@ namespace e_regex::terminals::anchors
             static constexpr __attribute__((always_inline)) auto
                 match(auto& result) -> auto&
             {
-                if (result.actual_iterator_end >= result.query.end())
-                {
-                    result.accepted = false;
-                    return result;
-                }
-
                 result = (result.actual_iterator_end
-                          == result.query.begin());
+                          == result.query.begin())
+                         || *(result.actual_iterator_end - 1) == '\n';
 
                 return result;
             }
-- 
2.43.0


From 87787387678684dd4235f04ce1fcde7287a08bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 06/33] fix: search every start position exactly once and
 always advance

Iterating could skip start positions after a failed attempt, loop forever on an
empty match, and keep the groups of a failed attempt.
---
 src/match_result.hpp | 59 ++++++++++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/src/match_result.hpp b/src/match_result.hpp
index fe5e0ba..f8f93da 100644
--- a/src/match_result.hpp
+++ b/src/match_result.hpp
@@ -46,19 +46,37 @@ namespace e_regex
 
             match_result_data<groups_, Char_Type> data;
 
+            // Find the first match starting at start or later
+            constexpr __attribute__((always_inline)) auto search(
+                typename literal_string_view<Char_Type>::iterator start) noexcept
+                -> bool
+            {
+                while (true)
+                {
+                    // A failed attempt must not affect the next one
+                    data.match_groups          = {};
+                    data.actual_iterator_start = start;
+                    data.actual_iterator_end   = start;
+                    data.accepted              = true;
+
+                    matcher::match(data);
+
+                    if (data.accepted || start == data.query.end())
+                    {
+                        return data.accepted;
+                    }
+
+                    ++start;
+                }
+            }
+
         public:
             constexpr __attribute__((always_inline))
             match_result(literal_string_view<> query) noexcept
             {
-                data.query                 = query;
-                data.actual_iterator_start = query.begin();
-                data.actual_iterator_end = data.actual_iterator_start;
+                data.query = query;
 
-                data = matcher::match(data);
-                if (!data)
-                {
-                    next();
-                }
+                search(data.query.begin());
             }
 
             constexpr __attribute__((always_inline)) auto
@@ -176,24 +194,27 @@ namespace e_regex
              */
             constexpr __attribute__((always_inline)) auto next() noexcept
             {
-                data.match_groups = {};
-                data.actual_iterator_start = data.actual_iterator_end;
-
-                while (data.actual_iterator_start < data.query.end())
+                if (!data.accepted)
                 {
-                    matcher::match(data);
+                    return false;
+                }
 
-                    if (data.accepted)
+                auto start = data.actual_iterator_end;
+
+                if (start == data.actual_iterator_start)
+                {
+                    // Empty match, restarting from here would find it again
+                    if (start == data.query.end())
                     {
-                        return true;
+                        data.match_groups = {};
+                        data.accepted     = false;
+                        return false;
                     }
 
-                    data.actual_iterator_start
-                        = ++data.actual_iterator_end;
+                    ++start;
                 }
 
-                data.accepted = false;
-                return false;
+                return search(start);
             }
     };
 } // namespace e_regex
-- 
2.43.0


From 8be49ce8363d898024aa23591d5c2588d1122538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 07/33] fix: match_result::size() returns the number of groups

---
 src/match_result.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/match_result.hpp b/src/match_result.hpp
index f8f93da..81422d0 100644
--- a/src/match_result.hpp
+++ b/src/match_result.hpp
@@ -179,7 +179,7 @@ namespace e_regex
 
             constexpr __attribute__((always_inline)) auto size() const noexcept
             {
-                return data.matches;
+                return groups_;
             }
 
             static __attribute__((always_inline)) constexpr auto groups() noexcept
-- 
2.43.0


From 6e8697da8ce1c74b0f927609e85ba7a36616aa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 08/33] fix: a failed sequence restores the captured groups

---
 src/nodes/basic.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nodes/basic.hpp b/src/nodes/basic.hpp
index d299d6c..077f88f 100644
--- a/src/nodes/basic.hpp
+++ b/src/nodes/basic.hpp
@@ -68,7 +68,7 @@ namespace e_regex::nodes
             static constexpr __attribute__((always_inline)) auto
                 match(auto& res) -> auto&
             {
-                auto begin = res.actual_iterator_end;
+                const auto backup = res;
 
                 matcher::match(res);
 
@@ -77,7 +77,9 @@ namespace e_regex::nodes
                     if (!dfs<std::tuple<children...>,
                              std::tuple<injected_children...>>(res))
                     {
-                        res.actual_iterator_end = begin;
+                        // A failed attempt leaves no trace
+                        res          = backup;
+                        res.accepted = false;
                     }
                 }
 
-- 
2.43.0


From 19ae9a0f10d2f570ea1302e2150e1582a0042ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 09/33] fix: a failed capture group restores position and
 groups

The node following a group was also given itself as lookahead, which made a
trailing quantifier give back characters ((a)b+ on abbb matched abb).
---
 src/nodes/group.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/nodes/group.hpp b/src/nodes/group.hpp
index 5fc7019..fe3188a 100644
--- a/src/nodes/group.hpp
+++ b/src/nodes/group.hpp
@@ -41,7 +41,7 @@ namespace e_regex::nodes
             static constexpr __attribute__((always_inline)) auto
                 match(auto& result) -> auto&
             {
-                auto begin = result.actual_iterator_end;
+                const auto backup = result;
 
                 // This node's children matter in backtracking
                 matcher::template match<children...>(result);
@@ -50,11 +50,16 @@ namespace e_regex::nodes
                 {
                     result.match_groups[group_index]
                         = literal_string_view {
-                            begin, result.actual_iterator_end};
+                            backup.actual_iterator_end,
+                            result.actual_iterator_end};
 
-                    return dfs<std::tuple<children...>,
-                               std::tuple<children..., injected_children...>>(
-                        result);
+                    if (!dfs<std::tuple<children...>,
+                             std::tuple<injected_children...>>(result))
+                    {
+                        // A failed attempt leaves no trace
+                        result          = backup;
+                        result.accepted = false;
+                    }
                 }
 
                 return result;
-- 
2.43.0


From aebc6454f2b901d2b8f4946852ff61f4f9e4e977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 10/33] fix: a failed {n} restores position and groups

---
 src/nodes/repeated.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/nodes/repeated.hpp b/src/nodes/repeated.hpp
index 2ee9821..556f2b6 100644
--- a/src/nodes/repeated.hpp
+++ b/src/nodes/repeated.hpp
@@ -50,15 +50,24 @@ namespace e_regex::nodes
             static constexpr __attribute__((always_inline)) auto
                 match(auto& res) -> auto&
             {
+                const auto backup = res;
+
                 for (unsigned i = 0; i < repetitions; ++i)
                 {
                     if (!matcher::match(res))
                     {
-                        return res;
+                        break;
                     }
                 }
 
-                return dfs<std::tuple<children...>>(res);
+                if (!res || !dfs<std::tuple<children...>>(res))
+                {
+                    // A failed attempt leaves no trace
+                    res          = backup;
+                    res.accepted = false;
+                }
+
+                return res;
             }
     };
 } // namespace e_regex::nodes
-- 
2.43.0


From d178b79ee77bad4fbf5d2d42a40ff6042c6cf98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 11/33] fix: [^...] must not consume a character it rejects

---
 src/nodes/negated.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nodes/negated.hpp b/src/nodes/negated.hpp
index 601a9b9..4547e00 100644
--- a/src/nodes/negated.hpp
+++ b/src/nodes/negated.hpp
@@ -38,8 +38,11 @@ namespace e_regex::nodes
                     return result;
                 }
 
+                const auto start = result.actual_iterator_end;
+
                 matcher::match(result);
-                result.accepted = !result.accepted;
+                result.actual_iterator_end = start;
+                result.accepted            = !result.accepted;
 
                 if (result)
                 {
-- 
2.43.0


From 1100c44131ca6bc5ba6b6e1fbef809e5f0e1179a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 12/33] fix: maximum match sizes include the longest
 alternative and the children

---
 src/nodes/basic.hpp    | 6 +++---
 src/nodes/group.hpp    | 9 +++++++--
 src/nodes/negated.hpp  | 2 +-
 src/nodes/repeated.hpp | 6 ++++--
 4 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/nodes/basic.hpp b/src/nodes/basic.hpp
index 077f88f..ed0cf38 100644
--- a/src/nodes/basic.hpp
+++ b/src/nodes/basic.hpp
@@ -56,7 +56,7 @@ namespace e_regex::nodes
                   + min(children::meta.minimum_match_size...),
                 .maximum_match_size
                 = matcher::meta.maximum_match_size
-                  + max(children::meta.minimum_match_size...),
+                  + max(children::meta.maximum_match_size...),
             };
 
             template<typename... injected_children>
@@ -106,7 +106,7 @@ namespace e_regex::nodes
                 .minimum_match_size
                 = min(children::meta.minimum_match_size...),
                 .maximum_match_size
-                = max(children::meta.minimum_match_size...),
+                = max(children::meta.maximum_match_size...),
             };
 
             template<typename... injected_children>
@@ -134,7 +134,7 @@ namespace e_regex::nodes
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_            = policy::NONE,
                 .minimum_match_size = child::meta.minimum_match_size,
-                .maximum_match_size = child::meta.minimum_match_size,
+                .maximum_match_size = child::meta.maximum_match_size,
             };
 
             template<typename... injected_children>
diff --git a/src/nodes/group.hpp b/src/nodes/group.hpp
index fe3188a..056f89e 100644
--- a/src/nodes/group.hpp
+++ b/src/nodes/group.hpp
@@ -22,8 +22,13 @@ namespace e_regex::nodes
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::NONE,
-                .minimum_match_size = matcher::meta.minimum_match_size,
-                .maximum_match_size = matcher::meta.maximum_match_size};
+                .minimum_match_size
+                = matcher::meta.minimum_match_size
+                  + min(children::meta.minimum_match_size...),
+                .maximum_match_size
+                = matcher::meta.maximum_match_size
+                  + max(children::meta.maximum_match_size...),
+            };
 
             static constexpr auto next_group_index = group_index + 1;
 
diff --git a/src/nodes/negated.hpp b/src/nodes/negated.hpp
index 4547e00..43be69e 100644
--- a/src/nodes/negated.hpp
+++ b/src/nodes/negated.hpp
@@ -21,7 +21,7 @@ namespace e_regex::nodes
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = policy::NONE,
                 .minimum_match_size = matcher::meta.minimum_match_size,
-                .maximum_match_size = matcher::meta.minimum_match_size,
+                .maximum_match_size = matcher::meta.maximum_match_size,
             };
 
             template<typename... injected_children>
diff --git a/src/nodes/repeated.hpp b/src/nodes/repeated.hpp
index 556f2b6..a159e4d 100644
--- a/src/nodes/repeated.hpp
+++ b/src/nodes/repeated.hpp
@@ -18,9 +18,11 @@ namespace e_regex::nodes
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::NONE,
                 .minimum_match_size
-                = matcher::meta.minimum_match_size * repetitions,
+                = matcher::meta.minimum_match_size * repetitions
+                  + min(children::meta.minimum_match_size...),
                 .maximum_match_size
-                = matcher::meta.maximum_match_size * repetitions,
+                = matcher::meta.maximum_match_size * repetitions
+                  + max(children::meta.maximum_match_size...),
             };
 
             static constexpr auto expression = []() {
-- 
2.43.0


From 4615a72edec3b5fadc3d2aceae9d020ce3b40bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 13/33] fix: a failed possessive quantifier restores position
 and groups

An empty repetition also stops the loop, it would be repeated up to 2^32 times.
---
 src/nodes/possessive.hpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/nodes/possessive.hpp b/src/nodes/possessive.hpp
index a625909..55c5d1b 100644
--- a/src/nodes/possessive.hpp
+++ b/src/nodes/possessive.hpp
@@ -98,31 +98,45 @@ namespace e_regex::nodes
             static constexpr __attribute__((always_inline)) auto
                 match(auto& result) -> auto&
             {
-	      auto end = result.actual_iterator_end;
+                const auto backup = result;
 
                 for (unsigned i = 0; i < repetitions_max; ++i)
                 {
-                    matcher::template match<injected_children...>(result);
+                    const auto end = result.actual_iterator_end;
+
+                    matcher::match(result);
 
                     if (!result)
                     {
                         if (i < repetitions_min)
                         {
                             // Failed too early
+                            result          = backup;
+                            result.accepted = false;
                             return result;
                         }
 
                         // Failed but repetitions_min was satisfied,
                         // run dfs
                         result.accepted = true;
-			result.actual_iterator_end = end;
                         break;
                     }
 
-		  end = result.actual_iterator_end;
+                    if (result.actual_iterator_end == end)
+                    {
+                        // Empty repetition, the others would be empty too
+                        break;
+                    }
+                }
+
+                if (!dfs<std::tuple<children...>>(result))
+                {
+                    // A failed attempt leaves no trace
+                    result          = backup;
+                    result.accepted = false;
                 }
 
-                return dfs<std::tuple<children...>>(result);
+                return result;
             }
     };
 
-- 
2.43.0


From 472869651b8a28addc4b6eeb4c6b311eaf3bc791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 14/33] fix: lazy quantifiers try the continuation after every
 repetition

Repetitions after the minimum were matched with the result already rejected, a
{n,m}? that exhausted m and an input that ended were accepted or rejected
depending on the order of the attempts, and a failure left state behind.
---
 src/nodes/lazy.hpp | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index aa309a2..c2024e9 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -108,7 +108,7 @@ namespace e_regex::nodes
             static constexpr __attribute__((always_inline)) auto
                 match(auto& result) -> auto&
             {
-                auto start = result.actual_iterator_end;
+                const auto backup = result;
 
                 if constexpr (std::is_same_v<matcher, void>)
                 {
@@ -122,6 +122,8 @@ namespace e_regex::nodes
                         {
                             if (!matcher::match(result))
                             {
+                                result          = backup;
+                                result.accepted = false;
                                 return result;
                             }
                         }
@@ -129,8 +131,7 @@ namespace e_regex::nodes
 
                     unsigned matches = repetitions_min;
 
-                    while (result.actual_iterator_end < result.query.end()
-                           && matches < repetitions_max)
+                    while (true)
                     {
                         if constexpr (sizeof...(children) > 0)
                         {
@@ -143,29 +144,31 @@ namespace e_regex::nodes
                         }
                         else
                         {
-                            auto bak = result.actual_iterator_end;
+                            const auto bak = result;
                             dfs<std::tuple<injected_children...>>(result);
-                            result.actual_iterator_end = bak;
-                        }
-
-                        if (!result)
-                        {
-                            matcher::match(result);
-                            matches++;
 
-                            if (!result)
+                            if (result)
                             {
-                                result.actual_iterator_end = start;
+                                result = bak;
                                 return result;
                             }
                         }
-                        else
+
+                        const auto end  = result.actual_iterator_end;
+                        result.accepted = true;
+
+                        if (matches >= repetitions_max
+                            || !matcher::match(result)
+                            || result.actual_iterator_end == end)
                         {
-                            break;
+                            // No more repetitions can be consumed
+                            result          = backup;
+                            result.accepted = false;
+                            return result;
                         }
-                    }
 
-                    return dfs<std::tuple<children...>>(result);
+                        matches++;
+                    }
                 }
             }
     };
-- 
2.43.0


From 297b67f85ddb4b3c3c6dc650f0609f9c81af859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 15/33] fix: greedy quantifiers give back whole repetitions

Backtracking rescanned single characters, which accepts text the quantified
expression does not match, the optional shortcut subtracted the size of a match
that did not happen (ba?[ab]c accepted bc), and failures left state behind.
---
 src/nodes/greedy.hpp | 75 ++++++++++++++++++++++----------------------
 1 file changed, 37 insertions(+), 38 deletions(-)

diff --git a/src/nodes/greedy.hpp b/src/nodes/greedy.hpp
index 3dcb5f3..bcd90ad 100644
--- a/src/nodes/greedy.hpp
+++ b/src/nodes/greedy.hpp
@@ -127,10 +127,13 @@ namespace e_regex::nodes
                 }
                 else
                 {
-                    auto bak = result.actual_iterator_end;
+                    // Lookahead only, nothing must be consumed
+                    const auto bak = result;
 
-                    dfs<std::tuple<injected_children...>>(result);
-                    result.actual_iterator_end = bak;
+                    if (dfs<std::tuple<injected_children...>>(result))
+                    {
+                        result = bak;
+                    }
 
                     return result;
                 }
@@ -144,28 +147,9 @@ namespace e_regex::nodes
                 {
                     return dfs<std::tuple<children...>>(result);
                 }
-                else if constexpr (repetitions_min == 0
-                                   && repetitions_max == 1
-                                   && matcher::meta.minimum_match_size
-                                          == matcher::meta.maximum_match_size)
-                {
-                    // Optional node with a terminal matcher
-                    matcher::match(result);
-
-                    if (!backtrack<injected_children...>(result)
-                        && result.actual_iterator_end
-                               > result.actual_iterator_start)
-                    {
-                        result.actual_iterator_end
-                            -= matcher::meta.minimum_match_size;
-                        backtrack<injected_children...>(result);
-                    }
-
-                    return result;
-                }
                 else
                 {
-                    const auto begin = result.actual_iterator_end;
+                    const auto begin = result;
 
                     if constexpr (repetitions_min > 0)
                     {
@@ -173,6 +157,8 @@ namespace e_regex::nodes
                         {
                             if (!matcher::match(result))
                             {
+                                result          = begin;
+                                result.accepted = false;
                                 return result;
                             }
                         }
@@ -180,10 +166,12 @@ namespace e_regex::nodes
 
                     // Iterate while this matcher accepts
                     auto       repetitions = repetitions_min;
-                    const auto start = result.actual_iterator_end;
+                    const auto start = result;
 
                     while (repetitions < repetitions_max)
                     {
+                        const auto end = result.actual_iterator_end;
+
                         if (!matcher::match(result))
                         {
                             // Restore last good match
@@ -192,6 +180,12 @@ namespace e_regex::nodes
                         }
 
                         repetitions++;
+
+                        if (result.actual_iterator_end == end)
+                        {
+                            // Empty repetition, the others would be empty too
+                            break;
+                        }
                     }
 
                     // Now backtrack
@@ -202,30 +196,35 @@ namespace e_regex::nodes
                             return result;
                         }
 
-                        for (auto iter = result.actual_iterator_end - 1;
-                             iter >= start;
-                             --iter)
+                        // Give back the last repetition
+                        --repetitions;
+
+                        if constexpr (matcher::meta.minimum_match_size
+                                          == matcher::meta.maximum_match_size
+                                      && group_getter<matcher>::value == 0)
                         {
-                            result.actual_iterator_end = iter;
+                            result.actual_iterator_end
+                                -= matcher::meta.minimum_match_size;
+                            result.accepted = true;
+                        }
+                        else
+                        {
+                            result = start;
 
-                            if (matcher::match(result))
+                            for (unsigned i = repetitions_min; i < repetitions; ++i)
                             {
-                                result.actual_iterator_end = iter;
-                                break;
+                                matcher::match(result);
                             }
                         }
-
-                        --repetitions;
                     }
 
-                    result = repetitions >= repetitions_min;
-
-                    if (result)
+                    if (!dfs<std::tuple<children...>>(result))
                     {
-                        return dfs<std::tuple<children...>>(result);
+                        // A failed attempt leaves no trace
+                        result          = begin;
+                        result.accepted = false;
                     }
 
-                    result.actual_iterator_end = begin;
                     return result;
                 }
             }
-- 
2.43.0


From c3df730a154aa0b174567777bf7e7b6d5c42edd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 16/33] fix: match sizes saturate instead of wrapping around

(?:a?a*) had minimum and maximum size 0, as if its length was fixed.
---
 src/nodes/basic.hpp      |  8 ++++----
 src/nodes/greedy.hpp     | 10 ++++++----
 src/nodes/group.hpp      |  8 ++++----
 src/nodes/lazy.hpp       | 10 ++++++----
 src/nodes/possessive.hpp | 10 ++++++----
 src/nodes/repeated.hpp   | 10 ++++++----
 src/utilities/math.hpp   | 17 +++++++++++++++++
 7 files changed, 49 insertions(+), 24 deletions(-)

diff --git a/src/nodes/basic.hpp b/src/nodes/basic.hpp
index ed0cf38..0270b56 100644
--- a/src/nodes/basic.hpp
+++ b/src/nodes/basic.hpp
@@ -52,11 +52,11 @@ namespace e_regex::nodes
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = policy::NONE,
                 .minimum_match_size
-                = matcher::meta.minimum_match_size
-                  + min(children::meta.minimum_match_size...),
+                = add_sizes(matcher::meta.minimum_match_size,
+                            min(children::meta.minimum_match_size...)),
                 .maximum_match_size
-                = matcher::meta.maximum_match_size
-                  + max(children::meta.maximum_match_size...),
+                = add_sizes(matcher::meta.maximum_match_size,
+                            max(children::meta.maximum_match_size...)),
             };
 
             template<typename... injected_children>
diff --git a/src/nodes/greedy.hpp b/src/nodes/greedy.hpp
index bcd90ad..0ef52bf 100644
--- a/src/nodes/greedy.hpp
+++ b/src/nodes/greedy.hpp
@@ -36,13 +36,15 @@ namespace e_regex::nodes
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::GREEDY,
                 .minimum_match_size
-                = matcher::meta.minimum_match_size * repetitions_min
-                  + min(children::meta.minimum_match_size...),
+                = add_sizes(
+                    multiply_sizes(matcher::meta.minimum_match_size, repetitions_min),
+                    min(children::meta.minimum_match_size...)),
                 .maximum_match_size
                 = repetitions_max == std::numeric_limits<unsigned>::max()
                       ? std::numeric_limits<unsigned>::max()
-                      : matcher::meta.maximum_match_size * repetitions_max
-                            + max(children::meta.maximum_match_size...),
+                      : add_sizes(
+                    multiply_sizes(matcher::meta.maximum_match_size, repetitions_max),
+                    max(children::meta.maximum_match_size...)),
             };
 
             static constexpr unsigned groups
diff --git a/src/nodes/group.hpp b/src/nodes/group.hpp
index 056f89e..6a53af2 100644
--- a/src/nodes/group.hpp
+++ b/src/nodes/group.hpp
@@ -23,11 +23,11 @@ namespace e_regex::nodes
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::NONE,
                 .minimum_match_size
-                = matcher::meta.minimum_match_size
-                  + min(children::meta.minimum_match_size...),
+                = add_sizes(matcher::meta.minimum_match_size,
+                            min(children::meta.minimum_match_size...)),
                 .maximum_match_size
-                = matcher::meta.maximum_match_size
-                  + max(children::meta.maximum_match_size...),
+                = add_sizes(matcher::meta.maximum_match_size,
+                            max(children::meta.maximum_match_size...)),
             };
 
             static constexpr auto next_group_index = group_index + 1;
diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index c2024e9..0a2f737 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -27,13 +27,15 @@ namespace e_regex::nodes
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::LAZY,
                 .minimum_match_size
-                = matcher::meta.minimum_match_size * repetitions_min
-                  + min(children::meta.minimum_match_size...),
+                = add_sizes(
+                    multiply_sizes(matcher::meta.minimum_match_size, repetitions_min),
+                    min(children::meta.minimum_match_size...)),
                 .maximum_match_size
                 = repetitions_max == std::numeric_limits<unsigned>::max()
                       ? std::numeric_limits<unsigned>::max()
-                      : matcher::meta.maximum_match_size * repetitions_max
-                            + max(children::meta.maximum_match_size...),
+                      : add_sizes(
+                    multiply_sizes(matcher::meta.maximum_match_size, repetitions_max),
+                    max(children::meta.maximum_match_size...)),
             };
 
             static constexpr auto expression = []() {
diff --git a/src/nodes/possessive.hpp b/src/nodes/possessive.hpp
index 55c5d1b..5e12ad4 100644
--- a/src/nodes/possessive.hpp
+++ b/src/nodes/possessive.hpp
@@ -26,13 +26,15 @@ namespace e_regex::nodes
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::POSSESSIVE,
                 .minimum_match_size
-                = matcher::meta.minimum_match_size * repetitions_min
-                  + min(children::meta.minimum_match_size...),
+                = add_sizes(
+                    multiply_sizes(matcher::meta.minimum_match_size, repetitions_min),
+                    min(children::meta.minimum_match_size...)),
                 .maximum_match_size
                 = repetitions_max == std::numeric_limits<unsigned>::max()
                       ? std::numeric_limits<unsigned>::max()
-                      : matcher::meta.maximum_match_size * repetitions_max
-                            + max(children::meta.maximum_match_size...),
+                      : add_sizes(
+                    multiply_sizes(matcher::meta.maximum_match_size, repetitions_max),
+                    max(children::meta.maximum_match_size...)),
             };
 
             static constexpr auto expression = []() {
diff --git a/src/nodes/repeated.hpp b/src/nodes/repeated.hpp
index a159e4d..4bef58c 100644
--- a/src/nodes/repeated.hpp
+++ b/src/nodes/repeated.hpp
@@ -18,11 +18,13 @@ namespace e_regex::nodes
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::NONE,
                 .minimum_match_size
-                = matcher::meta.minimum_match_size * repetitions
-                  + min(children::meta.minimum_match_size...),
+                = add_sizes(
+                    multiply_sizes(matcher::meta.minimum_match_size, repetitions),
+                    min(children::meta.minimum_match_size...)),
                 .maximum_match_size
-                = matcher::meta.maximum_match_size * repetitions
-                  + max(children::meta.maximum_match_size...),
+                = add_sizes(
+                    multiply_sizes(matcher::meta.maximum_match_size, repetitions),
+                    max(children::meta.maximum_match_size...)),
             };
 
             static constexpr auto expression = []() {
diff --git a/src/utilities/math.hpp b/src/utilities/math.hpp
index 1b9eab7..4f96d2b 100644
--- a/src/utilities/math.hpp
+++ b/src/utilities/math.hpp
@@ -2,6 +2,7 @@
 #define E_REGEX_UTILITIES_MATH_HPP_
 
 #include <algorithm>
+#include <limits>
 
 namespace e_regex
 {
@@ -45,6 +46,22 @@ namespace e_regex
         return max(std::max(n1, n2), tail...);
     }
 
+    // Match sizes: the maximum value of an unsigned means "unbounded"
+    consteval auto add_sizes(unsigned n1, unsigned n2) -> unsigned
+    {
+        constexpr auto unbounded = std::numeric_limits<unsigned>::max();
+
+        return n1 > unbounded - n2 ? unbounded : n1 + n2;
+    }
+
+    consteval auto multiply_sizes(unsigned size, unsigned times) -> unsigned
+    {
+        constexpr auto unbounded = std::numeric_limits<unsigned>::max();
+
+        return times != 0 && size > unbounded / times ? unbounded
+                                                      : size * times;
+    }
+
 } // namespace e_regex
 
 #endif /* E_REGEX_UTILITIES_MATH_HPP_*/
-- 
2.43.0


From f02ae2e82f240ff5e750ff8d73b7253f6951226c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 17/33] fix: the admission set of an alternation includes every
 branch

Only the first branch was considered, so backtracking that another branch needed
was optimized away (b*(?:a|b) did not match bb).
---
 src/nodes/basic.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/nodes/basic.hpp b/src/nodes/basic.hpp
index 0270b56..03b9940 100644
--- a/src/nodes/basic.hpp
+++ b/src/nodes/basic.hpp
@@ -90,16 +90,12 @@ namespace e_regex::nodes
     template<typename... children>
     struct simple<void, children...> : public base<void, children...>
     {
-            using child
-                = std::tuple_element_t<0, std::tuple<children...>>;
-
             static constexpr auto expression
                 = get_children_expression<children...>();
 
-            using admission_set = std::conditional_t<
-                child::meta.minimum_match_size == 0,
-                typename extract_admission_set<children...>::type,
-                typename extract_admission_set<child>::type>;
+            // Any of the branches can be the first to match
+            using admission_set =
+                typename extract_admission_set<children...>::type;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = policy::NONE,
-- 
2.43.0


From a8e824d32718d0dc6f84b6f060c3a5c6f502e7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 18/33] fix: admission sets include what follows a node that
 can match nothing

---
 src/nodes/greedy.hpp     | 6 +++---
 src/nodes/group.hpp      | 8 ++++++--
 src/nodes/lazy.hpp       | 6 +++---
 src/nodes/possessive.hpp | 6 +++---
 src/nodes/repeated.hpp   | 8 ++++++--
 5 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/nodes/greedy.hpp b/src/nodes/greedy.hpp
index 0ef52bf..e38f5fe 100644
--- a/src/nodes/greedy.hpp
+++ b/src/nodes/greedy.hpp
@@ -26,10 +26,10 @@ namespace e_regex::nodes
             using self_admission_set =
                 typename decltype(matcher::meta)::admission_set;
 
-            // If matcher is optional (aka repetitions_min==0),
-            // admission set must include children too
+            // If matcher is optional (aka repetitions_min==0, or it can
+            // match nothing), admission set must include children too
             using admission_set = std::conditional_t<
-                repetitions_min == 0,
+                repetitions_min == 0 || matcher::meta.minimum_match_size == 0,
                 typename extract_admission_set<matcher, children...>::type,
                 self_admission_set>;
 
diff --git a/src/nodes/group.hpp b/src/nodes/group.hpp
index 6a53af2..8b0a70b 100644
--- a/src/nodes/group.hpp
+++ b/src/nodes/group.hpp
@@ -17,8 +17,12 @@ namespace e_regex::nodes
                 = '(' + matcher::expression + ')'
                   + get_children_expression<children...>();
 
-            using admission_set =
-                typename extract_admission_set<matcher>::type;
+            // If matcher can match nothing, admission set must include
+            // children too
+            using admission_set = std::conditional_t<
+                matcher::meta.minimum_match_size == 0,
+                typename extract_admission_set<matcher, children...>::type,
+                typename extract_admission_set<matcher>::type>;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::NONE,
diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index 0a2f737..6099495 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -17,10 +17,10 @@ namespace e_regex::nodes
              typename... children>
     struct lazy : public base<matcher, children...>
     {
-            // If matcher is optional (aka repetitions_min==0),
-            // admission set must include children too
+            // If matcher is optional (aka repetitions_min==0, or it can
+            // match nothing), admission set must include children too
             using admission_set = std::conditional_t<
-                repetitions_min == 0,
+                repetitions_min == 0 || matcher::meta.minimum_match_size == 0,
                 typename extract_admission_set<matcher, children...>::type,
                 typename decltype(matcher::meta)::admission_set>;
 
diff --git a/src/nodes/possessive.hpp b/src/nodes/possessive.hpp
index 5e12ad4..977006d 100644
--- a/src/nodes/possessive.hpp
+++ b/src/nodes/possessive.hpp
@@ -16,10 +16,10 @@ namespace e_regex::nodes
              typename... children>
     struct possessive : public base<matcher, children...>
     {
-            // If matcher is optional (aka repetitions_min==0),
-            // admission set must include children too
+            // If matcher is optional (aka repetitions_min==0, or it can
+            // match nothing), admission set must include children too
             using admission_set = std::conditional_t<
-                repetitions_min == 0,
+                repetitions_min == 0 || matcher::meta.minimum_match_size == 0,
                 typename extract_admission_set<matcher, children...>::type,
                 typename decltype(matcher::meta)::admission_set>;
 
diff --git a/src/nodes/repeated.hpp b/src/nodes/repeated.hpp
index 4bef58c..b247141 100644
--- a/src/nodes/repeated.hpp
+++ b/src/nodes/repeated.hpp
@@ -12,8 +12,12 @@ namespace e_regex::nodes
     template<typename matcher, unsigned repetitions, typename... children>
     struct repeated : public base<matcher, children...>
     {
-            using admission_set =
-                typename extract_admission_set<matcher>::type;
+            // If matcher can match nothing, admission set must include
+            // children too
+            using admission_set = std::conditional_t<
+                repetitions == 0 || matcher::meta.minimum_match_size == 0,
+                typename extract_admission_set<matcher, children...>::type,
+                typename extract_admission_set<matcher>::type>;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::NONE,
-- 
2.43.0


From cb3394685d46905267e55051247eae99d0d544ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 19/33] fix: admission sets cover every value of a char

Characters outside 0-127 were missing from the complement and from '.', which
admitted \n too, and a range of one character ([a-a]) did not compile.
---
 src/terminals/any.hpp          | 2 +-
 src/utilities/admitted_set.hpp | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/terminals/any.hpp b/src/terminals/any.hpp
index a3eec05..592eac8 100644
--- a/src/terminals/any.hpp
+++ b/src/terminals/any.hpp
@@ -9,7 +9,7 @@ namespace e_regex::terminals
     template<>
     struct terminal<pack_string<'.'>>
         : public terminal_common<terminal<pack_string<'.'>>,
-                                 admitted_set_range_t<char, '\0', '\x7F'>>
+                                 admitted_set_complement_t<admitted_set<char, '\n'>>>
     {
             static constexpr auto expression = static_string {"."};
 
diff --git a/src/utilities/admitted_set.hpp b/src/utilities/admitted_set.hpp
index 4d4353b..cd1d667 100644
--- a/src/utilities/admitted_set.hpp
+++ b/src/utilities/admitted_set.hpp
@@ -27,14 +27,14 @@ namespace e_regex
              Char start,
              Char end,
              typename seq = std::make_integer_sequence<unsigned, 1 + end - start>>
-        requires(end > start)
+        requires(end >= start)
     struct admitted_set_range;
 
     template<typename Char, Char start, Char end, auto... seq>
     struct admitted_set_range<Char, start, end, std::integer_sequence<unsigned, seq...>>
     {
             using type
-                = admitted_set<Char, (static_cast<Char>(seq) + start)...>;
+                = admitted_set<Char, static_cast<Char>(start + static_cast<int>(seq))...>;
     };
 
     template<typename Char, Char start, Char end>
@@ -194,7 +194,9 @@ namespace e_regex
     template<typename set, typename Char = typename set::Char_t>
     using admitted_set_complement_t = admitted_sets_difference_t<
         set,
-        admitted_set_range_t<Char, 0, std::numeric_limits<Char>::max()>>;
+        admitted_set_range_t<Char,
+                             std::numeric_limits<Char>::min(),
+                             std::numeric_limits<Char>::max()>>;
 
     // Intersection of two sets
     template<typename set1,
-- 
2.43.0


From 9d7f65dc0e8217239bd540f973addd9f3d6995ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 20/33] fix: admission sets of $ and of multi-character
 literals

$ admits \n as first character, not every other character, and a literal admits
only its first character (the set was not even sorted).
---
 src/terminals/anchors/end.hpp   | 2 +-
 src/terminals/exact_matcher.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/terminals/anchors/end.hpp b/src/terminals/anchors/end.hpp
index 350fe05..1b17a7e 100644
--- a/src/terminals/anchors/end.hpp
+++ b/src/terminals/anchors/end.hpp
@@ -11,7 +11,7 @@ namespace e_regex::terminals::anchors
             static constexpr auto expression = static_string {"$"};
 
             static constexpr auto meta = e_regex::meta<
-                admitted_set_complement_t<admitted_set<char, '\n'>>> {
+                admitted_set<char, '\n'>> {
                 .policy_            = e_regex::policy::NONE,
                 .minimum_match_size = 0,
                 .maximum_match_size = 1,
diff --git a/src/terminals/exact_matcher.hpp b/src/terminals/exact_matcher.hpp
index 6a41a63..e030391 100644
--- a/src/terminals/exact_matcher.hpp
+++ b/src/terminals/exact_matcher.hpp
@@ -14,13 +14,13 @@ namespace e_regex::terminals
     struct exact_matcher<pack_string<identifier, identifiers...>>
         : public terminal_common<
               exact_matcher<pack_string<identifier, identifiers...>>,
-              admitted_set<char, identifier, identifiers...>>
+              admitted_set<char, identifier>>
     {
             static constexpr auto expression
                 = pack_string<identifier, identifiers...>::string;
 
             static constexpr auto meta
-                = e_regex::meta<admitted_set<char, identifier, identifiers...>> {
+                = e_regex::meta<admitted_set<char, identifier>> {
                     .policy_            = e_regex::policy::EXACT,
                     .minimum_match_size = sizeof...(identifiers) + 1,
                     .maximum_match_size = sizeof...(identifiers) + 1,
-- 
2.43.0


From e639de7d88afbe634e7ecfa3b5b7b96c1967781a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 21/33] fix: a lazy quantifier is possessive only if what
 follows must consume

a+? alone matched every a, because nothing follows it.
---
 src/nodes/lazy.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index 6099495..2e4fdc7 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -90,13 +90,15 @@ namespace e_regex::nodes
                 }
             }();
 
-            // If this node has no intersections with its children,
-            // backtracking is not needed
+            // If this node has no intersections with its children and
+            // its children cannot match nothing, it stops exactly where
+            // it cannot match anymore
             template<typename... injected_children>
             using optimize = std::conditional_t<
-                admitted_sets_intersection_t<
-                    admission_set,
-                    typename extract_admission_set<children..., injected_children...>::type>::empty,
+                (min(children::meta.minimum_match_size...) > 0)
+                    && admitted_sets_intersection_t<
+                        typename decltype(matcher::meta)::admission_set,
+                        typename extract_admission_set<children...>::type>::empty,
                 possessive<typename matcher::template optimize<>,
                            repetitions_min,
                            repetitions_max,
-- 
2.43.0


From e5fb5e436a6af3687ae59e24c67e38c6e794113d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 22/33] fix: lookahead reaches every alternative

Only the first alternative of a group was matched with what follows the group
in mind: (a|b+)b did not match bbb, (b+|a)b did.
---
 src/nodes/basic.hpp  | 2 +-
 src/nodes/common.hpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nodes/basic.hpp b/src/nodes/basic.hpp
index 03b9940..f3daad5 100644
--- a/src/nodes/basic.hpp
+++ b/src/nodes/basic.hpp
@@ -167,7 +167,7 @@ namespace e_regex::nodes
             static constexpr __attribute__((always_inline)) auto
                 match(auto& res) -> auto&
             {
-                return matcher::match(res);
+                return matcher::template match<injected_children...>(res);
             }
     };
 
diff --git a/src/nodes/common.hpp b/src/nodes/common.hpp
index 48ad323..6d7f52f 100644
--- a/src/nodes/common.hpp
+++ b/src/nodes/common.hpp
@@ -130,7 +130,8 @@ namespace e_regex::nodes
                 }
 
                 match_result.accepted = true;
-                return dfs<typename _children::remaining>(match_result);
+                return dfs<typename _children::remaining, injected_children>(
+                    match_result);
             }
         }
     }
-- 
2.43.0


From eaf6bf48aed7ac5b64a9e0c2d376332d4f862426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 23/33] fix: the optimizer considers what follows a group

A quantifier that ends a group became possessive even if what follows the group
needs it to give characters back: (ba*)ab did not match baab.
---
 src/nodes/basic.hpp | 7 +++++--
 src/nodes/group.hpp | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/nodes/basic.hpp b/src/nodes/basic.hpp
index f3daad5..7cb556f 100644
--- a/src/nodes/basic.hpp
+++ b/src/nodes/basic.hpp
@@ -62,7 +62,8 @@ namespace e_regex::nodes
             template<typename... injected_children>
             using optimize
                 = simple<typename matcher::template optimize<injected_children...>,
-                         typename children::template optimize<>...>;
+                         typename children::template optimize<
+                             injected_children...>...>;
 
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
@@ -107,7 +108,9 @@ namespace e_regex::nodes
 
             template<typename... injected_children>
             using optimize
-                = simple<void, typename children::template optimize<>...>;
+                = simple<void,
+                         typename children::template optimize<
+                             injected_children...>...>;
 
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
diff --git a/src/nodes/group.hpp b/src/nodes/group.hpp
index 8b0a70b..1186706 100644
--- a/src/nodes/group.hpp
+++ b/src/nodes/group.hpp
@@ -40,7 +40,8 @@ namespace e_regex::nodes
             using optimize
                 = group<typename matcher::template optimize<children..., injected_children...>,
                         group_index,
-                        typename children::template optimize<>...>;
+                        typename children::template optimize<
+                            injected_children...>...>;
 
             static constexpr unsigned groups
                 = group_getter<matcher>::value
-- 
2.43.0


From c115504442923f677bafb58efabcf74f0902e8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 24/33] fix: groups are numbered by their opening bracket

Nested groups, branches, anonymous groups and character classes restarted the
numbering, so two groups could share an index.
---
 src/nodes/group.hpp               | 5 ++++-
 src/operators/round_brackets.hpp  | 4 ++--
 src/operators/square_brackets.hpp | 7 ++-----
 src/tree_builder/tree_builder.hpp | 2 +-
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/nodes/group.hpp b/src/nodes/group.hpp
index 1186706..9be45b5 100644
--- a/src/nodes/group.hpp
+++ b/src/nodes/group.hpp
@@ -34,7 +34,10 @@ namespace e_regex::nodes
                             max(children::meta.maximum_match_size...)),
             };
 
-            static constexpr auto next_group_index = group_index + 1;
+            static constexpr auto next_group_index
+                = max(group_index + 1,
+                      group_index_getter<matcher>::value,
+                      group_index_getter<children>::value...);
 
             template<typename... injected_children>
             using optimize
diff --git a/src/operators/round_brackets.hpp b/src/operators/round_brackets.hpp
index 2d755f6..c1c2af9 100644
--- a/src/operators/round_brackets.hpp
+++ b/src/operators/round_brackets.hpp
@@ -21,7 +21,7 @@ namespace e_regex
             using tree =
                 typename branched<std::tuple<parsed..., subtree>,
                                   std::tuple<subregexes...>,
-                                  group_index>::tree;
+                                  max(group_index, subtree::next_group_index)>::tree;
     };
 
     template<typename... parsed, auto group_index>
@@ -70,7 +70,7 @@ namespace e_regex
             using new_node =
                 typename tree_builder_helper<subregex,
                                              typename substring::remaining,
-                                             subregex::next_group_index>::tree;
+                                             max(group_index, subregex::next_group_index)>::tree;
 
             using tree = add_child_t<last_node, new_node>;
     };
diff --git a/src/operators/square_brackets.hpp b/src/operators/square_brackets.hpp
index 4b9618e..6a7f627 100644
--- a/src/operators/square_brackets.hpp
+++ b/src/operators/square_brackets.hpp
@@ -107,7 +107,7 @@ namespace e_regex
             using new_node =
                 typename tree_builder_helper<subregex,
                                              typename substring::remaining,
-                                             subregex::next_group_index>::tree;
+                                             group_index>::tree;
 
             using tree = add_child_t<last_node, new_node>;
     };
@@ -127,13 +127,10 @@ namespace e_regex
                 typename substring::result,
                 group_index>::tree;
 
-            // if subregex_group_index is 0 the subregex does not
-            // contain any group
-
             using new_node = typename tree_builder_helper<
                 nodes::simple<nodes::negated_node<subregex>>,
                 typename substring::remaining,
-                subregex::next_group_index>::tree;
+                group_index>::tree;
 
             using tree = add_child_t<last_node, new_node>;
     };
diff --git a/src/tree_builder/tree_builder.hpp b/src/tree_builder/tree_builder.hpp
index f327789..acee3d4 100644
--- a/src/tree_builder/tree_builder.hpp
+++ b/src/tree_builder/tree_builder.hpp
@@ -22,7 +22,7 @@ namespace e_regex
             using tree =
                 typename tree_builder_branches<std::tuple<parsed..., subtree>,
                                                std::tuple<subregexes...>,
-                                               subtree::next_group_index>::tree;
+                                               max(group_index, subtree::next_group_index)>::tree;
     };
 
     template<typename... parsed, auto group_index>
-- 
2.43.0


From 3696075c925eb1ab13e5762d47c9fb88b08caa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 25/33] fix: hex digits A-F are decoded to their value

\x4A matched Q, and ':' to '@' were accepted as digits.
---
 src/operators/hex.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/operators/hex.hpp b/src/operators/hex.hpp
index 94eeee2..513e168 100644
--- a/src/operators/hex.hpp
+++ b/src/operators/hex.hpp
@@ -8,7 +8,14 @@
 namespace e_regex
 {
     template<char C>
-    concept hex = C >= '0' && C <= 'F';
+    concept hex = (C >= '0' && C <= '9') || (C >= 'A' && C <= 'F')
+                  || (C >= 'a' && C <= 'f');
+
+    template<char C>
+        requires hex<C>
+    static constexpr char hex_value = C <= '9'   ? C - '0'
+                                      : C <= 'F' ? C - 'A' + 10
+                                                 : C - 'a' + 10;
 
     template<char... digits>
     struct hex_to_bin;
@@ -20,7 +27,7 @@ namespace e_regex
                           "Hex characters must be included between 0 and F");
 
             static constexpr char current
-                = ((first - '0') << 4) | (second - '0');
+                = static_cast<char>((hex_value<first> << 4) | hex_value<second>);
 
             using result
                 = merge_pack_strings_t<pack_string<current>,
@@ -34,8 +41,9 @@ namespace e_regex
                           "Hex characters must be included between 0 and F");
 
             static constexpr char current
-                = ((first - '0') << (4)) | (second - '0');
-            static constexpr char current_second = (third - '0') << 4;
+                = static_cast<char>((hex_value<first> << 4) | hex_value<second>);
+            static constexpr char current_second
+                = static_cast<char>(hex_value<third> << 4);
 
             using result = pack_string<current>;
     };
@@ -46,7 +54,7 @@ namespace e_regex
             static_assert(hex<first>,
                           "Hex characters must be included between 0 and F");
 
-            static constexpr char current = first - '0';
+            static constexpr char current = hex_value<first>;
 
             using result = pack_string<current>;
     };
-- 
2.43.0


From 1ed92466f068242d5b54d6e117b94a2952cbb278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 26/33] fix: 8 is not an octal digit

---
 src/operators/octal.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/operators/octal.hpp b/src/operators/octal.hpp
index 7cc26e0..ef39233 100644
--- a/src/operators/octal.hpp
+++ b/src/operators/octal.hpp
@@ -7,7 +7,7 @@
 namespace e_regex
 {
     template<char C>
-    concept octal = C >= '0' && C <= '8';
+    concept octal = C >= '0' && C <= '7';
 
     template<char... digits>
     struct octal_to_bin;
@@ -16,11 +16,12 @@ namespace e_regex
     struct octal_to_bin<first, second, third, tail...>
     {
             static_assert(octal<first> && octal<second> && octal<third>,
-                          "Octal characters must be included between 0 and 8");
+                          "Octal characters must be included between 0 and 7");
 
-            static constexpr char current = ((first - '0') << 6)
-                                            | ((second - '0') << 3)
-                                            | (third - '0');
+            static constexpr char current
+                = static_cast<char>(((first - '0') << 6)
+                                    | ((second - '0') << 3)
+                                    | (third - '0'));
 
             using result
                 = merge_pack_strings_t<pack_string<current>,
-- 
2.43.0


From 348a7c3848d56f28c8364753ac17a0c8d8369f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 27/33] fix: tokens and separators match only at the current
 position

^ binds to the first branch of a matcher, the others were searched in the whole
input and the text before them was skipped.
---
 src/tokenization/iterator.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/tokenization/iterator.hpp b/src/tokenization/iterator.hpp
index fb16900..581c60a 100644
--- a/src/tokenization/iterator.hpp
+++ b/src/tokenization/iterator.hpp
@@ -98,11 +98,22 @@ namespace e_regex::tokenization
             token_t               last_match;
             bool                  valid = true;
 
+            // A match counts only if it starts where current starts
+            template<typename Regex>
+            [[nodiscard]] constexpr auto match_prefix(Regex regex) const
+                -> std::string_view
+            {
+                const auto match = regex(current).to_view();
+
+                return match.data() == current.begin() ? match
+                                                       : std::string_view {};
+            }
+
             [[nodiscard]] constexpr auto match_separator() -> bool
             {
                 auto matches = std::apply(
                     [this](auto... regex) {
-                        return std::array {regex(current).to_view()...};
+                        return std::array {match_prefix(regex)...};
                     },
                     data::separators);
 
@@ -129,7 +140,7 @@ namespace e_regex::tokenization
                 auto matches = std::apply(
                     [this](auto... token) {
                         return std::array {token_t {
-                            .value = token.matcher(current).to_view(),
+                            .value = match_prefix(token.matcher),
                             .type  = token.type}...};
                     },
                     data::tokens);
-- 
2.43.0


From e8f17580f11ecc8c9044950c22e32b9eacb066a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:15 +0000
Subject: [PATCH 28/33] fix: the end iterator of a tokenizer has no
 indeterminate token type

---
 src/tokenization/iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenization/iterator.hpp b/src/tokenization/iterator.hpp
index 581c60a..2a05b58 100644
--- a/src/tokenization/iterator.hpp
+++ b/src/tokenization/iterator.hpp
@@ -95,7 +95,7 @@ namespace e_regex::tokenization
         private:
             literal_string_view<> current;
             literal_string_view<> original_input;
-            token_t               last_match;
+            token_t               last_match {};
             bool                  valid = true;
 
             // A match counts only if it starts where current starts
-- 
2.43.0


From 2c47b8cee6200b99094bb9e45f82b297c1ab993d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:41 +0000
Subject: [PATCH 29/33] fix: results of single-terminal patterns can be
 decomposed

---
 src/match_result.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/match_result.hpp b/src/match_result.hpp
index 81422d0..abde53a 100644
--- a/src/match_result.hpp
+++ b/src/match_result.hpp
@@ -136,7 +136,7 @@ namespace e_regex
             constexpr __attribute__((always_inline)) auto get() const noexcept
             {
                 static_assert(
-                    index <= matcher::groups,
+                    index <= nodes::group_getter<matcher>::value,
                     "Group index is greater than the number of groups.");
 
                 return get_group(index);
@@ -225,7 +225,7 @@ namespace std
     template<typename matcher>
     struct tuple_size<e_regex::match_result<matcher>>
     {
-            static const unsigned value = matcher::groups + 1;
+            static const unsigned value = e_regex::nodes::group_getter<matcher>::value + 1;
     };
 
     template<std::size_t N, typename matcher, typename Char_Type>
-- 
2.43.0


From 474b61c2b2e307037b0e0c49dd86c2e021f62e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:03 +0000
Subject: [PATCH 30/33] fix: lazy nodes that can match nothing are not made
 possessive

---
 src/nodes/lazy.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index 2e4fdc7..4558589 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -91,11 +91,12 @@ namespace e_regex::nodes
             }();
 
             // If this node has no intersections with its children and
-            // its children cannot match nothing, it stops exactly where
+            // neither of them can match nothing, it stops exactly where
             // it cannot match anymore
             template<typename... injected_children>
             using optimize = std::conditional_t<
                 (min(children::meta.minimum_match_size...) > 0)
+                    && (matcher::meta.minimum_match_size > 0)
                     && admitted_sets_intersection_t<
                         typename decltype(matcher::meta)::admission_set,
                         typename extract_admission_set<children...>::type>::empty,
-- 
2.43.0


From 93e1613c5d1830b01479a533cce6aa361a71bcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:36 +0000
Subject: [PATCH 31/33] fix: an end() result does not show the groups of the
 match it was made from

---
 src/match_result.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/match_result.hpp b/src/match_result.hpp
index abde53a..4990e6a 100644
--- a/src/match_result.hpp
+++ b/src/match_result.hpp
@@ -111,7 +111,8 @@ namespace e_regex
                 auto res = *this;
                 res.data.actual_iterator_start
                     = res.data.actual_iterator_end;
-                res.data.accepted = false;
+                res.data.match_groups = {};
+                res.data.accepted     = false;
 
                 return res;
             }
-- 
2.43.0


From d6ec02069d4ceeecca87ba52ae4a9040c405c687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:17 +0000
Subject: [PATCH 32/33] fix: a token or separator definition may begin with an
 anchor

---
 src/tokenization/iterator.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tokenization/iterator.hpp b/src/tokenization/iterator.hpp
index 2a05b58..7262bbb 100644
--- a/src/tokenization/iterator.hpp
+++ b/src/tokenization/iterator.hpp
@@ -39,8 +39,9 @@ namespace e_regex::tokenization
                     std::make_tuple(token_matcher {
                         token.type,
                         // Adding ^ to alway match the beginning of
-                        // current
-                        e_regex::regex<static_string {"^"} + token.matcher> {}}),
+                        // current, the definition keeps its own anchors
+                        e_regex::regex<static_string {"^(?:"} + token.matcher
+                                       + static_string {")"}> {}}),
                     rec::tokens);
                 static constexpr auto separators = rec::separators;
         };
@@ -53,7 +54,8 @@ namespace e_regex::tokenization
                 static constexpr auto tokens     = rec::tokens;
                 static constexpr auto separators = std::tuple_cat(
                     std::make_tuple(
-                        e_regex::regex<static_string {"^"} + token.matcher> {}),
+                        e_regex::regex<static_string {"^(?:"} + token.matcher
+                                       + static_string {")"}> {}),
                     rec::separators);
         };
 
-- 
2.43.0


From 58ab2b5eeb9c63c9589bcd1ce1f00b10e91ec57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:08 +0000
Subject: [PATCH 33/33] fix: unset groups can be read in constant expressions
 with gcc

---
 src/match_result.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/match_result.hpp b/src/match_result.hpp
index 4990e6a..6ce6f5b 100644
--- a/src/match_result.hpp
+++ b/src/match_result.hpp
@@ -54,7 +54,7 @@ namespace e_regex
                 while (true)
                 {
                     // A failed attempt must not affect the next one
-                    data.match_groups          = {};
+                    data.match_groups.fill({});
                     data.actual_iterator_start = start;
                     data.actual_iterator_end   = start;
                     data.accepted              = true;
@@ -111,7 +111,7 @@ namespace e_regex
                 auto res = *this;
                 res.data.actual_iterator_start
                     = res.data.actual_iterator_end;
-                res.data.match_groups = {};
+                res.data.match_groups.fill({});
                 res.data.accepted     = false;
 
                 return res;
@@ -207,7 +207,7 @@ namespace e_regex
                     // Empty match, restarting from here would find it again
                     if (start == data.query.end())
                     {
-                        data.match_groups = {};
+                        data.match_groups.fill({});
                         data.accepted     = false;
                         return false;
                     }
-- 
2.43.0

