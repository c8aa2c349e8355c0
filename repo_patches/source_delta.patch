From b4cc022bd68f23c096b6d1316e386ac0d160d9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:20 +0000
Subject: [PATCH 01/17] fix: keep the last successful capture when a later
 repetition fails

A capturing group inside a greedy or possessive repetition was cleared by the
final, failing iteration, so (abc)+ on "abcabc" reported an empty group 1.
---
 include/mregex/ast/nodes/capture.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/mregex/ast/nodes/capture.hpp b/include/mregex/ast/nodes/capture.hpp
index e1e55df..8211ea5 100644
--- a/include/mregex/ast/nodes/capture.hpp
+++ b/include/mregex/ast/nodes/capture.hpp
@@ -20,13 +20,15 @@ namespace meta::ast
         -> match_result<Iter>
         {
             auto continuation = [=, &ctx, &cont](Iter next) noexcept -> match_result<Iter> {
+                // If the rest of the regex fails to match, the previously captured content must be preserved
+                auto const previous_capture = std::get<ID>(ctx.captures);
                 capture_matched_range(current, next, ctx);
-                return cont(next);
+                auto const rest_match = cont(next);
+                if (!rest_match)
+                    std::get<ID>(ctx.captures) = previous_capture;
+                return rest_match;
             };
-            if (auto inner_match = Inner::match(begin, end, current, ctx, continuation))
-                return inner_match;
-            std::get<ID>(ctx.captures).clear();
-            return non_match(current);
+            return Inner::match(begin, end, current, ctx, continuation);
         }
 
     private:
-- 
2.43.0


From 5f34516388e205bd71f55c604b517baeef4540c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:44 +0000
Subject: [PATCH 02/17] fix: number capturing groups inside alternations
 consecutively

Every alternative restarted from the same offset, so (a)|(b) gave both groups
the number 1 and group 2 never captured anything.
---
 include/mregex/ast/indexing.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/mregex/ast/indexing.hpp b/include/mregex/ast/indexing.hpp
index 26b3b81..5bb595e 100644
--- a/include/mregex/ast/indexing.hpp
+++ b/include/mregex/ast/indexing.hpp
@@ -60,6 +60,15 @@ namespace meta::ast
                 }(inner_offsets{}));
             };
 
+            template<typename... Nodes>
+            struct index<alternation<Nodes ...>>
+            {
+                using inner_offsets = capture_index_offsets_t<Offset, capture_count<Nodes> ...>;
+                using type = decltype([]<std::size_t... Offsets>(std::index_sequence<Offsets ...>) {
+                    return alternation<typename capture_indexer<Offsets>::template index<Nodes>::type ...>{};
+                }(inner_offsets{}));
+            };
+
             template<typename Node>
             using index_t = typename index<Node>::type;
         };
-- 
2.43.0


From 672337d5060dbad7f815be489e85fca129065d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:51 +0000
Subject: [PATCH 03/17] fix: a failed match no longer reports matched content

match and match_prefix stored the furthest position of the last failed attempt
in group 0, so a failed result could have a non-zero length.
---
 include/mregex/regex_methods.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/mregex/regex_methods.hpp b/include/mregex/regex_methods.hpp
index 7d80024..d54a38d 100644
--- a/include/mregex/regex_methods.hpp
+++ b/include/mregex/regex_methods.hpp
@@ -20,7 +20,8 @@ namespace meta
         static constexpr auto invoke(Iter begin, Iter end, Iter current, Context &ctx) noexcept -> ast::match_result<Iter>
         {
             auto result = ast_type::match(begin, end, current, ctx, continuations<Iter>::equals(end));
-            std::get<0>(ctx.captures) = regex_capture_view<Iter>{current, result.end};
+            if (result)
+                std::get<0>(ctx.captures) = regex_capture_view<Iter>{current, result.end};
             return result;
         }
     };
@@ -38,7 +39,8 @@ namespace meta
         static constexpr auto invoke(Iter begin, Iter end, Iter current, Context &ctx) noexcept -> ast::match_result<Iter>
         {
             auto result = ast_type::match(begin, end, current, ctx, continuations<Iter>::success);
-            std::get<0>(ctx.captures) = regex_capture_view<Iter>{current, result.end};
+            if (result)
+                std::get<0>(ctx.captures) = regex_capture_view<Iter>{current, result.end};
             return result;
         }
     };
-- 
2.43.0


From bc6b1a77b7096453862189c26f926da3f751e908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:58 +0000
Subject: [PATCH 04/17] fix: mirror anchors when matching a lookbehind
 backwards

Inside a lookbehind the regex is matched right to left, but ^, $, \A and \Z kept
their left-to-right meaning, so (?<=^ab) could never match.
---
 include/mregex/ast/inversion.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/mregex/ast/inversion.hpp b/include/mregex/ast/inversion.hpp
index 6e0c7e6..fdaf94d 100644
--- a/include/mregex/ast/inversion.hpp
+++ b/include/mregex/ast/inversion.hpp
@@ -31,6 +31,31 @@ namespace meta::ast
         using type = decltype(detail::to_sequence(reverse_t<type_sequence<invert_t<Nodes> ...>>{}));
     };
 
+    // Anchors swap their roles because the input is traversed in the opposite direction
+    template<>
+    struct invert<beginning_of_line>
+    {
+        using type = end_of_line;
+    };
+
+    template<>
+    struct invert<end_of_line>
+    {
+        using type = beginning_of_line;
+    };
+
+    template<>
+    struct invert<beginning_of_input>
+    {
+        using type = end_of_input;
+    };
+
+    template<>
+    struct invert<end_of_input>
+    {
+        using type = beginning_of_input;
+    };
+
     template<typename Inner>
     struct invert<positive_lookahead<Inner>>
     {
-- 
2.43.0


From 5dae7652722bbde5f989104eb301f2dcb0722a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:27 +0000
Subject: [PATCH 05/17] fix: match lookarounds nested inside a lookbehind in
 their own direction

The inner regex of a nested lookaround was matched mirrored (or not mirrored when
it should be), so (?<=(?<=ab)c) and (?<=a(?=bc)) gave wrong answers, and captures
inside such lookarounds did not compile.
---
 .../ast/predicates/lookaround_predicate.hpp   | 35 +++++++++++++------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/include/mregex/ast/predicates/lookaround_predicate.hpp b/include/mregex/ast/predicates/lookaround_predicate.hpp
index 637a452..b714a0c 100644
--- a/include/mregex/ast/predicates/lookaround_predicate.hpp
+++ b/include/mregex/ast/predicates/lookaround_predicate.hpp
@@ -13,7 +13,11 @@ namespace meta::ast::predicates
         template<std::forward_iterator Iter, typename Context>
         static constexpr bool is_match(Iter begin, Iter end, Iter current, Context &ctx) noexcept
         {
-            auto inner_match = Inner::match(begin, end, current, ctx, continuations<Iter>::success);
+            // A reversed iterator means that this assertion was a lookbehind nested inside another lookbehind
+            constexpr bool is_reversed = !std::is_same_v<Iter, typename Context::iterator>;
+            using ast_type = typename std::conditional_t<is_reversed, invert<Inner>, std::type_identity<Inner>>::type;
+
+            auto inner_match = ast_type::match(begin, end, current, ctx, continuations<Iter>::success);
             return inner_match.matched;
         }
 
@@ -31,15 +35,26 @@ namespace meta::ast::predicates
         template<std::bidirectional_iterator Iter, typename Context>
         static constexpr bool is_match(Iter begin, Iter end, Iter current, Context &ctx) noexcept
         {
-            // For non-trivial nodes, the AST is inverted to match the regex backwards
-            using ast_type = invert_t<Inner>;
-            using iterator = std::reverse_iterator<Iter>;
-
-            auto rbegin = std::make_reverse_iterator(end); // Reversed end becomes new begin
-            auto rend = std::make_reverse_iterator(begin); // Reversed begin becomes new end
-            auto rcurrent = std::make_reverse_iterator(current);
-            auto result = ast_type::match(rbegin, rend, rcurrent, ctx, continuations<iterator>::success);
-            return result.matched;
+            if constexpr (std::is_same_v<Iter, typename Context::iterator>)
+            {
+                // For non-trivial nodes, the AST is inverted to match the regex backwards
+                using ast_type = invert_t<Inner>;
+                using iterator = std::reverse_iterator<Iter>;
+
+                auto rbegin = std::make_reverse_iterator(end); // Reversed end becomes new begin
+                auto rend = std::make_reverse_iterator(begin); // Reversed begin becomes new end
+                auto rcurrent = std::make_reverse_iterator(current);
+                auto result = ast_type::match(rbegin, rend, rcurrent, ctx, continuations<iterator>::success);
+                return result.matched;
+            }
+            else
+            {
+                // A reversed iterator means that this assertion was a lookahead nested inside a lookbehind
+                using iterator = typename Context::iterator;
+
+                auto result = Inner::match(end.base(), begin.base(), current.base(), ctx, continuations<iterator>::success);
+                return result.matched;
+            }
         }
 
         template<std::bidirectional_iterator Iter, typename Context>
-- 
2.43.0


From 7ee5cbc7d50ef002bbed464bbfc48eebec26ca12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:01 +0000
Subject: [PATCH 06/17] fix: discard captures made on an abandoned matching
 path

Atomic groups, possessive repetitions and lookarounds left their captures visible
after the regex backtracked past them, and negative lookarounds leaked the captures
of their inner regex.
---
 include/mregex/ast/capture_snapshot.hpp       | 42 +++++++++++++++++++
 include/mregex/ast/nodes/assertion.hpp        |  8 +++-
 .../nodes/quantifiers/fixed_repetition.hpp    | 15 ++++++-
 .../ast/nodes/quantifiers/repetition.hpp      | 15 ++++++-
 .../ast/predicates/lookaround_predicate.hpp   |  6 +++
 include/mregex/ast/predicates/negate.hpp      |  6 ++-
 6 files changed, 86 insertions(+), 6 deletions(-)
 create mode 100644 include/mregex/ast/capture_snapshot.hpp

diff --git a/include/mregex/ast/capture_snapshot.hpp b/include/mregex/ast/capture_snapshot.hpp
new file mode 100644
index 0000000..6fedb52
--- /dev/null
+++ b/include/mregex/ast/capture_snapshot.hpp
@@ -0,0 +1,42 @@
+#ifndef MREGEX_AST_CAPTURE_SNAPSHOT_HPP
+#define MREGEX_AST_CAPTURE_SNAPSHOT_HPP
+
+#include <mregex/ast/traits.hpp>
+
+namespace meta::ast
+{
+    /**
+     * Saves the state of the capturing groups before matching a node without backtracking into it.
+     * If the regex fails to match after the node was already matched, the content captured
+     * by the node must not be visible anymore and the saved state is restored.
+     *
+     * @tparam Node     The AST node that will be matched without backtracking
+     * @tparam Context  The type of the matching context
+     */
+    template<typename Node, typename Context>
+    struct capture_snapshot
+    {
+        constexpr explicit capture_snapshot(Context const &ctx) noexcept
+            : _captures{ctx.captures}
+        {}
+
+        constexpr void restore(Context &ctx) const noexcept
+        {
+            ctx.captures = _captures;
+        }
+
+    private:
+        decltype(Context::captures) _captures;
+    };
+
+    // Nodes without capturing groups do not have anything to restore
+    template<typename Node, typename Context>
+    requires (capture_count<Node> == 0)
+    struct capture_snapshot<Node, Context>
+    {
+        constexpr explicit capture_snapshot(Context const &) noexcept {}
+
+        constexpr void restore(Context &) const noexcept {}
+    };
+}
+#endif //MREGEX_AST_CAPTURE_SNAPSHOT_HPP
diff --git a/include/mregex/ast/nodes/assertion.hpp b/include/mregex/ast/nodes/assertion.hpp
index 5d634d3..a184721 100644
--- a/include/mregex/ast/nodes/assertion.hpp
+++ b/include/mregex/ast/nodes/assertion.hpp
@@ -1,6 +1,7 @@
 #ifndef MREGEX_NODES_ASSERTION_HPP
 #define MREGEX_NODES_ASSERTION_HPP
 
+#include <mregex/ast/capture_snapshot.hpp>
 #include <mregex/ast/match_result.hpp>
 #include <mregex/ast/traits.hpp>
 #include <mregex/utility/continuations.hpp>
@@ -23,8 +24,13 @@ namespace meta::ast
         static constexpr auto match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
         -> match_result<Iter>
         {
+            capture_snapshot<Predicate, Context> const snapshot{ctx};
             if (Predicate::is_match(begin, end, current, ctx))
-                return cont(current);
+            {
+                if (auto rest_match = cont(current))
+                    return rest_match;
+            }
+            snapshot.restore(ctx);
             return non_match(current);
         }
     };
diff --git a/include/mregex/ast/nodes/quantifiers/fixed_repetition.hpp b/include/mregex/ast/nodes/quantifiers/fixed_repetition.hpp
index e45f774..cda97ce 100644
--- a/include/mregex/ast/nodes/quantifiers/fixed_repetition.hpp
+++ b/include/mregex/ast/nodes/quantifiers/fixed_repetition.hpp
@@ -2,6 +2,7 @@
 #define MREGEX_NODES_FIXED_REPETITION_HPP
 
 #include <mregex/ast/nodes/terminals/empty.hpp>
+#include <mregex/ast/capture_snapshot.hpp>
 #include <mregex/ast/match_result.hpp>
 #include <mregex/ast/traits.hpp>
 #include <mregex/utility/continuations.hpp>
@@ -29,8 +30,13 @@ namespace meta::ast
         static constexpr auto possessive_match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
         -> match_result<Iter>
         {
+            capture_snapshot<Inner, Context> const snapshot{ctx};
             if (auto result = backtracking_match(begin, end, current, ctx, continuations<Iter>::success))
-                return cont(result.end);
+            {
+                if (auto rest_match = cont(result.end))
+                    return rest_match;
+            }
+            snapshot.restore(ctx);
             return non_match(current);
         }
 
@@ -142,8 +148,13 @@ namespace meta::ast
         static constexpr auto match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
         -> match_result<Iter>
         {
+            capture_snapshot<Inner, Context> const snapshot{ctx};
             if (auto inner_match = Inner::match(begin, end, current, ctx, continuations<Iter>::success))
-                return cont(inner_match.end);
+            {
+                if (auto rest_match = cont(inner_match.end))
+                    return rest_match;
+            }
+            snapshot.restore(ctx);
             return non_match(current);
         }
     };
diff --git a/include/mregex/ast/nodes/quantifiers/repetition.hpp b/include/mregex/ast/nodes/quantifiers/repetition.hpp
index ff5a6c8..b0f5059 100644
--- a/include/mregex/ast/nodes/quantifiers/repetition.hpp
+++ b/include/mregex/ast/nodes/quantifiers/repetition.hpp
@@ -2,6 +2,7 @@
 #define MREGEX_NODES_REPETITION_HPP
 
 #include <mregex/ast/astfwd.hpp>
+#include <mregex/ast/capture_snapshot.hpp>
 #include <mregex/ast/match_result.hpp>
 #include <mregex/ast/traits.hpp>
 #include <mregex/utility/continuations.hpp>
@@ -51,14 +52,24 @@ namespace meta::ast
         static constexpr auto bounded_possessive_match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
         -> match_result<Iter>
         {
+            capture_snapshot<Inner, Context> const snapshot{ctx};
             for (std::size_t match_count = 0; !symbol::equals<Bound>(match_count); ++match_count)
             {
+                capture_snapshot<Inner, Context> const iteration_snapshot{ctx};
                 auto inner_match = Inner::match(begin, end, current, ctx, continuations<Iter>::success);
-                if (!inner_match || will_loop_forever(current, inner_match.end))
+                if (!inner_match)
                     break;
+                if (will_loop_forever(current, inner_match.end))
+                {
+                    iteration_snapshot.restore(ctx);
+                    break;
+                }
                 current = inner_match.end;
             }
-            return cont(current);
+            if (auto rest_match = cont(current))
+                return rest_match;
+            snapshot.restore(ctx);
+            return non_match(current);
         }
 
         template<symbol::quantifier Bound, std::forward_iterator Iter, typename Context, match_continuation<Iter> Cont>
diff --git a/include/mregex/ast/predicates/lookaround_predicate.hpp b/include/mregex/ast/predicates/lookaround_predicate.hpp
index b714a0c..b7031ab 100644
--- a/include/mregex/ast/predicates/lookaround_predicate.hpp
+++ b/include/mregex/ast/predicates/lookaround_predicate.hpp
@@ -75,4 +75,10 @@ namespace meta::ast::predicates
     template<typename Inner>
     struct lookaround_predicate<lookaround_direction::behind, Inner> : lookbehind_predicate<Inner> {};
 }
+
+namespace meta::ast
+{
+    template<lookaround_direction Direction, typename Inner>
+    inline constexpr std::size_t capture_count<predicates::lookaround_predicate<Direction, Inner>> = capture_count<Inner>;
+}
 #endif //MREGEX_PREDICATES_LOOKAROUND_PREDICATE_HPP
\ No newline at end of file
diff --git a/include/mregex/ast/predicates/negate.hpp b/include/mregex/ast/predicates/negate.hpp
index b736e06..5eb5283 100644
--- a/include/mregex/ast/predicates/negate.hpp
+++ b/include/mregex/ast/predicates/negate.hpp
@@ -2,6 +2,7 @@
 #define MREGEX_PREDICATES_NEGATE_HPP
 
 #include <iterator>
+#include <mregex/ast/capture_snapshot.hpp>
 
 namespace meta::ast::predicates
 {
@@ -11,7 +12,10 @@ namespace meta::ast::predicates
         template<std::forward_iterator Iter, typename Context>
         static constexpr bool is_match(Iter begin, Iter end, Iter current, Context &ctx) noexcept
         {
-            return !Predicate::is_match(begin, end, current, ctx);
+            capture_snapshot<Predicate, Context> const snapshot{ctx};
+            bool const is_inner_match = Predicate::is_match(begin, end, current, ctx);
+            snapshot.restore(ctx);
+            return !is_inner_match;
         }
     };
 }
-- 
2.43.0


From b24f0f4d290cc3cd98b4b4e40c973eec1d93cb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:54 +0000
Subject: [PATCH 07/17] fix: do not build a range from the line break class
 inside a set

[\R-a] was parsed as the range \n to a; like for the other classes, the dash is
now a literal.
---
 include/mregex/ast/build.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/mregex/ast/build.hpp b/include/mregex/ast/build.hpp
index 7e0fc85..01d115d 100644
--- a/include/mregex/ast/build.hpp
+++ b/include/mregex/ast/build.hpp
@@ -217,6 +217,13 @@ namespace meta::ast
         using type = type_sequence<set<First ..., Second ...>, Rest ...>;
     };
 
+    // If the set starts with a literal, it is not flattened because that literal must not become the start of a range
+    template<typename Token, char C, typename... First, typename... Second, typename... Rest>
+    struct build<symbol::make_set_from_stack, Token, type_sequence<set<literal<C>, First ...>, set<Second ...>, Rest ...>>
+    {
+        using type = type_sequence<set<set<literal<C>, First ...>, Second ...>, Rest ...>;
+    };
+
     // Create a range inside the set
     template<char A, char B, typename... Second, typename... Rest>
     struct build<symbol::make_range, symbol::character<A>, type_sequence<set<literal<B>, Second ...>, Rest ...>>
-- 
2.43.0


From 15b087bf18cb6ffec37d9c523bd5877c3ea2042c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:35 +0000
Subject: [PATCH 08/17] fix: keep operator precedence after a literal curly
 brace

Recovering from an aborted quantifier nested the rest of the pattern, so ba{|c was
parsed as b(?:a{|c) instead of (?:ba{)|c.
---
 include/mregex/grammar/quantifiers.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/mregex/grammar/quantifiers.hpp b/include/mregex/grammar/quantifiers.hpp
index 254146e..07076ba 100644
--- a/include/mregex/grammar/quantifiers.hpp
+++ b/include/mregex/grammar/quantifiers.hpp
@@ -22,9 +22,7 @@ namespace meta::grammar
                 <
                     symbol::push_literal<C>,
                     symbol::mod,
-                    symbol::make_sequence,
-                    symbol::seq,
-                    symbol::alt
+                    symbol::make_sequence
                 >;
     };
 
-- 
2.43.0


From 8c82be78687df0bf55883a49ba2cf56ca86015f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:45 +0000
Subject: [PATCH 09/17] fix: allow backreferences on forward-only iterators

Only lookbehinds read the input backwards, yet every backreference required a
bidirectional range and did not compile for inputs like std::forward_list.
---
 include/mregex/ast/nodes/terminals/backref.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mregex/ast/nodes/terminals/backref.hpp b/include/mregex/ast/nodes/terminals/backref.hpp
index badc6f1..685a929 100644
--- a/include/mregex/ast/nodes/terminals/backref.hpp
+++ b/include/mregex/ast/nodes/terminals/backref.hpp
@@ -59,7 +59,7 @@ namespace meta::ast
         }
 
     private:
-        template<bool Condition, std::ranges::bidirectional_range Range>
+        template<bool Condition, std::ranges::forward_range Range>
         static constexpr auto reverse_if(Range &range) noexcept
         {
             if constexpr (Condition)
-- 
2.43.0


From 916e92fd83580d3b2236c251765dfb255c26629a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:55 +0000
Subject: [PATCH 10/17] fix: match multiline ^ on forward-only iterators

The previous character was read with std::prev, which is undefined (it never
returned) for iterators that cannot be decremented.
---
 .../mregex/ast/predicates/anchor_predicates.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/mregex/ast/predicates/anchor_predicates.hpp b/include/mregex/ast/predicates/anchor_predicates.hpp
index 7b58fa1..391c00d 100644
--- a/include/mregex/ast/predicates/anchor_predicates.hpp
+++ b/include/mregex/ast/predicates/anchor_predicates.hpp
@@ -16,11 +16,26 @@ namespace meta::ast::predicates
                 return true;
             if constexpr (Mode == line_mode::multiline && Context::flags::multiline)
             {
-                if (linebreak::match_one(*std::prev(current), ctx))
+                if (linebreak::match_one(*previous(begin, current), ctx))
                     return true;
             }
             return false;
         }
+
+    private:
+        template<std::forward_iterator Iter>
+        static constexpr auto previous(Iter begin, Iter current) noexcept -> Iter
+        {
+            if constexpr (std::bidirectional_iterator<Iter>)
+                return std::prev(current);
+            else
+            {
+                // A forward-only iterator cannot be decremented, the position is found starting from the beginning
+                while (std::next(begin) != current)
+                    ++begin;
+                return begin;
+            }
+        }
     };
 
     template<line_mode Mode>
-- 
2.43.0


From 9a5c79ca589eefefa3884c9e9847cac10862fed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:02 +0000
Subject: [PATCH 11/17] fix: make the post-increment of result range iterators
 compile

---
 include/mregex/utility/input_range_adapter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mregex/utility/input_range_adapter.hpp b/include/mregex/utility/input_range_adapter.hpp
index e85fbba..acdcf00 100644
--- a/include/mregex/utility/input_range_adapter.hpp
+++ b/include/mregex/utility/input_range_adapter.hpp
@@ -65,7 +65,7 @@ namespace meta
 
             constexpr iterator operator++(int) noexcept(is_nothrow_invocable)
             {
-                iterator old_iter{_target};
+                iterator old_iter{*_target};
                 this->operator++();
                 return old_iter;
             }
-- 
2.43.0


From ca6c76616a36ba73662b3cb193a7a6cdc9ecc1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:08 +0000
Subject: [PATCH 12/17] fix: move the content out of an expiring capture

The const overload did not compile and the other one returned an lvalue reference.
---
 include/mregex/regex_capture.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mregex/regex_capture.hpp b/include/mregex/regex_capture.hpp
index d5ed574..c386333 100644
--- a/include/mregex/regex_capture.hpp
+++ b/include/mregex/regex_capture.hpp
@@ -172,12 +172,12 @@ namespace meta
 
         auto &&content() && noexcept
         {
-            return _capture;
+            return std::move(_capture);
         }
 
         auto const &&content() const && noexcept
         {
-            return _capture;
+            return std::move(_capture);
         }
 
         auto &operator[](std::size_t index) noexcept
-- 
2.43.0


From b49223853214eb5d78b05f2dd39773796a31b7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:24 +0000
Subject: [PATCH 13/17] fix: convert a capture to true when it has content

The boolean conversion was inverted: an empty capture was true and a non-empty
one was false.
---
 include/mregex/regex_capture.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mregex/regex_capture.hpp b/include/mregex/regex_capture.hpp
index c386333..a66fb14 100644
--- a/include/mregex/regex_capture.hpp
+++ b/include/mregex/regex_capture.hpp
@@ -101,7 +101,7 @@ namespace meta
 
         constexpr explicit operator bool() const noexcept
         {
-            return is_empty();
+            return !is_empty();
         }
 
         constexpr explicit(false) operator std::string_view() const noexcept
@@ -192,7 +192,7 @@ namespace meta
 
         explicit operator bool() const noexcept
         {
-            return is_empty();
+            return !is_empty();
         }
 
         explicit(false) operator std::string_view() const noexcept
-- 
2.43.0


From ac19e85bbcd156d6d0be67cc25fe529d56e89b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:03 +0000
Subject: [PATCH 14/17] fix: report an empty capture over a std::list without
 crashing

The length and content of a capture that did not take part in a match were
computed with std::distance on value-initialized iterators, which crashes for
std::list iterators.
---
 include/mregex/regex_capture.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/mregex/regex_capture.hpp b/include/mregex/regex_capture.hpp
index a66fb14..bcf8ad6 100644
--- a/include/mregex/regex_capture.hpp
+++ b/include/mregex/regex_capture.hpp
@@ -66,7 +66,8 @@ namespace meta
 
         constexpr auto length() const noexcept -> std::size_t
         {
-            return std::distance(_begin, _end);
+            // Value-initialized iterators can only be compared
+            return is_empty() ? 0 : std::distance(_begin, _end);
         }
 
         constexpr auto begin() const noexcept
@@ -84,7 +85,7 @@ namespace meta
             if constexpr (is_contiguous_view)
                 return std::string_view{_begin, _end};
             else
-                return std::string{_begin, _end};
+                return is_empty() ? std::string{} : std::string{_begin, _end};
         }
 
         constexpr auto &operator[](std::size_t index) noexcept
@@ -127,7 +128,7 @@ namespace meta
 
         template<std::forward_iterator Iter>
         explicit regex_capture(regex_capture_view<Iter, Name> const &capture_view)
-            : _capture{capture_view.begin(), capture_view.end()}
+            : _capture{capture_view.content()}
         {}
 
         bool is_empty() const noexcept
-- 
2.43.0


From 67b7be1c8d004dc871d12fd580eb5edaee00bc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:14 +0000
Subject: [PATCH 15/17] fix: report a syntax error for a pattern that ends
 right after a group modifier

Patterns such as (?= or (?<name> made the parser build a node from an empty
stack, which is a hard error inside the library instead of a syntax error.
---
 include/mregex/grammar/grammar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mregex/grammar/grammar.hpp b/include/mregex/grammar/grammar.hpp
index fe73b06..0aaba67 100644
--- a/include/mregex/grammar/grammar.hpp
+++ b/include/mregex/grammar/grammar.hpp
@@ -574,7 +574,7 @@ namespace meta::grammar
     template<>
     struct rule<symbol::group_begin, symbol::empty>
     {
-        using type = ignore;
+        using type = reject;
     };
 
     template<>
-- 
2.43.0


From 887161566a257b8697544cd3685d08746041a999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:19 +0000
Subject: [PATCH 16/17] fix: step back through input whose iterators are not
 legacy bidirectional iterators

Views that return their elements by value have bidirectional iterators with
the legacy category input_iterator_tag. std::prev does not accept these: in
libstdc++ it never ends. Lookbehinds, word boundaries and line anchors
therefore hung on such input.
---
 include/mregex/ast/predicates/anchor_predicates.hpp    | 4 ++--
 include/mregex/ast/predicates/lookaround_predicate.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mregex/ast/predicates/anchor_predicates.hpp b/include/mregex/ast/predicates/anchor_predicates.hpp
index 391c00d..a4f7a3b 100644
--- a/include/mregex/ast/predicates/anchor_predicates.hpp
+++ b/include/mregex/ast/predicates/anchor_predicates.hpp
@@ -27,7 +27,7 @@ namespace meta::ast::predicates
         static constexpr auto previous(Iter begin, Iter current) noexcept -> Iter
         {
             if constexpr (std::bidirectional_iterator<Iter>)
-                return std::prev(current);
+                return std::ranges::prev(current);
             else
             {
                 // A forward-only iterator cannot be decremented, the position is found starting from the beginning
@@ -60,7 +60,7 @@ namespace meta::ast::predicates
         template<std::bidirectional_iterator Iter, typename Context>
         static constexpr bool is_match(Iter begin, Iter end, Iter current, Context &ctx) noexcept
         {
-            bool is_word_behind = current != begin && word::match_one(*std::prev(current), ctx);
+            bool is_word_behind = current != begin && word::match_one(*std::ranges::prev(current), ctx);
             bool is_word_ahead = current != end && word::match_one(*current, ctx);
             return is_word_behind ^ is_word_ahead;
         }
diff --git a/include/mregex/ast/predicates/lookaround_predicate.hpp b/include/mregex/ast/predicates/lookaround_predicate.hpp
index b7031ab..0885993 100644
--- a/include/mregex/ast/predicates/lookaround_predicate.hpp
+++ b/include/mregex/ast/predicates/lookaround_predicate.hpp
@@ -62,7 +62,7 @@ namespace meta::ast::predicates
         requires is_trivially_matchable<Inner>
         {
             // For trivially matchable nodes, a single step backwards is enough
-            return current != begin && Inner::match_one(*std::prev(current), ctx);
+            return current != begin && Inner::match_one(*std::ranges::prev(current), ctx);
         }
     };
 
-- 
2.43.0


From 94fcc910d31a2a8990d5ffe17d01e98ee5425d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:19 +0000
Subject: [PATCH 17/17] fix: let contiguous input of bytes other than char be
 matched

Input of std::vector<unsigned char> or std::u8string satisfies char_range, but
the captures treated every contiguous range as a std::string_view, so that no
program which uses a result compiled.
---
 include/mregex/regex_capture.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mregex/regex_capture.hpp b/include/mregex/regex_capture.hpp
index bcf8ad6..fc8e1f0 100644
--- a/include/mregex/regex_capture.hpp
+++ b/include/mregex/regex_capture.hpp
@@ -46,7 +46,7 @@ namespace meta
     template<std::forward_iterator Iter, typename Name = symbol::unnamed>
     struct regex_capture_view : regex_capture_base<Name>
     {
-        static constexpr bool is_contiguous_view = std::contiguous_iterator<Iter>;
+        static constexpr bool is_contiguous_view = std::contiguous_iterator<Iter> && std::is_same_v<std::iter_value_t<Iter>, char>;
 
         constexpr regex_capture_view() noexcept = default;
 
@@ -106,7 +106,7 @@ namespace meta
         }
 
         constexpr explicit(false) operator std::string_view() const noexcept
-        requires std::contiguous_iterator<Iter>
+        requires is_contiguous_view
         {
             return {_begin, _end};
         }
-- 
2.43.0

