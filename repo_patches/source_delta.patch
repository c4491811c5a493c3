From b0cbf7f60ffaab12736b1f76770f22b261033eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:51 +0000
Subject: [PATCH 01/24] fix: FOLLOW sets miss FIRST of elements after a
 nullable element

For X -> Y1 Y2 Y3 with Y2 nullable, FIRST(Y3) was never added to
FOLLOW(Y1), so FIRST/FOLLOW conflicts went unreported and literal
recovery did not see tokens that can follow.
---
 packages/teleparse/src/syntax/follow/builder.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/packages/teleparse/src/syntax/follow/builder.rs b/packages/teleparse/src/syntax/follow/builder.rs
index 3325f38..b1fc2ef 100644
--- a/packages/teleparse/src/syntax/follow/builder.rs
+++ b/packages/teleparse/src/syntax/follow/builder.rs
@@ -65,10 +65,16 @@ impl<'a, L: Lexicon> FollowBuilder<'a, L> {
             ));
             set.insert(*yi);
         }
-        for yi in sequence.windows(2).rev() {
-            // for X -> Y1 Y2 ... Yi Yi+1 ... Yn
-            // FOLLOW(Yi) = FOLLOW(Yi) U (FIRST(Yi+1) - { epsilon })
-            self.add(FollowRel::union_first_minus_epsilon(yi[0], yi[1]));
+        for (i, yi) in sequence.iter().enumerate() {
+            // for X -> Y1 Y2 ... Yi Yi+1 ... Yj ... Yn
+            // if Yi+1 ... Yj-1 all has epsilon in FIRST (or if j = i+1),
+            // FOLLOW(Yi) = FOLLOW(Yi) U (FIRST(Yj) - { epsilon })
+            for yj in &sequence[i + 1..] {
+                self.add(FollowRel::union_first_minus_epsilon(*yi, *yj));
+                if !self.first.get(yj).contains_epsilon() {
+                    break;
+                }
+            }
         }
     }
 
-- 
2.43.0


From f3bd7e1792e718d8bc31a83b6ba0f1eaf4eee377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:02 +0000
Subject: [PATCH 02/24] fix: enum variant that can be empty is only chosen at
 end of input

The jump table only registered the nullable variant for EOF, so a token
in FOLLOW of the enum made the parser panic on valid input.
---
 packages/teleparse/src/syntax/metadata.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/packages/teleparse/src/syntax/metadata.rs b/packages/teleparse/src/syntax/metadata.rs
index d81bf19..e5b89ae 100644
--- a/packages/teleparse/src/syntax/metadata.rs
+++ b/packages/teleparse/src/syntax/metadata.rs
@@ -79,7 +79,7 @@ impl<L: Lexicon> MetadataBuilder<L> {
         check_conflicts(&names, &prods, root, &mut seen, &first, &follow)?;
         let mut jump = Jump::new();
         seen.clear();
-        build_jump(&prods, root, &mut seen, &first, &mut jump);
+        build_jump(&prods, root, &mut seen, &first, &follow, &mut jump);
         Ok(Metadata {
             names,
             first,
@@ -307,6 +307,7 @@ fn build_jump<L: Lexicon>(
     t: TypeId,
     seen: &mut BTreeSet<TypeId>,
     first: &First<L>,
+    follow: &Follow<L>,
     jump: &mut Jump<L>,
 ) {
     if !seen.insert(t) {
@@ -317,14 +318,20 @@ fn build_jump<L: Lexicon>(
         Some(ProductionEntry::Terminal) => {}
         Some(ProductionEntry::Sequence(types)) => {
             for inner in types.iter() {
-                build_jump(prods, *inner, seen, first, jump);
+                build_jump(prods, *inner, seen, first, follow, jump);
             }
         }
         Some(ProductionEntry::Union(types)) => {
             for (i, inner) in types.iter().enumerate() {
                 let first_set = first.get(inner);
                 jump.register(t, first_set, i);
-                build_jump(prods, *inner, seen, first, jump);
+                if first_set.contains_epsilon() {
+                    // the variant that can be empty is also chosen
+                    // when the next token is in FOLLOW(t)
+                    let follow_set = follow.get(&t).as_terminal_set().clone();
+                    jump.register(t, &follow_set.into(), i);
+                }
+                build_jump(prods, *inner, seen, first, follow, jump);
             }
         }
     }
-- 
2.43.0


From 2454a246d3e1abb5409999e720074237373522c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 03/24] fix: semantic-only variants shift the lexer rules of
 later variants

A variant without rules pushed an empty attribute list but no lexer
variant, so declaring one before a lexed variant gave every later token
type the rules of its predecessor.
---
 packages/macros/src/lexicon.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/macros/src/lexicon.rs b/packages/macros/src/lexicon.rs
index 8e27db6..95afe0f 100644
--- a/packages/macros/src/lexicon.rs
+++ b/packages/macros/src/lexicon.rs
@@ -265,7 +265,10 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
                     #[token(#lit)]
                 });
             }
-            lex_variant_derived_attrs.push(token_attr);
+            // semantic only variants are not in the lexer
+            if !token_attr.is_empty() {
+                lex_variant_derived_attrs.push(token_attr);
+            }
         }
     }
     // variants size checked when determining repr
-- 
2.43.0


From d8c1bbe855a03f5bc76af76131f5d8e90313094b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:50 +0000
Subject: [PATCH 04/24] fix: bit sets of lexicons with more than 32 variants
 overflow

The literal 1 was shifted as i32 before the cast, so variant 31 set all
upper bits and variants from 32 on overflowed.
---
 packages/macros/src/lexicon.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/macros/src/lexicon.rs b/packages/macros/src/lexicon.rs
index 95afe0f..dd1c913 100644
--- a/packages/macros/src/lexicon.rs
+++ b/packages/macros/src/lexicon.rs
@@ -58,6 +58,12 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
         _ => syn_error!(input, "derive_lexicon can have at most 128 variants"),
     };
 
+    // the shift needs to be done in the bit type if it's wider than i32
+    let bit_one = match enum_data.variants.len() {
+        ..=32 => quote!(1),
+        _ => quote!((1 as Self::Bit)),
+    };
+
     let enum_ident = &input.ident;
     let enum_vis = &input.vis;
 
@@ -307,7 +313,7 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
 
                 fn id(&self) -> usize { *self as usize }
                 fn from_id_unchecked(id: usize) -> Self { unsafe { std::mem::transmute(id) } }
-                fn to_bit(&self) -> Self::Bit { (1 << self.id()) as Self::Bit }
+                fn to_bit(&self) -> Self::Bit { (#bit_one << self.id()) as Self::Bit }
                 fn first() -> Self { Self::#enum_first_variant }
 
                 fn next(&self) -> ::core::option::Option<Self> {
-- 
2.43.0


From 10ac6b3e896f5440d95a40bc98890d3984794b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:21 +0000
Subject: [PATCH 05/24] fix: left recursion is never reported

The check returned early for every production it had already seen, so it
could not reach one that is on the current stack. Elements that are not
leftmost now start a new stack after the current one is done. It runs
after the conflict checks, which have more specific messages.
---
 packages/teleparse/src/syntax/metadata.rs | 104 ++++++----------------
 1 file changed, 25 insertions(+), 79 deletions(-)

diff --git a/packages/teleparse/src/syntax/metadata.rs b/packages/teleparse/src/syntax/metadata.rs
index e5b89ae..809beaf 100644
--- a/packages/teleparse/src/syntax/metadata.rs
+++ b/packages/teleparse/src/syntax/metadata.rs
@@ -56,12 +56,6 @@ impl<L: Lexicon> MetadataBuilder<L> {
         let names = self.names;
         let prods = self.productions;
         let first = self.first_builder.build();
-        let mut seen = BTreeSet::new();
-        let mut set = BTreeSet::new();
-        let mut stack = Vec::new();
-        check_left_recursive(
-            &names, &prods, root, &mut seen, &mut set, &mut stack, &first,
-        )?;
         let mut follow_builder = FollowBuilder::new(&first);
         for (t, prod) in &prods {
             match prod {
@@ -75,8 +69,14 @@ impl<L: Lexicon> MetadataBuilder<L> {
             }
         }
         let follow = follow_builder.build(root);
-        seen.clear();
+        let mut seen = BTreeSet::new();
         check_conflicts(&names, &prods, root, &mut seen, &first, &follow)?;
+        seen.clear();
+        let mut stack = Vec::new();
+        let mut rest = vec![root];
+        while let Some(t) = rest.pop() {
+            check_left_recursive(&names, &prods, t, &mut seen, &mut stack, &mut rest, &first)?;
+        }
         let mut jump = Jump::new();
         seen.clear();
         build_jump(&prods, root, &mut seen, &first, &follow, &mut jump);
@@ -93,14 +93,11 @@ fn check_left_recursive<L: Lexicon>(
     prods: &BTreeMap<TypeId, ProductionEntry>,
     t: TypeId,
     seen: &mut BTreeSet<TypeId>,
-    set: &mut BTreeSet<TypeId>,
     stack: &mut Vec<TypeId>,
+    rest: &mut Vec<TypeId>,
     first: &First<L>,
 ) -> Result<(), GrammarError> {
-    if !seen.insert(t) {
-        return Ok(());
-    }
-    if !set.insert(t) {
+    if stack.contains(&t) {
         let stack = stack
             .iter()
             .map(|t| names.get(t).map(|x| x.as_str()).unwrap_or_default())
@@ -108,83 +105,32 @@ fn check_left_recursive<L: Lexicon>(
         let current = names.get(&t).map(|x| x.as_str()).unwrap_or_default();
         return Err(GrammarError::left_recursion(&stack, current));
     }
+    if !seen.insert(t) {
+        return Ok(());
+    }
+    stack.push(t);
     match prods.get(&t) {
-        None => {
-            set.remove(&t);
-        }
-        Some(ProductionEntry::Terminal) => {
-            set.remove(&t);
-        }
+        None => {}
+        Some(ProductionEntry::Terminal) => {}
         Some(ProductionEntry::Union(types)) => {
-            stack.push(t);
             for inner in types.iter() {
-                let result = check_left_recursive(names, prods, *inner, seen, set, stack, first);
-                if let Err(e) = result {
-                    stack.pop();
-                    set.remove(&t);
-                    return Err(e);
-                }
+                check_left_recursive(names, prods, *inner, seen, stack, rest, first)?;
             }
-            stack.pop();
-            set.remove(&t);
         }
         Some(ProductionEntry::Sequence(types)) => {
-            stack.push(t);
-            let mut iter = types.iter();
-            let inner_first = match iter.next() {
-                Some(inner) => inner,
-                None => {
-                    stack.pop();
-                    set.remove(&t);
-                    return Ok(());
-                }
-            };
-            let result = check_left_recursive(names, prods, *inner_first, seen, set, stack, first);
-            if let Err(e) = result {
-                stack.pop();
-                set.remove(&t);
-                return Err(e);
-            }
-            let mut temp_stack = Vec::new();
-            let mut temp_set = BTreeSet::new();
-
-            let (mut cur_stack, mut cur_set, mut need_pop) =
-                if first.get(inner_first).contains_epsilon() {
-                    (stack, set, true)
-                } else {
-                    stack.pop();
-                    set.remove(&t);
-                    (&mut temp_stack, &mut temp_set, false)
-                };
-
-            for inner in iter {
-                let result =
-                    check_left_recursive(names, prods, *inner, seen, cur_set, cur_stack, first);
-                if let Err(e) = result {
-                    if need_pop {
-                        cur_stack.pop();
-                        cur_set.remove(&t);
-                    }
-                    return Err(e);
+            let mut leftmost = true;
+            for inner in types.iter() {
+                if !leftmost {
+                    // not at the left, so it starts a new stack
+                    rest.push(*inner);
+                    continue;
                 }
-                if !first.get(inner).contains_epsilon() {
-                    if need_pop {
-                        cur_stack.pop();
-                        cur_set.remove(&t);
-                    }
-                    temp_stack.clear();
-                    temp_set.clear();
-                    cur_stack = &mut temp_stack;
-                    cur_set = &mut temp_set;
-                    need_pop = false;
-                };
-            }
-            if need_pop {
-                cur_stack.pop();
-                cur_set.remove(&t);
+                check_left_recursive(names, prods, *inner, seen, stack, rest, first)?;
+                leftmost = first.get(inner).contains_epsilon();
             }
         }
     }
+    stack.pop();
 
     Ok(())
 }
-- 
2.43.0


From d1fb0049a1efa923a97f13f506c5b0037041c69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:17 +0000
Subject: [PATCH 06/24] fix: Split stops early when the delimiter is optional

Split<T, P> => T Star<(P, T)>, so with a nullable P the next T also
continues the list, but the list ended unless the next token was in
FIRST(P).
---
 packages/teleparse/src/tp_impl/split.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/teleparse/src/tp_impl/split.rs b/packages/teleparse/src/tp_impl/split.rs
index 90f543a..bbd8f57 100644
--- a/packages/teleparse/src/tp_impl/split.rs
+++ b/packages/teleparse/src/tp_impl/split.rs
@@ -98,7 +98,9 @@ where
             if token.is_none() {
                 break;
             }
-            if !punct_first.contains(token) {
+            // if P can be empty, the next T also starts another (P, T)
+            let can_omit_punct = punct_first.contains_epsilon() && elem_first.contains(token);
+            if !punct_first.contains(token) && !can_omit_punct {
                 break;
             }
             // expecting P
-- 
2.43.0


From 1b0ea928583ca4bfcdd2aa6e5b210d619bbc460f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:26 +0000
Subject: [PATCH 07/24] fix: clearing a terminal set keeps any-content entries

A set that contains all literals of a token type was not emptied by clear(),
so grammars such as (Option<Ident>, Semi, Ident) were rejected with a
FIRST/FOLLOW conflict that does not exist.
---
 packages/teleparse/src/syntax/lit_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/teleparse/src/syntax/lit_set.rs b/packages/teleparse/src/syntax/lit_set.rs
index 299dbda..d787ccd 100644
--- a/packages/teleparse/src/syntax/lit_set.rs
+++ b/packages/teleparse/src/syntax/lit_set.rs
@@ -49,7 +49,7 @@ impl LitSet {
     pub fn clear(&mut self) {
         match self {
             Self::Match(set) => set.clear(),
-            Self::Any => {}
+            Self::Any => *self = Self::default(),
         }
     }
 
-- 
2.43.0


From cc2f5ddac4cf1e3a73201bacd307d94b464ae6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:13 +0000
Subject: [PATCH 08/24] fix: sequence conflicts name an element that is not in
 conflict

The FIRST/FOLLOW error of a sequence named an element that cannot be empty
or does not start with the listed terminals, e.g. 'x' for S -> x y? y.
---
 packages/teleparse/src/syntax/metadata.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/packages/teleparse/src/syntax/metadata.rs b/packages/teleparse/src/syntax/metadata.rs
index 809beaf..2c31e06 100644
--- a/packages/teleparse/src/syntax/metadata.rs
+++ b/packages/teleparse/src/syntax/metadata.rs
@@ -184,7 +184,7 @@ fn check_conflicts<L: Lexicon>(
         }
         Some(ProductionEntry::Sequence(types)) => {
             let mut iter = types.iter();
-            let mut cur = match iter.next() {
+            let cur = match iter.next() {
                 Some(inner) => inner,
                 None => return Ok(()),
             };
@@ -194,13 +194,19 @@ fn check_conflicts<L: Lexicon>(
             } else {
                 FirstSet::new()
             };
-            for inner in iter {
+            for (i, inner) in iter.enumerate() {
                 let next_first = first.get(inner);
                 if cur_check.intersects_minus_epsilon(next_first) {
+                    // find which one is conflicting
+                    let cur = types[..=i]
+                        .iter()
+                        .rfind(|x| first.get(x).intersects_minus_epsilon(next_first))
+                        .unwrap_or(inner);
                     let cur_name = names.get(cur).cloned().unwrap_or_default();
                     let next_name = names.get(inner).cloned().unwrap_or_default();
                     let self_name = names.get(&t).cloned().unwrap_or_default();
-                    let terminals = cur_check
+                    let terminals = first
+                        .get(cur)
                         .intersection_repr_minus_epsilon(next_first)
                         .into_iter()
                         .join(", ");
@@ -212,7 +218,6 @@ fn check_conflicts<L: Lexicon>(
                     cur_check.union_minus_epsilon(next_first);
                 } else {
                     cur_check.clear();
-                    cur = inner;
                 }
             }
             check_self_first_follow_conflict(names, t, first, follow)?;
-- 
2.43.0


From 358bf5e87420e392635aff977dcb396bcdcd605e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:22 +0000
Subject: [PATCH 09/24] fix: Recover fails without an error when the input ends
 before its terminator

---
 packages/teleparse/src/tp_impl/recover.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/teleparse/src/tp_impl/recover.rs b/packages/teleparse/src/tp_impl/recover.rs
index 850fac1..c6a6aaf 100644
--- a/packages/teleparse/src/tp_impl/recover.rs
+++ b/packages/teleparse/src/tp_impl/recover.rs
@@ -75,6 +75,9 @@ where
                         }
                     };
                 }
+                if panic.is_none() {
+                    panic = Some(parser.expecting(tail_first.clone()));
+                }
                 break None;
             }
             if tail_first.contains(token) || tail_first.contains_epsilon() {
-- 
2.43.0


From df68dac9fac852e35073a5c302b83f7db220c3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:05 +0000
Subject: [PATCH 10/24] fix: recovery drops the errors a failed item reported
 before it stopped

---
 packages/teleparse/src/tp_impl/punct.rs   |  9 +++++----
 packages/teleparse/src/tp_impl/recover.rs | 24 ++++++++++++++---------
 packages/teleparse/src/tp_impl/split.rs   |  9 +++++----
 3 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/packages/teleparse/src/tp_impl/punct.rs b/packages/teleparse/src/tp_impl/punct.rs
index 613493d..0cd3061 100644
--- a/packages/teleparse/src/tp_impl/punct.rs
+++ b/packages/teleparse/src/tp_impl/punct.rs
@@ -182,12 +182,13 @@ where
                             errors.extend(e);
                             continue 'outer;
                         }
-                        SynResult::Panic(e) => {
-                            if let Some(e) = e.into_iter().next_back() {
+                        SynResult::Panic(mut e) => {
+                            if let Some(last) = e.pop() {
                                 if let Some(p) = &mut panic {
-                                    p.span.hi = e.span.hi;
+                                    p.span.hi = last.span.hi;
                                 } else {
-                                    panic = Some(e);
+                                    errors.extend(e);
+                                    panic = Some(last);
                                 }
                             }
                         }
diff --git a/packages/teleparse/src/tp_impl/recover.rs b/packages/teleparse/src/tp_impl/recover.rs
index c6a6aaf..cf8f080 100644
--- a/packages/teleparse/src/tp_impl/recover.rs
+++ b/packages/teleparse/src/tp_impl/recover.rs
@@ -46,7 +46,11 @@ where
                         errors.extend(e);
                         (None, x.span(), Some(x))
                     }
-                    SynResult::Panic(e) => (e.into_iter().next_back(), parser.empty_span(), None),
+                    SynResult::Panic(mut e) => {
+                        let last = e.pop();
+                        errors.extend(e);
+                        (last, parser.empty_span(), None)
+                    }
                 }
             } else {
                 let e = parser.expecting(head_first.clone());
@@ -63,12 +67,13 @@ where
                             errors.extend(e);
                             Some(x)
                         }
-                        SynResult::Panic(e) => {
-                            if let Some(e) = e.into_iter().next_back() {
+                        SynResult::Panic(mut e) => {
+                            if let Some(last) = e.pop() {
                                 if let Some(p) = &mut panic {
-                                    p.span.hi = e.span.hi;
+                                    p.span.hi = last.span.hi;
                                 } else {
-                                    panic = Some(e);
+                                    errors.extend(e);
+                                    panic = Some(last);
                                 }
                             }
                             None
@@ -87,12 +92,13 @@ where
                         errors.extend(e);
                         break Some(x);
                     }
-                    SynResult::Panic(e) => {
-                        if let Some(e) = e.into_iter().next_back() {
+                    SynResult::Panic(mut e) => {
+                        if let Some(last) = e.pop() {
                             if let Some(p) = &mut panic {
-                                p.span.hi = e.span.hi;
+                                p.span.hi = last.span.hi;
                             } else {
-                                panic = Some(e);
+                                errors.extend(e);
+                                panic = Some(last);
                             }
                         }
                     }
diff --git a/packages/teleparse/src/tp_impl/split.rs b/packages/teleparse/src/tp_impl/split.rs
index bbd8f57..c222a24 100644
--- a/packages/teleparse/src/tp_impl/split.rs
+++ b/packages/teleparse/src/tp_impl/split.rs
@@ -138,12 +138,13 @@ where
                             }
                             continue 'outer;
                         }
-                        SynResult::Panic(e) => {
-                            if let Some(e) = e.into_iter().next_back() {
+                        SynResult::Panic(mut e) => {
+                            if let Some(last) = e.pop() {
                                 if let Some(p) = &mut panic {
-                                    p.span.hi = e.span.hi;
+                                    p.span.hi = last.span.hi;
                                 } else {
-                                    panic = Some(e);
+                                    errors.extend(e);
+                                    panic = Some(last);
                                 }
                             }
                         }
-- 
2.43.0


From ba39026ead15416bf4fee75f8eeff3205a5e0d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:17 +0000
Subject: [PATCH 11/24] fix: a literal filled in at the end of input gives its
 node an inverted span

---
 packages/teleparse/src/parser/parser_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/teleparse/src/parser/parser_impl.rs b/packages/teleparse/src/parser/parser_impl.rs
index d136e45..b9757e1 100644
--- a/packages/teleparse/src/parser/parser_impl.rs
+++ b/packages/teleparse/src/parser/parser_impl.rs
@@ -138,7 +138,7 @@ impl<'s, L: Lexicon> Parser<'s, L> {
             None => {
                 if follow.contains_eof() {
                     let expecting = FirstSet::one(ty, Some(match_lit));
-                    let token = Token::new(self.current_span(), ty);
+                    let token = Token::new(self.empty_span(), ty);
                     return SynResult::Recovered(token, vec![self.expecting(expecting)]);
                 }
                 return SynResult::Panic(vec![self.unexpected_eof()]);
-- 
2.43.0


From af1403aa23f9e6cfe44c138db63d17b872fa24c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:20 +0000
Subject: [PATCH 12/24] fix: lexicons with more than 32 variants do not compile

---
 packages/macros/src/lexicon.rs    |  8 +++++++-
 packages/teleparse/src/lex/map.rs | 26 ++++++++++++++++++++++++++
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/packages/macros/src/lexicon.rs b/packages/macros/src/lexicon.rs
index dd1c913..550551a 100644
--- a/packages/macros/src/lexicon.rs
+++ b/packages/macros/src/lexicon.rs
@@ -281,6 +281,12 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
     let enum_len = enum_data.variants.len();
     let enum_first_variant = &enum_data.variants.first().unwrap().ident;
     let enum_last_variant = &enum_data.variants.last().unwrap().ident;
+    // the standard library only implements Default for arrays of up to 32 items
+    let map_ty = if enum_len <= 32 {
+        quote! { [T; #enum_len] }
+    } else {
+        quote! { #teleparse::lex::LargeMap<T, #enum_len> }
+    };
     let out = quote! {
         #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
         #[repr(usize)]
@@ -309,7 +315,7 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
             impl #teleparse::Lexicon for #enum_ident {
                 type Bit = #repr_ty;
                 type Lexer<'s> = #teleparse::lex::LogosLexerWrapper<'s, Self, DerivedLogos>;
-                type Map<T: Default + Clone> = [T; #enum_len];
+                type Map<T: Default + Clone> = #map_ty;
 
                 fn id(&self) -> usize { *self as usize }
                 fn from_id_unchecked(id: usize) -> Self { unsafe { std::mem::transmute(id) } }
diff --git a/packages/teleparse/src/lex/map.rs b/packages/teleparse/src/lex/map.rs
index 78a8f08..40ff1f5 100644
--- a/packages/teleparse/src/lex/map.rs
+++ b/packages/teleparse/src/lex/map.rs
@@ -4,6 +4,32 @@ use derivative::Derivative;
 
 use super::Lexicon;
 
+/// Storage for [`Map`] used by derived lexicons that have more variants than
+/// there are `Default` implementations for arrays
+#[derive(Debug, Clone)]
+pub struct LargeMap<T, const N: usize>([T; N]);
+
+impl<T: Default, const N: usize> Default for LargeMap<T, N> {
+    #[inline]
+    fn default() -> Self {
+        Self(std::array::from_fn(|_| T::default()))
+    }
+}
+
+impl<T, const N: usize> Borrow<[T]> for LargeMap<T, N> {
+    #[inline]
+    fn borrow(&self) -> &[T] {
+        &self.0
+    }
+}
+
+impl<T, const N: usize> BorrowMut<[T]> for LargeMap<T, N> {
+    #[inline]
+    fn borrow_mut(&mut self) -> &mut [T] {
+        &mut self.0
+    }
+}
+
 /// Map of token type to items
 ///
 /// This uses the internal storage derived with [`Lexicon`], but
-- 
2.43.0


From 6f8254ffe91f347e08ef8d898e4eb1cfd60bd2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:39 +0000
Subject: [PATCH 13/24] fix: an empty span inside a token overlaps that token

---
 packages/teleparse/src/lex/vec.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/teleparse/src/lex/vec.rs b/packages/teleparse/src/lex/vec.rs
index ebff39a..8b4f564 100644
--- a/packages/teleparse/src/lex/vec.rs
+++ b/packages/teleparse/src/lex/vec.rs
@@ -168,6 +168,10 @@ impl<L: Lexicon> TokenSlice<L> {
     /// `Some` is returned
     pub fn overlap_bounds<S: Into<Span>>(&self, span: S) -> Option<(usize, usize)> {
         let span = span.into();
+        // an empty span has an empty intersection with any token
+        if span.lo >= span.hi {
+            return None;
+        }
         let lo = match self.search_lo(span.lo) {
             Ok(i) => i, // i must be overlapping/included
             Err(i) => {
-- 
2.43.0


From f7b4501983b6f3bc8726077dacfdf95e88b99fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:45 +0000
Subject: [PATCH 14/24] fix: invalid text shorter than any token is dropped at
 the end of input

---
 packages/teleparse/src/lex/lexer.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/packages/teleparse/src/lex/lexer.rs b/packages/teleparse/src/lex/lexer.rs
index 9186e54..64ef29e 100644
--- a/packages/teleparse/src/lex/lexer.rs
+++ b/packages/teleparse/src/lex/lexer.rs
@@ -1,6 +1,6 @@
 use std::marker::PhantomData;
 
-use logos::{Lexer as LogosLexer, Logos};
+use logos::{Lexer as LogosLexer, Logos, Source};
 
 use super::{Lexicon, Span, Token};
 
@@ -38,7 +38,19 @@ impl<'s, T: Logos<'s>, L: Lexicon + From<T>> Lexer<'s> for LogosLexerWrapper<'s,
         let mut token = None;
         loop {
             match self.next_internal() {
-                None => break,
+                None => {
+                    // logos stops early if the rest of the input is shorter than any token
+                    let rest = self.inner.span().end..self.inner.source().len();
+                    if !rest.is_empty() {
+                        if !has_invalid {
+                            has_invalid = true;
+                            invalid_start = rest.start;
+                        }
+                        invalid_end = rest.end;
+                        self.inner.bump(rest.len());
+                    }
+                    break;
+                }
                 Some(Ok(next)) => {
                     token = Some(next);
                     break;
-- 
2.43.0


From f644bea09696171597b2b5057b5f1857919d843f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 15/24] fix: reject a duplicate literal after a terminal
 without literal

---
 packages/macros/src/lexicon.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/packages/macros/src/lexicon.rs b/packages/macros/src/lexicon.rs
index 550551a..44c83ce 100644
--- a/packages/macros/src/lexicon.rs
+++ b/packages/macros/src/lexicon.rs
@@ -172,15 +172,15 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
                         if match_lit.is_empty() {
                             syn_error!(value, "Cannot use empty string for matching");
                         }
+                        if infer_literal_set.contains(&match_lit) {
+                            syn_error!(
+                                value,
+                                "Duplicate literal pattern `{}` for variant `{}`.",
+                                match_lit,
+                                variant_ident
+                            );
+                        }
                         if let Some(infer_literals) = &mut infer_literals {
-                            if infer_literal_set.contains(&match_lit) {
-                                syn_error!(
-                                    value,
-                                    "Duplicate literal pattern `{}` for variant `{}`.",
-                                    match_lit,
-                                    variant_ident
-                                );
-                            }
                             infer_literals.push(match_lit.clone());
                         }
                         infer_literal_set.insert(match_lit);
-- 
2.43.0


From 54b82441136dabf94927813e48eb6c46c90bbd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 16/24] fix: reject unknown attributes with arguments on
 lexicon variants

---
 packages/macros/src/lexicon.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/macros/src/lexicon.rs b/packages/macros/src/lexicon.rs
index 44c83ce..963d5a7 100644
--- a/packages/macros/src/lexicon.rs
+++ b/packages/macros/src/lexicon.rs
@@ -112,6 +112,7 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
                     )?);
                     continue;
                 }
+                syn_error!(meta, "Unknown {} attribute", CRATE);
             }
         }
 
-- 
2.43.0


From 88ae1d8ef7a311c20cee9649c854e72faab8fe6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 17/24] fix: require a regex for literals beside a terminal
 without literal

---
 packages/macros/src/lexicon.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/packages/macros/src/lexicon.rs b/packages/macros/src/lexicon.rs
index 963d5a7..e0cd997 100644
--- a/packages/macros/src/lexicon.rs
+++ b/packages/macros/src/lexicon.rs
@@ -210,6 +210,14 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
             }
         }
 
+        // a literal is matched either by the regex or by a rule inferred from it
+        if regex.is_none() && infer_literals.is_none() && !infer_literal_set.is_empty() {
+            syn_error!(
+                variant,
+                "A `regex` is needed here because not all terminals have a literal match pattern, so the rule cannot be inferred and the literals would never be matched."
+            );
+        }
+
         if infer_literals
             .as_ref()
             .map(|x| x.is_empty())
-- 
2.43.0


From e13fa150f500be03ba3fe7703bc864a4e3315014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:22 +0000
Subject: [PATCH 18/24] fix: reject unknown attributes with arguments on syntax
 fields and variants

---
 packages/macros/src/syntax.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/macros/src/syntax.rs b/packages/macros/src/syntax.rs
index 7f63046..2f13b2d 100644
--- a/packages/macros/src/syntax.rs
+++ b/packages/macros/src/syntax.rs
@@ -438,6 +438,7 @@ fn parse_field_attributes<T: ToTokens>(
                     hook = Some(meta.parse_args::<syn::Ident>()?);
                     continue;
                 }
+                syn_error!(meta, "Unknown attribute");
             }
             _ => syn_error!(meta, "Invalid attribute format. Expected <attr>(<args>)"),
         }
-- 
2.43.0


From f609f7f2f6aeed816f3ecf2c1924d79904018e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:47 +0000
Subject: [PATCH 19/24] fix: derive Node for structs with named fields

---
 packages/macros/src/node.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/macros/src/node.rs b/packages/macros/src/node.rs
index 360139d..4e498c7 100644
--- a/packages/macros/src/node.rs
+++ b/packages/macros/src/node.rs
@@ -29,7 +29,9 @@ pub fn expand(input: &syn::DeriveInput) -> syn::Result<TokenStream2> {
                 }
             };
             let ty = parse_node_type(ty)?;
-            from_body = quote! { Self { #ident, ::core::default::Default::default() } };
+            let others = fields.named.iter().skip(1).map(|f| &f.ident);
+            from_body =
+                quote! { Self { #ident: node, #(#others: ::core::default::Default::default()),* } };
             field_expr = quote! { self.#ident };
             target_ty = quote! { #ty };
         }
-- 
2.43.0


From 7aa01d6c8e0f65e7f6cf066461443208b0dfe8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:25 +0000
Subject: [PATCH 20/24] fix: Span::get panics for a span that starts after the
 end of the input

A span that only ends after it is already cut to the input.
---
 packages/teleparse/src/lex/span.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/teleparse/src/lex/span.rs b/packages/teleparse/src/lex/span.rs
index ca57f46..d2636d1 100644
--- a/packages/teleparse/src/lex/span.rs
+++ b/packages/teleparse/src/lex/span.rs
@@ -48,7 +48,7 @@ impl Span {
             return "";
         }
         let hi = self.hi.min(input.len());
-        &input[self.lo..hi]
+        &input[self.lo.min(hi)..hi]
     }
 }
 
-- 
2.43.0


From 895b74fbd3847402fb8d5bf59ccdb1924eb5af7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:11 +0000
Subject: [PATCH 21/24] fix: the generated test of a root named Root does not
 compile

---
 packages/macros/src/root.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/packages/macros/src/root.rs b/packages/macros/src/root.rs
index 0196131..3439f83 100644
--- a/packages/macros/src/root.rs
+++ b/packages/macros/src/root.rs
@@ -43,8 +43,7 @@ pub fn expand_test(pt_ty: &syn::Ident) -> TokenStream2 {
 
             #[test]
             fn is_ll1() {
-                use #teleparse::Root;
-                #pt_ty::assert_ll1()
+                <#pt_ty as #teleparse::Root>::assert_ll1()
             }
         }
     }
-- 
2.43.0


From 5b52fbc31c9d23238cb083112b66a02d4e38d313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:11 +0000
Subject: [PATCH 22/24] fix: the name of an optional sequence that starts with
 a group and ends with a list

---
 packages/teleparse/src/syntax/ast.rs     | 11 +++++++++++
 packages/teleparse/src/tp_impl/iter.rs   |  5 +++++
 packages/teleparse/src/tp_impl/option.rs | 11 +----------
 packages/teleparse/src/tp_impl/punct.rs  |  5 +++++
 4 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/packages/teleparse/src/syntax/ast.rs b/packages/teleparse/src/syntax/ast.rs
index 86df1eb..ebca6e5 100644
--- a/packages/teleparse/src/syntax/ast.rs
+++ b/packages/teleparse/src/syntax/ast.rs
@@ -40,6 +40,13 @@ pub trait Production: 'static {
         Cow::Borrowed(std::any::type_name::<Self>())
     }
 
+    /// Get the name of the optional form of the AST node for debugging
+    #[doc(hidden)]
+    #[inline]
+    fn debug_optional() -> Cow<'static, str> {
+        Cow::Owned(format!("({})?", Self::debug()))
+    }
+
     fn register(meta: &mut MetadataBuilder<Self::L>);
 }
 
@@ -57,6 +64,10 @@ macro_rules! production_passthrough {
             <$P>::debug()
         }
         #[inline]
+        fn debug_optional() -> ::std::borrow::Cow<'static, str> {
+            <$P>::debug_optional()
+        }
+        #[inline]
         fn register(meta: &mut $crate::syntax::MetadataBuilder<Self::L>) {
             <$P>::register(meta)
         }
diff --git a/packages/teleparse/src/tp_impl/iter.rs b/packages/teleparse/src/tp_impl/iter.rs
index df309f6..a7f692d 100644
--- a/packages/teleparse/src/tp_impl/iter.rs
+++ b/packages/teleparse/src/tp_impl/iter.rs
@@ -17,6 +17,11 @@ impl<T: Production> Production for OneOrMore<T> {
         Cow::Owned(format!("( {} )+", T::debug()))
     }
 
+    #[inline]
+    fn debug_optional() -> Cow<'static, str> {
+        Cow::Owned(format!("( {} )*", T::debug()))
+    }
+
     fn register(meta: &mut MetadataBuilder<Self::L>) {
         crate::register_sequence!(meta, T, OptionProd<OneOrMore<T>>)
     }
diff --git a/packages/teleparse/src/tp_impl/option.rs b/packages/teleparse/src/tp_impl/option.rs
index 06bdc77..3333cc7 100644
--- a/packages/teleparse/src/tp_impl/option.rs
+++ b/packages/teleparse/src/tp_impl/option.rs
@@ -15,16 +15,7 @@ impl<T: Production> Production for OptionProd<T> {
     type L = T::L;
     #[inline]
     fn debug() -> Cow<'static, str> {
-        let inner = T::debug();
-        if let Some(rest) = inner.strip_prefix('(') {
-            if let Some(inner) = rest.strip_suffix(")+") {
-                return Cow::Owned(format!("({inner})*"));
-            }
-            if let Some(inner) = rest.strip_suffix("]+") {
-                return Cow::Owned(format!("({inner}]*"));
-            }
-        }
-        Cow::Owned(format!("({})?", T::debug()))
+        T::debug_optional()
     }
 
     fn register(meta: &mut MetadataBuilder<Self::L>) {
diff --git a/packages/teleparse/src/tp_impl/punct.rs b/packages/teleparse/src/tp_impl/punct.rs
index 0cd3061..37f262c 100644
--- a/packages/teleparse/src/tp_impl/punct.rs
+++ b/packages/teleparse/src/tp_impl/punct.rs
@@ -17,6 +17,11 @@ impl<T: Production, P: Production<L = T::L>> Production for PunctProd<T, P> {
         Cow::Owned(format!("( {} )[{}]+", T::debug(), P::debug()))
     }
 
+    #[inline]
+    fn debug_optional() -> Cow<'static, str> {
+        Cow::Owned(format!("( {} )[{}]*", T::debug(), P::debug()))
+    }
+
     fn register(meta: &mut MetadataBuilder<Self::L>) {
         crate::register_sequence!(meta, T, OptionProd<(P, OptionProd<Self>)>)
     }
-- 
2.43.0


From 2b8f5b126aecda26c3e82d04536555e260414a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:52 +0000
Subject: [PATCH 23/24] fix: literals of terminals that come from a macro
 argument are rejected

---
 packages/macros/src/lexicon.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/macros/src/lexicon.rs b/packages/macros/src/lexicon.rs
index e0cd997..9e0d019 100644
--- a/packages/macros/src/lexicon.rs
+++ b/packages/macros/src/lexicon.rs
@@ -162,7 +162,12 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
                     }
                     // terminal(Ident = "literal")
                     syn::Meta::NameValue(meta) => {
-                        let value = match &meta.value {
+                        let mut value = &meta.value;
+                        // a literal that comes from a macro argument is in an invisible group
+                        while let syn::Expr::Group(group) = value {
+                            value = &group.expr;
+                        }
+                        let value = match value {
                             syn::Expr::Lit(syn::ExprLit {
                                 lit: syn::Lit::Str(lit_str),
                                 ..
-- 
2.43.0


From d76cad15ff49fb50a625caa993a04739cd0e0883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:52 +0000
Subject: [PATCH 24/24] fix: derive(Node) rejects a node type that comes from a
 macro argument

---
 packages/macros/src/node.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/macros/src/node.rs b/packages/macros/src/node.rs
index 4e498c7..a329ebe 100644
--- a/packages/macros/src/node.rs
+++ b/packages/macros/src/node.rs
@@ -91,7 +91,11 @@ pub fn expand(input: &syn::DeriveInput) -> syn::Result<TokenStream2> {
     Ok(out)
 }
 
-fn parse_node_type(ty: &syn::Type) -> syn::Result<TokenStream2> {
+fn parse_node_type(mut ty: &syn::Type) -> syn::Result<TokenStream2> {
+    // a type that comes from a macro argument is in an invisible group
+    while let syn::Type::Group(group) = ty {
+        ty = &group.elem;
+    }
     let path = match ty {
         syn::Type::Path(ty) => &ty.path,
         _ => {
-- 
2.43.0

