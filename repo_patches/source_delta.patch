From 33e8f90ec60b3959f368e7dc3e37bcaf50436647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:37 +0000
Subject: [PATCH 01/18] fix: never place an action set at an offset that
 aliases existing entries

---
 pomelo-impl/src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index c5b1919..440c24d 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -413,7 +413,7 @@ impl ActTab {
                  ** aLookahead[] transaction.  Leave i set to the offset of the hole.
                  ** If no holes are found, i is left at self.n_action, which means the
                  ** transaction will be appended. */
-                let mut r = self.a_action.len();
+                let mut r = self.a_action.len() + max_lookahead;
                 'ia: for i in 0..self.a_action.len() + max_lookahead {
                     for jla in &at2.a_lookahead {
                         let k = jla.lookahead - min_lookahead + i;
-- 
2.43.0


From 7c80a746120a62e456501b52988f46fb54e45172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:37 +0000
Subject: [PATCH 02/18] fix: report reduce/reduce conflicts between rules of
 equal precedence

---
 pomelo-impl/src/parser/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 440c24d..7a0544f 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1201,7 +1201,8 @@ impl Pomelo {
                 let precy = self.the_rules.get(y).precedence;
 
                 match (precx, precy) {
-                    (Some(px), Some(py)) => match precedence_cmp(px, py) {
+                    //Associativity is only meaningful between a shift and a reduce
+                    (Some(px), Some(py)) => match px.0.cmp(&py.0) {
                         Ordering::Less => (false, RDResolved(x), Reduce(y)),
                         Ordering::Equal => (true, Reduce(x), RRConflict(y)),
                         Ordering::Greater => (false, Reduce(x), RDResolved(y)),
-- 
2.43.0


From 7515bf22c1c73b5f2d1dfcb8a38a30ae0d6e49be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:37 +0000
Subject: [PATCH 03/18] fix: a nonassoc error entry is not overridden by the
 dropped reduction

---
 pomelo-impl/src/parser/mod.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 7a0544f..2327bb7 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1190,12 +1190,26 @@ impl Pomelo {
                 match (precx, precy) {
                     (Some(px), Some(py)) => match precedence_cmp(px, py) {
                         Ordering::Less => (false, SHResolved(x), Reduce(y)),
-                        Ordering::Equal => (false, Error, Reduce(y)),
+                        Ordering::Equal => (false, Error, RDResolved(y)),
                         Ordering::Greater => (false, Shift(x), RDResolved(y)),
                     },
                     _ => (true, Shift(x), SRConflict(y)),
                 }
             }
+            /* A shift that was already replaced by an error, because of a nonassoc token,
+             ** keeps the precedence of its token against any other reduce. */
+            (Error, Reduce(y)) => {
+                let precx = self.the_symbols.get(apx.look_ahead).precedence;
+                let precy = self.the_rules.get(y).precedence;
+
+                match (precx, precy) {
+                    (Some(px), Some(py)) => match precedence_cmp(px, py) {
+                        Ordering::Less => (false, NotUsed, Reduce(y)),
+                        _ => (false, Error, RDResolved(y)),
+                    },
+                    _ => (true, Error, SRConflict(y)),
+                }
+            }
             (Reduce(x), Reduce(y)) => {
                 let precx = self.the_rules.get(x).precedence;
                 let precy = self.the_rules.get(y).precedence;
-- 
2.43.0


From 7197e2030add66d58951c38ec4bb3e8e4bd9b7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:37 +0000
Subject: [PATCH 04/18] fix: no default reduction if the wildcard has any
 action in the state

---
 pomelo-impl/src/parser/mod.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 2327bb7..77065a0 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1299,16 +1299,14 @@ impl Pomelo {
 
                 for (iap, ap) in stp.actions.iter().enumerate() {
                     let ap = ap.borrow();
+                    if Some(ap.look_ahead) == self.wildcard && self.compute_action(&ap).is_some() {
+                        uses_wildcard = true;
+                    }
                     if ignored_actions.contains(&ap.look_ahead) {
                         continue;
                     }
-                    match (&ap.detail, &self.wildcard) {
-                        (Shift(_), Some(w)) => {
-                            if ap.look_ahead == *w {
-                                uses_wildcard = true;
-                            }
-                        }
-                        (Reduce(rp), _) => {
+                    match &ap.detail {
+                        Reduce(rp) => {
                             if self.the_rules.get(rp).lhs_start {
                                 continue;
                             }
-- 
2.43.0


From 26dfc2591cf78d7ab3dd798a03dc14725f94464d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:37 +0000
Subject: [PATCH 05/18] fix: offset tables must be able to hold the negative
 offsets

---
 pomelo-impl/src/parser/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 77065a0..7b6df62 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -491,6 +491,11 @@ fn minimum_signed_type(max: usize) -> Ident {
     }
 }
 
+//The minimum signed type for an offset table, that includes `min - 1` as the "use default" mark
+fn minimum_offset_type(min: i32, max: i32) -> Ident {
+    minimum_signed_type(cmp::max(max, -min) as usize)
+}
+
 fn minimum_unsigned_type(max: usize) -> Ident {
     if max < 0x100 {
         parse_quote!(u8)
@@ -2477,7 +2482,7 @@ impl Pomelo {
         src.extend(quote!(const YY_SHIFT_COUNT: i32 = #n as i32;));
         src.extend(quote!(const YY_SHIFT_MIN: i32 = #min_tkn_ofst;));
         src.extend(quote!(const YY_SHIFT_MAX: i32 = #max_tkn_ofst;));
-        let yy_shift_ofst_type = minimum_signed_type(max_tkn_ofst as usize);
+        let yy_shift_ofst_type = minimum_offset_type(min_tkn_ofst, max_tkn_ofst);
         let yy_shift_ofst = self.states[0..=n]
             .iter()
             .map(|stp| {
@@ -2499,7 +2504,7 @@ impl Pomelo {
         src.extend(quote!(const YY_REDUCE_COUNT: i32 = #n as i32;));
         src.extend(quote!(const YY_REDUCE_MIN: i32 = #min_nt_ofst;));
         src.extend(quote!(const YY_REDUCE_MAX: i32 = #max_nt_ofst;));
-        let yy_reduce_ofst_type = minimum_signed_type(max_nt_ofst as usize);
+        let yy_reduce_ofst_type = minimum_offset_type(min_nt_ofst, max_nt_ofst);
         let yy_reduce_ofst = self.states[0..=n]
             .iter()
             .map(|stp| {
-- 
2.43.0


From fbba84e3306e33cd8f945bed309f9c493a9f4677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:37 +0000
Subject: [PATCH 06/18] fix: reject a token that is its own fallback

---
 pomelo-impl/src/parser/mod.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 7b6df62..807cf0f 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1896,19 +1896,14 @@ impl Pomelo {
                 {
                     let mut fallback = fallback;
                     loop {
+                        if syms.iter().any(|(_, s)| *s == fallback) {
+                            return error_span(fb.span(), "Fallback directive creates a loop");
+                            //tested
+                        }
                         let fb_b = self.the_symbols.get(fallback);
                         match fb_b.fallback {
                             None => break,
-                            Some(fb_next) => {
-                                if syms.iter().any(|(_, s)| *s == fb_next) {
-                                    return error_span(
-                                        fb.span(),
-                                        "Fallback directive creates a loop",
-                                    );
-                                    //tested
-                                }
-                                fallback = fb_next;
-                            }
+                            Some(fb_next) => fallback = fb_next,
                         }
                     }
                 }
-- 
2.43.0


From eb6ee46ef4c819ccf3acd0dd4d9b1e8564e428d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:37 +0000
Subject: [PATCH 07/18] fix: an untyped start symbol does not take the YY of a
 symbol of type ()

---
 pomelo-impl/src/parser/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 807cf0f..dbc408e 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -2932,9 +2932,9 @@ impl Pomelo {
         }
         yyrules.push(quote!(_ => unreachable!("no rule to apply")));
 
-        let accept_code = match types.get(yyroottype) {
-            Some(n) => {
-                let yyroot = Ident::new(&format!("YY{}", n), Span::call_site());
+        let accept_code = match start.data_type {
+            Some(_) => {
+                let yyroot = Ident::new(&format!("YY{}", start.dt_num), Span::call_site());
                 quote!(
                     if let YYMinorType::#yyroot(root) = yygotominor {
                         yy.yystatus = YYStatus::Accepted(root);
-- 
2.43.0


From cfdf179dd5e54a151261b8678556d049874f0754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:19 +0000
Subject: [PATCH 08/18] fix: an aliased untyped token can hold the value of a
 typed token that fell back to it

---
 pomelo-impl/src/parser/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index dbc408e..5aac8a0 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -2980,7 +2980,13 @@ impl Pomelo {
 
         for i in (0..rp.rhs.len()).rev() {
             let yypi = Ident::new(&format!("yyp{}", i), Span::call_site());
-            code.extend(quote!(let #yypi = yy.yystack.pop().unwrap();));
+            code.extend(quote!(let mut #yypi = yy.yystack.pop().unwrap();));
+            //An untyped token may have been shifted as the fallback (or wildcard) of a typed one,
+            //but if it has an alias it must match the unit type.
+            let SymbolAlias(r, _, alias) = &rp.rhs[i];
+            if alias.is_some() && self.the_symbols.get(r).dt_num == 0 {
+                code.extend(quote!(#yypi.minor = YYMinorType::YY0(());));
+            }
         }
 
         let unit_type = parse_quote!(());
-- 
2.43.0


From d93b775edf1afc9b73a0a601d79f4b26a0f21a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:19 +0000
Subject: [PATCH 09/18] fix: optional and auto-forwarding rules use the default
 and token class types

---
 pomelo-impl/src/parser/mod.rs | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 5aac8a0..c76afa8 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -652,6 +652,26 @@ impl Pomelo {
             }
         }
 
+        //Symbols without a type get the default one, except for the wildcard.
+        for s in &self.symbols {
+            if Some(*s) == self.wildcard {
+                continue;
+            }
+            let sp = self.the_symbols.get(s);
+            let data_type = match &sp.typ {
+                SymbolType::MultiTerminal(ss) => {
+                    //MultiTerminals have the type of the first child, that is sorted before.
+                    //The type of the children need be the same only if an alias is used, so we
+                    //cannot check it here
+                    let first = self.the_symbols.get(ss.first().unwrap());
+                    first.data_type.clone()
+                }
+                _ => sp.data_type.clone().or_else(|| self.default_type.clone()),
+            };
+            drop(sp);
+            self.the_symbols.get_mut(s).data_type = data_type;
+        }
+
         //For every optional token T of type ty (a new non-terminal _t of type Option<ty> has already been created),
         //add two new rules:
         //  _n ::= T { None }
@@ -2157,20 +2177,7 @@ impl Pomelo {
 
             let mut sp = self.the_symbols.get_mut(sp);
 
-            /* Determine the data_type of each symbol and fill its dt_num */
-            let data_type = match &sp.typ {
-                SymbolType::MultiTerminal(ss) => {
-                    //MultiTerminals have the type of the first child.
-                    //The type of the children need be the same only if an alias is used, so we
-                    //cannot check it here
-                    let first = self.the_symbols.get(ss.first().unwrap());
-                    first.data_type.clone()
-                }
-                SymbolType::Terminal => sp.data_type.clone(),
-                SymbolType::NonTerminal { .. } => sp.data_type.clone(),
-            };
-
-            sp.data_type = data_type.or_else(|| self.default_type.clone());
+            /* Fill the dt_num of each symbol */
             sp.dt_num = match &sp.data_type {
                 None => 0,
                 Some(cp) => {
-- 
2.43.0


From c14abed72e5f6c312631e006b0779106e06c3fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:19 +0000
Subject: [PATCH 10/18] fix: the optional mark is also honoured after a
 compound

---
 pomelo-impl/src/parser/mod.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index c76afa8..8242acd 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -2013,7 +2013,7 @@ impl Pomelo {
                 let rhs = rhs
                     .into_iter()
                     .map(|(toks, optional, alias)| {
-                        let SymbolSpan(tok, span) = if toks.len() == 1 {
+                        let mut sym = if toks.len() == 1 {
                             let tok = toks.into_iter().next().unwrap();
                             let nst = if is_terminal_ident(&tok) {
                                 NewSymbolType::Terminal
@@ -2025,22 +2025,7 @@ impl Pomelo {
                                     "Symbol must start with uppercase or lowercase letter",
                                 ); //tested
                             };
-                            if optional {
-                                let sym_r = self.symbol_new_t(&tok, nst);
-                                if let Some(sym_l) = self.optional_tokens.get(&sym_r) {
-                                    sym_l.clone()
-                                } else {
-                                    let sym_l = self.symbol_new_s(
-                                        &format!("_{}", self.optional_tokens.len()),
-                                        NewSymbolType::NonTerminal,
-                                    );
-                                    let sym_l = SymbolSpan(sym_l, tok.span());
-                                    self.optional_tokens.insert(sym_r, sym_l.clone());
-                                    sym_l
-                                }
-                            } else {
-                                self.symbol_new_t_span(&tok, nst)
-                            }
+                            self.symbol_new_t_span(&tok, nst)
                         } else {
                             let mt = self.symbol_new_s("", NewSymbolType::MultiTerminal);
                             let mut ss = Vec::new();
@@ -2061,6 +2046,21 @@ impl Pomelo {
                             }
                             SymbolSpan(mt, span)
                         };
+                        if optional {
+                            let SymbolSpan(sym_r, span) = sym;
+                            sym = if let Some(sym_l) = self.optional_tokens.get(&sym_r) {
+                                sym_l.clone()
+                            } else {
+                                let sym_l = self.symbol_new_s(
+                                    &format!("_{}", self.optional_tokens.len()),
+                                    NewSymbolType::NonTerminal,
+                                );
+                                let sym_l = SymbolSpan(sym_l, span);
+                                self.optional_tokens.insert(sym_r, sym_l.clone());
+                                sym_l
+                            };
+                        }
+                        let SymbolSpan(tok, span) = sym;
                         Ok(SymbolAlias(tok, span, alias))
                     })
                     .collect::<syn::Result<Vec<_>>>()?;
-- 
2.43.0


From 2639244b13b79ebe1a04e17a950d8f633839c624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:19 +0000
Subject: [PATCH 11/18] fix: reject empty and nested token classes

---
 pomelo-impl/src/parser/mod.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 8242acd..497986c 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -577,7 +577,7 @@ impl Pomelo {
         &self.module
     }
     pub fn build(&mut self) -> syn::Result<TokenStream> {
-        self.prepare();
+        self.prepare()?;
         self.find_rule_precedences();
         self.normalize_rules()?;
         self.find_first_sets();
@@ -601,7 +601,7 @@ impl Pomelo {
         Ok(src)
     }
 
-    fn prepare(&mut self) {
+    fn prepare(&mut self) -> syn::Result<()> {
         //First there are all the Terminals, the first one is $
         //Then the NonTerminals, the last one is {default}
         //And finally the MultiTerminals
@@ -633,6 +633,20 @@ impl Pomelo {
             }
         }
 
+        //The constituents of a MultiTerminal must be Terminals
+        for s in &symbols {
+            if let MultiTerminal(ss) = &self.the_symbols.get(s).typ {
+                if ss.is_empty() {
+                    return error("token_class must have some tokens");
+                }
+                for s in ss {
+                    if !matches!(self.the_symbols.get(s).typ, Terminal) {
+                        return error("A token_class cannot be part of a token_class or compound");
+                    }
+                }
+            }
+        }
+
         self.symbols = symbols;
         self.num_terminals = last_terminal + 1;
         self.default_index = default_index;
@@ -705,6 +719,7 @@ impl Pomelo {
                 None,
             );
         }
+        Ok(())
     }
 
     /* Find a precedence symbol of every rule in the grammar.
-- 
2.43.0


From 626658b67a4c446b6a467a0394211285e0b78d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:19 +0000
Subject: [PATCH 12/18] fix: reject a duplicated stack_size directive without a
 stack type

---
 pomelo-impl/src/parser/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 497986c..cae9366 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -265,6 +265,7 @@ pub struct Pomelo {
 
 struct ParserData {
     precedence: i32,
+    stack_size: bool, //True if any %stack_size is seen in the grammar
 }
 
 #[derive(Debug)]
@@ -559,7 +560,10 @@ impl Pomelo {
         pomelo.symbol_new("$", NewSymbolType::Terminal);
         pomelo.error_symbol = pomelo.symbol_new("error", NewSymbolType::NonTerminal);
 
-        let mut pdata = ParserData { precedence: 0 };
+        let mut pdata = ParserData {
+            precedence: 0,
+            stack_size: false,
+        };
 
         for decl in decls {
             pomelo.parse_one_decl(&mut pdata, decl)?;
@@ -2004,9 +2008,10 @@ impl Pomelo {
                 self.extra_token = Some(ty);
             }
             Decl::StackSize(limit, ty) => {
-                if self.stack_type.is_some() {
+                if pdt.stack_size {
                     return error_span(ty.span(), "Stack size already defined");
                 }
+                pdt.stack_size = true;
                 self.stack_limit = limit;
                 self.stack_type = ty;
             }
-- 
2.43.0


From 0cee15d24a7851579b8af834561705f09c760778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:51 +0000
Subject: [PATCH 13/18] fix: no panic on a shift/shift conflict with a shift to
 the same state

---
 pomelo-impl/src/parser/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index cae9366..f0018f7 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1165,9 +1165,12 @@ impl Pomelo {
         /* Resolve conflicts */
         let mut nconflict = 0;
         for stp in &self.states {
-            self.the_states.get_mut(stp).actions.sort_by(|a, b| {
+            // A shift may go to this very state, so it cannot be borrowed while sorting
+            let mut actions = std::mem::take(&mut self.the_states.get_mut(stp).actions);
+            actions.sort_by(|a, b| {
                 action_cmp(&self.the_symbols, &self.the_states, &self.the_rules, a, b)
             });
+            self.the_states.get_mut(stp).actions = actions;
             let stp = self.the_states.get(stp);
             let len = stp.actions.len();
             for i in 0..len {
-- 
2.43.0


From a193c6bd25dc7ac4547370578760c689c6e0ae17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:26 +0000
Subject: [PATCH 14/18] fix: extra_token compiles in a grammar without tokens

---
 pomelo-impl/src/parser/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index f0018f7..5ae9d70 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -2443,6 +2443,10 @@ impl Pomelo {
         ));
 
         if let Some(extra_token) = &self.extra_token {
+            if token_extra.is_empty() {
+                // Without tokens, a reference to one still has to be matched
+                token_extra.push(quote!(_ => unreachable!()));
+            }
             let token_extra = &token_extra; //so that we can use the same array several times
             src.extend(quote!(
                 impl #yy_generics_impl_token Token #yy_generics_token #yy_generics_where_token
-- 
2.43.0


From f3e95e1a2c3e71a8ef524af8414d36ad34646a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:17 +0000
Subject: [PATCH 15/18] fix: the list of expected tokens needs only core

With %stack_size and a stack type of its own a parser was supposed to be
usable without std, but the code of the expected tokens used std paths.
---
 pomelo-impl/src/parser/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 5ae9d70..9049ec4 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -2710,7 +2710,7 @@ impl Pomelo {
             struct ExpectedTokens #yy_generics_impl #yy_generics_where {
                 stateno: i32,
                 yy_major: i32,
-                _phantom: ::std::marker::PhantomData<Parser #yy_generics>,
+                _phantom: ::core::marker::PhantomData<Parser #yy_generics>,
             }
 
             struct ExpectedToken #yy_generics_impl_token #yy_generics_where_token {
@@ -2723,7 +2723,7 @@ impl Pomelo {
                 type Item = ExpectedToken #yy_generics_token;
 
                 fn next(&mut self) -> Option<Self::Item> {
-                    use std::convert::TryFrom;
+                    use ::core::convert::TryFrom;
                     loop {
                         let yy_major = self.yy_major;
                         let name = *YY_TOKEN_NAMES.get(usize::try_from(yy_major).unwrap())?;
@@ -2780,7 +2780,7 @@ impl Pomelo {
                         let expected = ExpectedTokens {
                             stateno: yy.yystack.last().unwrap().stateno,
                             yy_major: 1,
-                            _phantom: ::std::marker::PhantomData,
+                            _phantom: ::core::marker::PhantomData,
                         };
 
                         if YYERRORSYMBOL != 0 {
-- 
2.43.0


From af031c9bd2d732b10025dec8e5af067b24b76d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:17 +0000
Subject: [PATCH 16/18] fix: keep the attributes of every %type of a token

A token may be first declared without type and then with one; the
attributes of the first declaration were lost.
---
 pomelo-impl/src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 9049ec4..e28fa35 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1861,7 +1861,7 @@ impl Pomelo {
                     //tested
                 }
                 sp.data_type = ty;
-                sp.attributes = attrs;
+                sp.attributes.extend(attrs);
             }
             Decl::Assoc(a, ids) => {
                 pdt.precedence += 1;
-- 
2.43.0


From 494183a1274a97cb3cbe6a2419e1b1b0bf2d073d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:42 +0000
Subject: [PATCH 17/18] fix: a default of a generic parameter of Token is not
 compared with Parser

Without %parser the parameters of Parser are those of Token without their
defaults, so a Token with a defaulted parameter was always rejected.
---
 pomelo-impl/src/parser/mod.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index e28fa35..e52b6cf 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -9,7 +9,7 @@ use crate::decl::*;
 use proc_macro2::{Literal, Span, TokenStream};
 use quote::ToTokens;
 use syn::{
-    Attribute, Block, Fields, Ident, Item, ItemEnum, ItemStruct, Pat, Type, Variant,
+    Attribute, Block, Fields, GenericParam, Ident, Item, ItemEnum, ItemStruct, Pat, Type, Variant,
     spanned::Spanned,
 };
 
@@ -2234,8 +2234,30 @@ impl Pomelo {
             //tested
         }
 
+        //Defaults are not part of the parameter (and the default Parser does not have them)
+        let without_default = |p: &GenericParam| {
+            let mut p = p.clone();
+            match &mut p {
+                GenericParam::Type(t) => {
+                    t.eq_token = None;
+                    t.default = None;
+                }
+                GenericParam::Const(c) => {
+                    c.eq_token = None;
+                    c.default = None;
+                }
+                GenericParam::Lifetime(_) => {}
+            }
+            p
+        };
         for g in yytoken.generics.params.iter() {
-            if !yyparser.generics.params.iter().any(|p| p == g) {
+            let gw = without_default(g);
+            if !yyparser
+                .generics
+                .params
+                .iter()
+                .any(|p| without_default(p) == gw)
+            {
                 return error_span(g.span(), "Generic parameter in Token is not in Parser");
                 //tested
             }
-- 
2.43.0


From 4b73ef7a5ac056a59905c2aaa34787ce3aa0dcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:05 +0000
Subject: [PATCH 18/18] fix: a type declaration without a type may follow the
 one with the type

---
 pomelo-impl/src/parser/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index e52b6cf..4c94fb6 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1856,11 +1856,13 @@ impl Pomelo {
                 };
                 let sp = self.symbol_new_t(&id, nst);
                 let mut sp = self.the_symbols.get_mut(sp);
-                if sp.data_type.is_some() {
-                    return error_span(id.span(), "Symbol type already defined");
-                    //tested
+                if ty.is_some() {
+                    if sp.data_type.is_some() {
+                        return error_span(id.span(), "Symbol type already defined");
+                        //tested
+                    }
+                    sp.data_type = ty;
                 }
-                sp.data_type = ty;
                 sp.attributes.extend(attrs);
             }
             Decl::Assoc(a, ids) => {
-- 
2.43.0

