From e8eb4bb9c082e4a4f5d9064e35ca7536fe893394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:04 +0000
Subject: [PATCH 01/10] fix: LengthData must return Incomplete, not panic, when
 the announced length exceeds the input

---
 src/helpers.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/helpers.rs b/src/helpers.rs
index c0a8c9e..481c0b2 100644
--- a/src/helpers.rs
+++ b/src/helpers.rs
@@ -1,5 +1,6 @@
 use crate::traits::*;
 use core::marker::PhantomData;
+use nom::bytes::streaming::take;
 use nom::error::ParseError;
 use nom::{IResult, ToUsize};
 
@@ -24,17 +25,17 @@ where
 {
     fn parse(i: I) -> IResult<I, Self, E> {
         let (rem, length) = L::parse(i)?;
-        let (rem, data) = rem.take_split(length.to_usize());
+        let (rem, data) = take(length.to_usize())(rem)?;
         Ok((rem, LengthData::new(data)))
     }
     fn parse_be(i: I) -> IResult<I, Self, E> {
         let (rem, length) = L::parse_be(i)?;
-        let (rem, data) = rem.take_split(length.to_usize());
+        let (rem, data) = take(length.to_usize())(rem)?;
         Ok((rem, LengthData::new(data)))
     }
     fn parse_le(i: I) -> IResult<I, Self, E> {
         let (rem, length) = L::parse_le(i)?;
-        let (rem, data) = rem.take_split(length.to_usize());
+        let (rem, data) = take(length.to_usize())(rem)?;
         Ok((rem, LengthData::new(data)))
     }
 }
-- 
2.43.0


From dfa311d66776680942ed4035caa14fc0847758f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:05 +0000
Subject: [PATCH 02/10] fix: moving the default case of an enum last must keep
 the order of other variants

---
 nom-derive-impl/src/gen/enums.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/nom-derive-impl/src/gen/enums.rs b/nom-derive-impl/src/gen/enums.rs
index 217736a..b756a0b 100644
--- a/nom-derive-impl/src/gen/enums.rs
+++ b/nom-derive-impl/src/gen/enums.rs
@@ -211,11 +211,9 @@ impl GenEnum {
                 .iter()
                 .position(|def| def.selector_type == "_")
                 .expect("default case is handled but couldn't find index");
-            let last_index = self.variants_defs.len() - 1;
-            if pos != last_index {
-                // self.variants_defs.swap(pos, last_index);
-                variants_code.swap(pos, last_index);
-            }
+            // move it, keeping the relative order of all other (possibly overlapping) patterns
+            let default_code = variants_code.remove(pos);
+            variants_code.push(default_code);
         }
         Ok((default_case_handled, variants_code))
     }
-- 
2.43.0


From 4388e784c3efac0d39c04a9128dfa61b6e2cc745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:05 +0000
Subject: [PATCH 03/10] fix: a Verify condition starting with a literal must
 generate a verification

---
 nom-derive-impl/src/structs.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index ce8d1e5..79895dc 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -246,12 +246,6 @@ fn get_parser(
                         ));
                     }
                 };
-                // if meta.arg is string, parse content
-                let ts_arg = meta.arg().unwrap();
-                if let Some(TokenTree::Literal(_)) = ts_arg.clone().into_iter().next() {
-                    let ts_arg = syn::parse2::<Expr>(ts_arg.clone())?;
-                    return Ok(ParserExpr::Map(Box::new(expr), ts_arg.to_token_stream()));
-                }
                 let ts_arg = meta.arg().unwrap();
                 return Ok(ParserExpr::Verify(
                     Box::new(expr),
-- 
2.43.0


From d31287afcb4a123fe2a2218ad0b0131c2b195241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:05 +0000
Subject: [PATCH 04/10] fix: Move by isize::MIN must return an error, not
 overflow

---
 nom-derive-impl/src/structs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index 79895dc..b6000a6 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -293,7 +293,7 @@ fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
             let start = #orig_input.as_ptr() as usize;
             let pos = #input.as_ptr() as usize - start;
             let offset = #offset as isize;
-            let offset_u = offset.abs() as usize;
+            let offset_u = offset.unsigned_abs();
             let new_offset = if offset < 0 {
                 if offset_u > pos {
                     return Err(nom::Err::Error(nom::error::make_error(#input, nom::error::ErrorKind::TooLarge)));
-- 
2.43.0


From 29694fd7e6eb2585a585dfed81b28e42b259134c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:05 +0000
Subject: [PATCH 05/10] fix: Align and Move expressions must not capture
 variables of the generated code

---
 nom-derive-impl/src/structs.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index b6000a6..b1a4968 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -276,8 +276,9 @@ fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
     let orig_input = syn::Ident::new(config.orig_input_name(), align.span());
     quote! {
         let (#input, _) = {
-            let offset = #input.as_ptr() as usize - #orig_input.as_ptr() as usize;
+            // evaluate the user expression first, it must not see the variables declared below
             let align = #align as usize;
+            let offset = #input.as_ptr() as usize - #orig_input.as_ptr() as usize;
             let align = ((align - (offset % align)) % align);
             nom::bytes::streaming::take(align)(#input)
         }?;
@@ -290,9 +291,10 @@ fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
     let orig_input = syn::Ident::new(config.orig_input_name(), offset.span());
     quote! {
         let #input = {
+            // evaluate the user expression first, it must not see the variables declared below
+            let offset = #offset as isize;
             let start = #orig_input.as_ptr() as usize;
             let pos = #input.as_ptr() as usize - start;
-            let offset = #offset as isize;
             let offset_u = offset.unsigned_abs();
             let new_offset = if offset < 0 {
                 if offset_u > pos {
-- 
2.43.0


From 15699e40e922eed8bc1becbcc55b5ba98f2fb469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:05 +0000
Subject: [PATCH 06/10] fix: cast the whole expression given to Count, Take,
 Skip, Align and Move

---
 nom-derive-impl/src/parsertree.rs | 4 ++--
 nom-derive-impl/src/structs.rs    | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/nom-derive-impl/src/parsertree.rs b/nom-derive-impl/src/parsertree.rs
index b0498f6..38b8faf 100644
--- a/nom-derive-impl/src/parsertree.rs
+++ b/nom-derive-impl/src/parsertree.rs
@@ -141,7 +141,7 @@ impl ToTokens for ParserExpr {
                 quote! { nom::combinator::cond(#c, #expr) }
             }
             ParserExpr::Count(expr, n) => {
-                quote! { nom::multi::count(#expr, #n as usize) }
+                quote! { nom::multi::count(#expr, (#n) as usize) }
             }
             ParserExpr::DbgDmp(expr, i) => {
                 let ident = format!("{}", i);
@@ -171,7 +171,7 @@ impl ToTokens for ParserExpr {
                 quote! { nom::bytes::streaming::tag(&#s[..]) }
             }
             ParserExpr::Take(s) => {
-                quote! { nom::bytes::streaming::take(#s as usize) }
+                quote! { nom::bytes::streaming::take((#s) as usize) }
             }
             ParserExpr::Value(ts) => {
                 quote! {
diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index b1a4968..0662409 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -277,7 +277,7 @@ fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
     quote! {
         let (#input, _) = {
             // evaluate the user expression first, it must not see the variables declared below
-            let align = #align as usize;
+            let align = (#align) as usize;
             let offset = #input.as_ptr() as usize - #orig_input.as_ptr() as usize;
             let align = ((align - (offset % align)) % align);
             nom::bytes::streaming::take(align)(#input)
@@ -292,7 +292,7 @@ fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
     quote! {
         let #input = {
             // evaluate the user expression first, it must not see the variables declared below
-            let offset = #offset as isize;
+            let offset = (#offset) as isize;
             let start = #orig_input.as_ptr() as usize;
             let pos = #input.as_ptr() as usize - start;
             let offset_u = offset.unsigned_abs();
@@ -318,7 +318,7 @@ fn quote_move_abs(offset: &TokenStream, config: &Config) -> TokenStream {
     let orig_input = syn::Ident::new(config.orig_input_name(), offset.span());
     quote! {
         let #input = {
-            let offset = #offset as usize;
+            let offset = (#offset) as usize;
             if offset > #orig_input.len() {
                 return Err(nom::Err::Incomplete(nom::Needed::new(offset)));
             }
@@ -331,7 +331,7 @@ fn quote_skip(skip: &TokenStream, config: &Config) -> TokenStream {
     let input = syn::Ident::new(config.input_name(), skip.span());
     quote! {
         let (#input, _) = {
-            let skip = #skip as usize;
+            let skip = (#skip) as usize;
             nom::bytes::streaming::take(skip)(#input)
         }?;
     }
-- 
2.43.0


From 2c503cc5469e98c306f6a5411846f3d966ce685f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:21 +0000
Subject: [PATCH 07/10] fix: SetEndian on a field must apply to the following
 fields

---
 nom-derive-impl/src/structs.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index 0662409..934042b 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -404,7 +404,7 @@ pub(crate) fn get_pre_post_exec(
             MetaAttrType::SetEndian => {
                 let val = m.arg().unwrap();
                 let qq = quote! { let __endianness = #val; };
-                // config is updated in `get_parser`
+                // config is updated in `parse_fields`
                 tk_pre.extend(qq);
             }
             _ => (),
@@ -439,6 +439,8 @@ pub(crate) fn parse_fields(f: &Fields, config: &mut Config) -> Result<StructPars
             // so the caller must check and add attributes
         }
     }
+    // a field can change the endianness of the following ones (but not of other variants)
+    let object_endianness = config.object_endianness;
     for (idx, field) in f.iter().enumerate() {
         let ident_str = if let Some(s) = field.ident.as_ref() {
             s.to_string()
@@ -447,6 +449,13 @@ pub(crate) fn parse_fields(f: &Fields, config: &mut Config) -> Result<StructPars
         };
         let meta_list = meta::parse_nom_attribute(&field.attrs)?;
         // eprintln!("meta_list: {:?}", meta_list);
+        // SetEndian affects this field and all the following ones
+        if meta_list
+            .iter()
+            .any(|m| m.is_type(MetaAttrType::SetEndian))
+        {
+            config.object_endianness = ParserEndianness::SetEndian;
+        }
         let mut p = get_field_parser(field, &meta_list, config)?;
 
         if config.complete {
@@ -473,6 +482,7 @@ pub(crate) fn parse_fields(f: &Fields, config: &mut Config) -> Result<StructPars
         let sp = StructParser::new(ident_str, item, pre, post);
         parsers.push(sp);
     }
+    config.object_endianness = object_endianness;
     Ok(StructParserTree {
         empty,
         unnamed,
-- 
2.43.0


From 7aa0dcd17a3ebd5ac2f477075583bf904f5d4424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 08/10] fix: top-level Complete must apply to the parser of
 unit variants

---
 nom-derive-impl/src/enums.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/enums.rs b/nom-derive-impl/src/enums.rs
index fc489f4..1315582 100644
--- a/nom-derive-impl/src/enums.rs
+++ b/nom-derive-impl/src/enums.rs
@@ -36,7 +36,10 @@ pub(crate) fn parse_variant(
             }
         }
         let (pre, post) = get_pre_post_exec(&meta_list, config);
-        let p = p.unwrap_or(ParserExpr::Nop);
+        let mut p = p.unwrap_or(ParserExpr::Nop);
+        if config.complete {
+            p = p.complete();
+        }
         let item = ParserTreeItem::new(Some(variant.ident.clone()), p);
         let sp = StructParser::new("_".to_string(), item, pre, post);
         struct_def.parsers.push(sp);
-- 
2.43.0


From 362f34161f0bb66536cc5312333004452997e879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 09/10] fix: top-level Complete must apply to fieldless enums

---
 nom-derive-impl/src/gen/fieldless_enums.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/gen/fieldless_enums.rs b/nom-derive-impl/src/gen/fieldless_enums.rs
index 4f3d92f..b5f7467 100644
--- a/nom-derive-impl/src/gen/fieldless_enums.rs
+++ b/nom-derive-impl/src/gen/fieldless_enums.rs
@@ -73,9 +73,10 @@ impl Generator for GenFieldlessEnum {
         let parser = &self.repr_parser.with_endianness(endianness);
         // generate body
         let tokens = quote! {
+            use nom::Parser;
             let #input = #orig_input;
             #tl_pre
-            let (#input, selector) = #parser(#input)?;
+            let (#input, selector) = #parser.parse(#input)?;
             let enum_def =
                 #(#variants_code else)*
             { return Err(nom::Err::Error(nom::error::make_error(#orig_input, nom::error::ErrorKind::Switch))); };
@@ -155,6 +156,12 @@ impl GenFieldlessEnum {
             }
         };
 
+        let repr_parser = if config.complete {
+            repr_parser.complete()
+        } else {
+            repr_parser
+        };
+
         let variants_code: Vec<_> = data_enum
             .variants
             .iter()
-- 
2.43.0


From b298ece7a25a04b56c0f04403caedcbea160528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:39 +0000
Subject: [PATCH 10/10] fix: lifetime parameters with bounds must not break the
 derived where clause

---
 nom-derive-impl/src/gen/generator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/gen/generator.rs b/nom-derive-impl/src/gen/generator.rs
index f44e539..6039885 100644
--- a/nom-derive-impl/src/gen/generator.rs
+++ b/nom-derive-impl/src/gen/generator.rs
@@ -151,7 +151,7 @@ pub(crate) trait Generator {
         } else {
             parse_quote!(#where_clause)
         };
-        let lfts: Vec<_> = orig_generics.lifetimes().collect();
+        let lfts: Vec<_> = orig_generics.lifetimes().map(|l| &l.lifetime).collect();
         if !lfts.is_empty() {
             // input slice must outlive all lifetimes from Self
             let wh: WherePredicate = parse_quote! { #lft: #(#lfts)+* };
-- 
2.43.0

