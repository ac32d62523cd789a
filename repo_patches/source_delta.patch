From 7773b318b4af9ff59cfe36749e1ea916994259a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:08 +0000
Subject: [PATCH 01/20] fix: allow '!' inside identifiers

KDL 1.0 excludes only code points <= 0x20 from identifier characters;
`id_char` excluded 0x21 as well, so `foo!` was rejected.
---
 src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 46055cf..7a946c0 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -72,7 +72,7 @@ fn ws_char<S: Span>() -> impl Parser<char, (), Error=Error<S>> {
 
 fn id_char<S: Span>() -> impl Parser<char, char, Error=Error<S>> {
     filter(|c| !matches!(c,
-        '\u{0000}'..='\u{0021}' |
+        '\u{0000}'..='\u{0020}' |
         '\\'|'/'|'('|')'|'{'|'}'|'<'|'>'|';'|'['|']'|'='|','|'"' |
         // whitespace, excluding 0x20
         '\u{00a0}' | '\u{1680}' |
-- 
2.43.0


From 8e56e9d9682af7be5fb6eeaa70660a010f1d739f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:14 +0000
Subject: [PATCH 02/20] fix: treat U+FEFF as whitespace in identifiers

`ws_char` accepts U+FEFF as whitespace, but identifiers swallowed it too,
so a BOM became a part of the neighbouring name.
---
 src/grammar.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 7a946c0..4a5f0f6 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -77,7 +77,7 @@ fn id_char<S: Span>() -> impl Parser<char, char, Error=Error<S>> {
         // whitespace, excluding 0x20
         '\u{00a0}' | '\u{1680}' |
         '\u{2000}'..='\u{200A}' |
-        '\u{202F}' | '\u{205F}' | '\u{3000}' |
+        '\u{202F}' | '\u{205F}' | '\u{3000}' | '\u{FEFF}' |
         // newline (excluding <= 0x20)
         '\u{0085}' | '\u{2028}' | '\u{2029}'
     ))
@@ -92,7 +92,7 @@ fn id_sans_dig<S: Span>() -> impl Parser<char, char, Error=Error<S>> {
         // whitespace, excluding 0x20
         '\u{00a0}' | '\u{1680}' |
         '\u{2000}'..='\u{200A}' |
-        '\u{202F}' | '\u{205F}' | '\u{3000}' |
+        '\u{202F}' | '\u{205F}' | '\u{3000}' | '\u{FEFF}' |
         // newline (excluding <= 0x20)
         '\u{0085}' | '\u{2028}' | '\u{2029}'
     ))
@@ -107,7 +107,7 @@ fn id_sans_sign_dig<S: Span>() -> impl Parser<char, char, Error=Error<S>> {
         // whitespace, excluding 0x20
         '\u{00a0}' | '\u{1680}' |
         '\u{2000}'..='\u{200A}' |
-        '\u{202F}' | '\u{205F}' | '\u{3000}' |
+        '\u{202F}' | '\u{205F}' | '\u{3000}' | '\u{FEFF}' |
         // newline (excluding <= 0x20)
         '\u{0085}' | '\u{2028}' | '\u{2029}'
     ))
-- 
2.43.0


From 5f76d9bf1cb41b88ab96dbfa021d6aa7a687b58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:25 +0000
Subject: [PATCH 03/20] fix: require at least one digit in the number exponent

`1e` and `1e_` were accepted as decimals that no float type can decode.
---
 src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 4a5f0f6..3c2d80e 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -337,7 +337,7 @@ fn decimal_number<S: Span>() -> impl Parser<char, Literal, Error=Error<S>> {
         just('.').chain_c(digit(10)).chain_c(digits(10)).or_not().flatten())
     .chain_c(just('e').or(just('E'))
            .chain_c(just('-').or(just('+')).or_not())
-           .chain_c(digits(10)).or_not().flatten())
+           .chain_c(digit(10)).chain_c(digits(10)).or_not().flatten())
     .map(|v| {
         let is_decimal = v.iter().any(|c| matches!(c, '.'|'e'|'E'));
         let s: String = v.into_iter().filter(|c| c != &'_').collect();
-- 
2.43.0


From b909e64cf64129d479c175f9f896cc945c56375a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:42 +0000
Subject: [PATCH 04/20] fix: accept identifiers that start with a keyword as
 property names

`node nullable=1` was parsed as a `null` argument followed by garbage:
keywords must not be followed by an identifier character.
---
 src/grammar.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/grammar.rs b/src/grammar.rs
index 3c2d80e..5e76c24 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -320,6 +320,8 @@ fn keyword<S: Span>() -> impl Parser<char, Literal, Error=Error<S>> {
             .map_err(|e: Error<S>| e.with_expected_token("false"))
             .to(Literal::Bool(false)),
     ))
+    // `nullable` or `true-color` are identifiers rather than keywords
+    .then_ignore(id_char().not().rewind().ignored().or(end()))
 }
 
 fn digit<S: Span>(radix: u32) -> impl Parser<char, char, Error=Error<S>> {
-- 
2.43.0


From 1a6c18fca5cefc005871829f1259d76111c8ced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:07 +0000
Subject: [PATCH 05/20] fix: avoid exponential time on unclosed nested comments

Every level of an unclosed nested comment was scanned twice: as a comment
and then again as a plain text, so `/*` repeated 30 times hanged the parser.
---
 src/grammar.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 5e76c24..90131e8 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -128,7 +128,10 @@ fn ml_comment<S: Span>() -> impl Parser<char, (), Error=Error<S>> {
     recursive::<_, _, _, _, Error<S>>(|comment| {
         choice((
             comment,
-            none_of('*').ignored(),
+            none_of("*/").ignored(),
+            // do not rescan unclosed nested comment as a plain text,
+            // that takes exponential time
+            just('/').then_ignore(none_of('*').rewind()).ignored(),
             just('*').then_ignore(none_of('/').rewind()).ignored(),
         )).repeated().ignored()
         .delimited_by(begin_comment('*'), just("*/"))
-- 
2.43.0


From 494adaa5d9557fab8bde580154454e988a00ee6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:55 +0000
Subject: [PATCH 06/20] fix: accept raw strings as node and type names

`bare_ident` consumed the `r` prefix, so raw strings were only accepted as
arguments, values and property names.
---
 src/grammar.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 90131e8..3fe1a37 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -298,8 +298,9 @@ fn ident<S: Span>() -> impl Parser<char, Box<str>, Error=Error<S>> {
     choice((
         // match -123 so `-` will not be treated as an ident by backtracking
         number().map(Err),
-        bare_ident().map(Ok),
+        // raw strings start with `r`, so must be tried before identifiers
         string().map(Ok),
+        bare_ident().map(Ok),
     ))
     // when backtracking is not already possible,
     // throw error for numbers (mapped to `Result::Err`)
-- 
2.43.0


From 8afe905157c1a9a415e9bbbde9b91c8581d6f414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:41 +0000
Subject: [PATCH 07/20] fix: report unclosed raw strings in documents

In a document the `r` prefix of an unclosed raw string was parsed as an
identifier, which lead to unrelated errors instead of `unclosed raw string`.
---
 src/grammar.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/grammar.rs b/src/grammar.rs
index 3fe1a37..29fe3bc 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -269,6 +269,8 @@ fn bare_ident<S: Span>() -> impl Parser<char, Box<str>, Error=Error<S>> {
         sign.repeated().exactly(1),
         id_sans_sign_dig().chain(id_char().repeated())
     ))
+    // quote cannot follow an identifier, it's an (unclosed) raw string
+    .then_ignore(just('"').not().rewind().ignored().or(end()))
     .map(|v| v.into_iter().collect()).try_map(|s: String, span| {
         match &s[..] {
             "true" => Err(Error::Unexpected {
-- 
2.43.0


From a5a345324d50ae3092745adefaab0fda9a7db6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:45 +0000
Subject: [PATCH 08/20] fix: parse usize and isize as builtin type names

`BuiltinType::from_str` did not know them, so `(usize)1` could not be decoded
into usize and `BuiltinType::as_str` did not round trip.
---
 src/ast.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ast.rs b/src/ast.rs
index 48c446a..62ad58e 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -256,6 +256,8 @@ impl FromStr for BuiltinType {
             "i32" => Ok(I32),
             "u64" => Ok(U64),
             "i64" => Ok(I64),
+            "usize" => Ok(Usize),
+            "isize" => Ok(Isize),
             "f32" => Ok(F32),
             "f64" => Ok(F64),
             "base64" => Ok(Base64),
-- 
2.43.0


From 165b192adaa38644983bc1a8f2a500366bb75bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:50 +0000
Subject: [PATCH 09/20] fix: report expected kind of scalar for numbers

Integer and float decoders claimed that string scalar is expected.
---
 src/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/convert.rs b/src/convert.rs
index 18bc0e4..09b3703 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -41,7 +41,7 @@ macro_rules! impl_integer {
                     }
                     _ => {
                         ctx.emit_error(DecodeError::scalar_kind(
-                                Kind::String, val));
+                                Kind::Int, val));
                         Ok(0)
                     }
                 }
@@ -102,7 +102,7 @@ macro_rules! impl_float {
                     }
                     _ => {
                         ctx.emit_error(DecodeError::scalar_kind(
-                                Kind::String, val));
+                                Kind::Decimal, val));
                         Ok(0.0)
                     }
                 }
-- 
2.43.0


From 6667589afaa7f67d521900a265e4c1d94553e65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:26 +0000
Subject: [PATCH 10/20] fix: do not panic when ast::Value is wrapped into a
 container

Containers forwarded only `raw_decode`, which is not implemented for `Value`,
so an `Option<Value<S>>` argument or property paniced on any non-null value.
---
 src/containers.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/containers.rs b/src/containers.rs
index a09b023..263c78c 100644
--- a/src/containers.rs
+++ b/src/containers.rs
@@ -50,6 +50,11 @@ impl<S: ErrorSpan, T: DecodeScalar<S>> DecodeScalar<S> for Box<T> {
     {
         DecodeScalar::raw_decode(value, ctx).map(Box::new)
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        DecodeScalar::decode(value, ctx).map(Box::new)
+    }
 }
 
 impl<S: ErrorSpan, T: Decode<S>> Decode<S> for Arc<T> {
@@ -96,6 +101,11 @@ impl<S: ErrorSpan, T: DecodeScalar<S>> DecodeScalar<S> for Arc<T> {
     {
         DecodeScalar::raw_decode(value, ctx).map(Arc::new)
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        DecodeScalar::decode(value, ctx).map(Arc::new)
+    }
 }
 
 impl<S: ErrorSpan, T: Decode<S>> Decode<S> for Rc<T> {
@@ -142,6 +152,11 @@ impl<S: ErrorSpan, T: DecodeScalar<S>> DecodeScalar<S> for Rc<T> {
     {
         DecodeScalar::raw_decode(value, ctx).map(Rc::new)
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        DecodeScalar::decode(value, ctx).map(Rc::new)
+    }
 }
 
 impl<S: ErrorSpan, T: Decode<S>> DecodeChildren<S> for Vec<T> {
@@ -172,6 +187,17 @@ impl<S: ErrorSpan, T: DecodeScalar<S>> DecodeScalar<S> for Option<T> {
             _ => DecodeScalar::raw_decode(value, ctx).map(Some),
         }
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        match &*value.literal {
+            Literal::Null => {
+                T::type_check(&value.type_name, ctx);
+                Ok(None)
+            }
+            _ => DecodeScalar::decode(value, ctx).map(Some),
+        }
+    }
 }
 
 impl<T: DecodeScalar<S>, S, Q> DecodeScalar<S> for Spanned<T, Q>
@@ -192,4 +218,13 @@ impl<T: DecodeScalar<S>, S, Q> DecodeScalar<S> for Spanned<T, Q>
             value: decoded,
         })
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        let decoded = T::decode(value, ctx)?;
+        Ok(Spanned {
+            span: DecodeSpan::decode_span(&value.literal.span, ctx),
+            value: decoded,
+        })
+    }
 }
-- 
2.43.0


From ef73c764f001fe0110164a8c3f4e762d2e2565cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:32 +0000
Subject: [PATCH 11/20] fix: generate valid field access for tuple structs in
 DecodePartial

`self.0usize` is not valid, so tuple structs of optional properties did not
compile.
---
 derive/src/definition.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/derive/src/definition.rs b/derive/src/definition.rs
index 2f2d221..177794e 100644
--- a/derive/src/definition.rs
+++ b/derive/src/definition.rs
@@ -948,7 +948,10 @@ impl Field {
     }
     pub fn from_self(&self) -> TokenStream {
         match &self.attr {
-            AttrAccess::Indexed(idx) => quote!(self.#idx),
+            AttrAccess::Indexed(idx) => {
+                let idx = syn::Index::from(*idx);
+                quote!(self.#idx)
+            }
             AttrAccess::Named(name) => quote!(self.#name),
         }
     }
-- 
2.43.0


From b04e6d4a7023c7cc4655efad27540b9d4875c461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:38 +0000
Subject: [PATCH 12/20] fix: allow Option<Vec<_>> for filtered children

Structures where all fields are optional did not compile if one of them was
`children(name=..)`, because DecodePartial tried to push into the option.
---
 derive/src/node.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index 5a3d381..bef2a62 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -15,7 +15,11 @@ pub(crate) struct Common<'a> {
 fn child_can_partial(child: &Child) -> bool {
     use ChildMode::*;
 
-    child.option || matches!(child.mode, Bool | Flatten)
+    match child.mode {
+        Bool | Flatten => true,
+        Normal => child.option,
+        Multi => false,
+    }
 }
 
 pub fn emit_struct(s: &Struct, named: bool) -> syn::Result<TokenStream> {
-- 
2.43.0


From b2058b034eb8c0ce4b1b9fcf72aabbd03f59ba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:43 +0000
Subject: [PATCH 13/20] fix: derive Decode for non-optional new types

`Wrapper(Inner)` is documented, but only `Wrapper(Option<Inner>)` compiled.
---
 derive/src/node.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index bef2a62..7523f2e 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -161,6 +161,24 @@ pub fn emit_new_type(s: &NewType) -> syn::Result<TokenStream> {
     let s_name = &s.ident;
     let node = syn::Ident::new("node", Span::mixed_site());
     let ctx = syn::Ident::new("ctx", Span::mixed_site());
+    let decode = if s.option {
+        quote! {
+            if #node.arguments.len() > 0 ||
+                #node.properties.len() > 0 ||
+                #node.children.is_some()
+            {
+                ::knuffel::Decode::decode_node(#node, #ctx)
+                    .map(Some)
+                    .map(#s_name)
+            } else {
+                Ok(#s_name(None))
+            }
+        }
+    } else {
+        quote! {
+            ::knuffel::Decode::decode_node(#node, #ctx).map(#s_name)
+        }
+    };
     Ok(quote! {
         impl<S: ::knuffel::traits::ErrorSpan>
             ::knuffel::Decode<S> for #s_name
@@ -169,16 +187,7 @@ pub fn emit_new_type(s: &NewType) -> syn::Result<TokenStream> {
                            #ctx: &mut ::knuffel::decode::Context<S>)
                 -> Result<Self, ::knuffel::errors::DecodeError<S>>
             {
-                if #node.arguments.len() > 0 ||
-                    #node.properties.len() > 0 ||
-                    #node.children.is_some()
-                {
-                    ::knuffel::Decode::decode_node(#node, #ctx)
-                        .map(Some)
-                        .map(#s_name)
-                } else {
-                    Ok(#s_name(None))
-                }
+                #decode
             }
         }
     })
-- 
2.43.0


From 01189435f469e38aedbbb11b2be13fc6694a98c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:37 +0000
Subject: [PATCH 14/20] fix: support flatten(child, property) on a single field

Documented form generated the field twice and did not compile.
---
 derive/src/definition.rs | 8 +++++++-
 derive/src/node.rs       | 9 ++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/derive/src/definition.rs b/derive/src/definition.rs
index 177794e..76c7916 100644
--- a/derive/src/definition.rs
+++ b/derive/src/definition.rs
@@ -603,6 +603,11 @@ impl Struct {
 
         Ok(bld.build())
     }
+    /// Whether the field is (also) marked as `flatten(property)`
+    pub fn is_flat_property(&self, field: &Field) -> bool {
+        self.properties.iter()
+            .any(|p| p.flatten && p.field.tmp_name == field.tmp_name)
+    }
     pub fn all_fields(&self) -> Vec<&Field> {
         let mut res = Vec::new();
         res.extend(self.spans.iter().map(|a| &a.field));
@@ -612,7 +617,8 @@ impl Struct {
         res.extend(self.var_args.iter().map(|a| &a.field));
         res.extend(self.properties.iter().map(|p| &p.field));
         res.extend(self.var_props.iter().map(|p| &p.field));
-        res.extend(self.children.iter().map(|c| &c.field));
+        res.extend(self.children.iter().map(|c| &c.field)
+                   .filter(|f| !self.is_flat_property(f)));
         res.extend(self.var_children.iter().map(|c| &c.field));
         res.extend(self.extra_fields.iter().map(|f| &f.field));
         return res;
diff --git a/derive/src/node.rs b/derive/src/node.rs
index 7523f2e..9aee6e2 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -778,9 +778,12 @@ fn decode_children(s: &Common, children: &syn::Ident,
         let child_name = &child_def.name;
         match child_def.mode {
             ChildMode::Flatten => {
-                declare_empty.push(quote! {
-                    let mut #fld = ::std::default::Default::default();
-                });
+                // `flatten(child, property)` is declared by `decode_props`
+                if !s.object.is_flat_property(&child_def.field) {
+                    declare_empty.push(quote! {
+                        let mut #fld = ::std::default::Default::default();
+                    });
+                }
                 match_branches.push(quote! {
                     _ if (
                         match ::knuffel::traits::DecodePartial
-- 
2.43.0


From 28e50ba4e6714a685818097ca9898d6a84f20526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:30 +0000
Subject: [PATCH 15/20] fix: reject unexpected type names on all kinds of nodes

Type names are not allowed unless `type_name` is used, but they were silently
ignored for boolean children, unwrapped children and enum variants.
---
 derive/src/node.rs     | 5 +++++
 derive/src/variants.rs | 7 +++++++
 src/decode.rs          | 5 +++++
 3 files changed, 17 insertions(+)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index 9aee6e2..141fadc 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -165,6 +165,7 @@ pub fn emit_new_type(s: &NewType) -> syn::Result<TokenStream> {
         quote! {
             if #node.arguments.len() > 0 ||
                 #node.properties.len() > 0 ||
+                #node.type_name.is_some() ||
                 #node.children.is_some()
             {
                 ::knuffel::Decode::decode_node(#node, #ctx)
@@ -198,6 +199,7 @@ pub(crate) fn decode_enum_item(s: &Common,
     -> syn::Result<TokenStream>
 {
     let children = syn::Ident::new("children", Span::mixed_site());
+    let decode_specials = decode_specials(s, node)?;
     let decode_args = decode_args(s, node)?;
     let decode_props = decode_props(s, node)?;
     let decode_children = decode_children(s, &children,
@@ -220,6 +222,7 @@ pub(crate) fn decode_enum_item(s: &Common,
         quote!{ #s_name(#(#assignments),*) }
     };
     Ok(quote! {
+        #decode_specials
         #decode_args
         #decode_props
         let #children = #node.children.as_ref()
@@ -600,6 +603,7 @@ fn unwrap_fn(parent: &Common,
 
     let node = syn::Ident::new("node", Span::mixed_site());
     let children = syn::Ident::new("children", Span::mixed_site());
+    let decode_specials = decode_specials(&common, &node)?;
     let decode_args = decode_args(&common, &node)?;
     let decode_props = decode_props(&common, &node)?;
     let decode_children = decode_children(&common, &children,
@@ -608,6 +612,7 @@ fn unwrap_fn(parent: &Common,
         let mut #func = |#node: &::knuffel::ast::SpannedNode<#span_ty>,
                          #ctx: &mut ::knuffel::decode::Context<#span_ty>|
         {
+            #decode_specials
             #decode_args
             #decode_props
             let #children = #node.children.as_ref()
diff --git a/derive/src/variants.rs b/derive/src/variants.rs
index 7b9e3b4..0df4530 100644
--- a/derive/src/variants.rs
+++ b/derive/src/variants.rs
@@ -66,6 +66,12 @@ fn decode(e: &Common, node: &syn::Ident) -> syn::Result<TokenStream> {
             VariantKind::Unit => {
                 branches.push(quote! {
                     #name => {
+                        if let Some(type_name) = &#node.type_name {
+                            #ctx.emit_error(
+                                ::knuffel::errors::DecodeError::unexpected(
+                                    type_name, "type name",
+                                    "no type name expected for this node"));
+                        }
                         for arg in &#node.arguments {
                             #ctx.emit_error(
                                 ::knuffel::errors::DecodeError::unexpected(
@@ -104,6 +110,7 @@ fn decode(e: &Common, node: &syn::Ident) -> syn::Result<TokenStream> {
                     #name => {
                         if #node.arguments.len() > 0 ||
                             #node.properties.len() > 0 ||
+                            #node.type_name.is_some() ||
                             #node.children.is_some()
                         {
                             ::knuffel::Decode::decode_node(#node, #ctx)
diff --git a/src/decode.rs b/src/decode.rs
index 72193f1..09303c7 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -108,6 +108,11 @@ pub fn bytes<S: ErrorSpan>(value: &Value<S>, ctx: &mut Context<S>) -> Vec<u8> {
 pub fn check_flag_node<S: ErrorSpan>(
     node: &SpannedNode<S>, ctx: &mut Context<S>)
 {
+    if let Some(type_name) = &node.type_name {
+        ctx.emit_error(DecodeError::unexpected(
+            type_name, "type name",
+            "no type name expected for this node"));
+    }
     for arg in &node.arguments {
         ctx.emit_error(DecodeError::unexpected(
                 &arg.literal, "argument",
-- 
2.43.0


From 5b4f681796f79b4d621c0d177a4018eb06c0ab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:14 +0000
Subject: [PATCH 16/20] fix: report comment unclosed right at the end of input

---
 src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 29fe3bc..04ca52a 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -138,7 +138,7 @@ fn ml_comment<S: Span>() -> impl Parser<char, (), Error=Error<S>> {
     })
     .map_err_with_span(|e, span| {
         if matches!(&e, Error::Unexpected { found: TokenFormat::Eoi, .. }) &&
-           span.length() > 2
+           span.length() >= 2
         {
             e.merge(Error::Unclosed {
                 label: "comment",
-- 
2.43.0


From 8308d88aa15c3d23051eca8c206f3136100f20bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:03 +0000
Subject: [PATCH 17/20] fix: check type name of null for optional bytes

`(foo)null` for an optional `bytes` field was silently accepted, unlike
any other type of scalar.
---
 derive/src/node.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index 141fadc..ce22d88 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -301,6 +301,21 @@ fn decode_value(val: &syn::Ident, ctx: &syn::Ident, mode: &DecodeMode,
         DecodeMode::Bytes if optional => {
             Ok(quote! {
                 if matches!(&*#val.literal, ::knuffel::ast::Literal::Null) {
+                    if let Some(typ) = &#val.type_name {
+                        if typ.as_builtin()
+                            != Some(&::knuffel::ast::BuiltinType::Base64)
+                        {
+                            #ctx.emit_error(
+                                ::knuffel::errors::DecodeError::TypeName {
+                                    span: typ.span().clone(),
+                                    found: Some((**typ).clone()),
+                                    expected: ::knuffel::errors::ExpectedType
+                                        ::optional(::knuffel::ast
+                                            ::BuiltinType::Base64),
+                                    rust_type: "bytes",
+                                });
+                        }
+                    }
                     Ok(None)
                 } else {
                     match ::knuffel::decode::bytes(#val, #ctx).try_into() {
-- 
2.43.0


From e2830717a82468b4d20cf95ecf23fb13c0153341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:44 +0000
Subject: [PATCH 18/20] fix: support span_type and generics on new types

---
 derive/src/node.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index ce22d88..ae941ad 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -161,6 +161,25 @@ pub fn emit_new_type(s: &NewType) -> syn::Result<TokenStream> {
     let s_name = &s.ident;
     let node = syn::Ident::new("node", Span::mixed_site());
     let ctx = syn::Ident::new("ctx", Span::mixed_site());
+
+    let (_, type_gen, _) = s.generics.split_for_impl();
+    let mut common_generics = s.generics.clone();
+    let span_ty;
+    if let Some(ty) = s.trait_props.span_type.as_ref() {
+        span_ty = quote!(#ty);
+    } else {
+        if common_generics.params.is_empty() {
+            common_generics.lt_token = Some(Default::default());
+            common_generics.gt_token = Some(Default::default());
+        }
+        common_generics.params.push(syn::parse2(quote!(S)).unwrap());
+        span_ty = quote!(S);
+        common_generics.make_where_clause().predicates.push(
+            syn::parse2(quote!(S: ::knuffel::traits::ErrorSpan)).unwrap());
+    };
+    let trait_gen = quote!(<#span_ty>);
+    let (impl_gen, _, bounds) = common_generics.split_for_impl();
+
     let decode = if s.option {
         quote! {
             if #node.arguments.len() > 0 ||
@@ -181,12 +200,12 @@ pub fn emit_new_type(s: &NewType) -> syn::Result<TokenStream> {
         }
     };
     Ok(quote! {
-        impl<S: ::knuffel::traits::ErrorSpan>
-            ::knuffel::Decode<S> for #s_name
+        impl #impl_gen ::knuffel::Decode #trait_gen for #s_name #type_gen
+            #bounds
         {
-            fn decode_node(#node: &::knuffel::ast::SpannedNode<S>,
-                           #ctx: &mut ::knuffel::decode::Context<S>)
-                -> Result<Self, ::knuffel::errors::DecodeError<S>>
+            fn decode_node(#node: &::knuffel::ast::SpannedNode<#span_ty>,
+                           #ctx: &mut ::knuffel::decode::Context<#span_ty>)
+                -> Result<Self, ::knuffel::errors::DecodeError<#span_ty>>
             {
                 #decode
             }
-- 
2.43.0


From ba35bca922bb2fa73e4b991bd8990366d95a2af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:51 +0000
Subject: [PATCH 19/20] fix: support default on optional child fields

---
 derive/src/node.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index ae941ad..fa59dd4 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -907,9 +907,15 @@ fn decode_children(s: &Common, children: &syn::Ident,
                     } else {
                         quote!(::std::default::Default::default())
                     };
-                    postprocess.push(quote! {
-                        let #fld = #fld.unwrap_or_else(|| #default);
-                    });
+                    if child_def.option && child_def.unwrap.is_none() {
+                        postprocess.push(quote! {
+                            let #fld = #fld.or_else(|| #default);
+                        });
+                    } else {
+                        postprocess.push(quote! {
+                            let #fld = #fld.unwrap_or_else(|| #default);
+                        });
+                    }
                 } else if !child_def.option {
                     if let Some(span) = &err_span {
                         postprocess.push(quote! {
-- 
2.43.0


From 89f95a81df1f1e81ca277d5e75a2b37f3d00fadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:40 +0000
Subject: [PATCH 20/20] fix: do not clash with a properties field named
 converted_name

---
 derive/src/node.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index fa59dd4..3ff9e2c 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -576,18 +576,20 @@ fn decode_props(s: &Common, node: &syn::Ident)
     }
     if let Some(var_props) = &s.object.var_props {
         let fld = &var_props.field.tmp_name;
+        let converted_name = syn::Ident::new(
+            "converted_name", Span::mixed_site());
         let decode_value = decode_value(&val, ctx, &var_props.decode, false)?;
         declare_empty.push(quote! {
             let mut #fld = Vec::new();
         });
         match_branches.push(quote! {
             #name_str => {
-                let converted_name = #name_str.parse()
+                let #converted_name = #name_str.parse()
                     .map_err(|e| {
                         ::knuffel::errors::DecodeError::conversion(#name, e)
                     })?;
                 #fld.push((
-                    converted_name,
+                    #converted_name,
                     #decode_value?,
                 ));
             }
-- 
2.43.0

