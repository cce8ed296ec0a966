From 6db0691d3e9ed74863cdaa952b3df96bc7ec5862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 01/15] fix: recognise `name=value` when the value starts with
 punctuation directly after `=`

---
 structmeta/src/helpers.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/structmeta/src/helpers.rs b/structmeta/src/helpers.rs
index 57c9e2b..8346d8d 100644
--- a/structmeta/src/helpers.rs
+++ b/structmeta/src/helpers.rs
@@ -1,4 +1,4 @@
-use proc_macro2::{Ident, Spacing, Span, TokenStream};
+use proc_macro2::{Ident, Span, TokenStream};
 use syn::{
     MacroDelimiter, Result, Token, braced, bracketed,
     ext::IdentExt,
@@ -104,11 +104,8 @@ pub fn try_parse_name(
     Ok(None)
 }
 fn peek_eq_op(input: ParseStream) -> bool {
-    if let Some((p, _)) = input.cursor().punct() {
-        p.as_char() == '=' && p.spacing() == Spacing::Alone
-    } else {
-        false
-    }
+    // `=` may be directly followed by another punctuation as in `name=-1`.
+    input.peek(Token![=]) && !input.peek(Token![==]) && !input.peek(Token![=>])
 }
 fn name_index_of(
     names: &[&str],
-- 
2.43.0


From 8c22f497277dfb816d71e125dfa56959f7f7f37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 02/15] fix: report a missing list argument in its expected
 form `name(...)`

---
 structmeta-derive/src/struct_meta.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structmeta-derive/src/struct_meta.rs b/structmeta-derive/src/struct_meta.rs
index f7bfffd..c2e110e 100644
--- a/structmeta-derive/src/struct_meta.rs
+++ b/structmeta-derive/src/struct_meta.rs
@@ -417,11 +417,11 @@ impl NamedParam<'_> {
             match self.ty {
                 NamedParamType::Flag => quote!(::structmeta::Flag { span: #temp_ident }),
                 NamedParamType::Bool => quote!(#temp_ident.is_some()),
-                NamedParamType::Value { .. } | NamedParamType::NameValue { .. } => {
+                NamedParamType::Value { is_vec: false, .. } | NamedParamType::NameValue { .. } => {
                     let msg = format!("missing argument `{} = ...`", self.name);
                     quote!(#temp_ident.ok_or_else(|| ::structmeta::helpers::exports::syn::Error::new(::structmeta::helpers::exports::proc_macro2::Span::call_site(), #msg))?)
                 }
-                NamedParamType::NameArgs { .. } => {
+                NamedParamType::Value { is_vec: true, .. } | NamedParamType::NameArgs { .. } => {
                     let msg = format!("missing argument `{}(...)`", self.name);
                     quote!(#temp_ident.ok_or_else(|| ::structmeta::helpers::exports::syn::Error::new(::structmeta::helpers::exports::proc_macro2::Span::call_site(), #msg))?)
                 }
-- 
2.43.0


From a38ac2d48dd5cdd71c9b9e51fef550978959d878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 03/15] fix: derive(Parse) compiles for generic enums

---
 structmeta-derive/src/parse.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index c540311..f03bc67 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -20,7 +20,7 @@ pub fn derive_parse(input: DeriveInput) -> Result<TokenStream> {
 
     let ts = match &input.data {
         Data::Struct(data) => code_from_struct(data)?,
-        Data::Enum(data) => code_from_enum(&input.ident, data)?,
+        Data::Enum(data) => code_from_enum(data)?,
         Data::Union(_) => {
             bail!(Span::call_site(), "Not supported for union.")
         }
@@ -43,7 +43,7 @@ pub fn derive_parse(input: DeriveInput) -> Result<TokenStream> {
 fn code_from_struct(data: &DataStruct) -> Result<TokenStream> {
     code_from_fields(quote!(Self), &data.fields, None)
 }
-fn code_from_enum(self_ident: &Ident, data: &DataEnum) -> Result<TokenStream> {
+fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
     let mut ts = TokenStream::new();
     ts.extend(quote!(
         use syn::ext::*;
@@ -57,15 +57,15 @@ fn code_from_enum(self_ident: &Ident, data: &DataEnum) -> Result<TokenStream> {
         let fn_ident = format_ident!("_parse_{}", &variant.ident);
         let mut peeks = Vec::new();
         let fn_expr = code_from_fields(
-            quote!(#self_ident::#variant_ident),
+            quote!(Self::#variant_ident),
             &variant.fields,
             Some(&mut peeks),
         )?;
         let fn_def = quote! {
             #[allow(non_snake_case)]
-            fn #fn_ident(input: ::structmeta::helpers::exports::syn::parse::ParseStream<'_>) -> ::structmeta::helpers::exports::syn::Result<#self_ident> {
+            let #fn_ident = |input: ::structmeta::helpers::exports::syn::parse::ParseStream<'_>| -> ::structmeta::helpers::exports::syn::Result<Self> {
                 #fn_expr
-            }
+            };
         };
         let code = if peeks.is_empty() {
             if is_last && !input_is_forked {
-- 
2.43.0


From da54e99f583136b77d800482030ecdf3446c215a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 04/15] fix: code generated by derive(Parse) does not need
 `syn` in scope

---
 structmeta-derive/src/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index f03bc67..b43ec80 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -46,7 +46,7 @@ fn code_from_struct(data: &DataStruct) -> Result<TokenStream> {
 fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
     let mut ts = TokenStream::new();
     ts.extend(quote!(
-        use syn::ext::*;
+        use ::structmeta::helpers::exports::syn::ext::*;
     ));
     let mut input_is_forked = false;
     let mut input_is_moved = false;
@@ -268,7 +268,7 @@ fn code_from_fields(
         Fields::Unit => quote!(),
     };
     Ok(quote! {
-        use syn::ext::*;
+        use ::structmeta::helpers::exports::syn::ext::*;
         #ts
         Ok(#self_path #init)
     })
-- 
2.43.0


From 1c6b81304b3a9662b32b852b39925d6375d89bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 05/15] fix: refer to `::structmeta::NameArgs` by its absolute
 path

---
 structmeta-derive/src/struct_meta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structmeta-derive/src/struct_meta.rs b/structmeta-derive/src/struct_meta.rs
index c2e110e..633667f 100644
--- a/structmeta-derive/src/struct_meta.rs
+++ b/structmeta-derive/src/struct_meta.rs
@@ -744,7 +744,7 @@ impl<'a> NamedParamType<'a> {
                         args
                     }
                 };
-                quote!(structmeta::NameArgs { name_span : span, args: #args })
+                quote!(::structmeta::NameArgs { name_span : span, args: #args })
             }
         }
     }
-- 
2.43.0


From 3a8c7ec3bdfb47df101f5f9e191ef32103c8b132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 06/15] fix: derive(ToTokens) reports an unmatched closing
 delimiter instead of panicking

---
 structmeta-derive/src/to_tokens.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structmeta-derive/src/to_tokens.rs b/structmeta-derive/src/to_tokens.rs
index 483bfa8..dc21e9f 100644
--- a/structmeta-derive/src/to_tokens.rs
+++ b/structmeta-derive/src/to_tokens.rs
@@ -185,6 +185,9 @@ fn code_from_fields(fields: &Fields) -> Result<TokenStream> {
                             })));
                             field_to_tokens = false;
                         } else if let Some(delimiter) = delimiter_from_close_char(c) {
+                            if scopes.len() == 1 {
+                                bail!(token.span(), "mismatched closing delimiter `{}`.", c);
+                            }
                             let scope = scopes.pop().unwrap();
                             scopes
                                 .last_mut()
-- 
2.43.0


From 08ddfe7c8f27aea5495c61d9f6502eeb7aaeca35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 07/15] fix: derive(StructMeta) reports a positional
 `Option<Vec<T>>` instead of panicking

---
 structmeta-derive/src/struct_meta.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/structmeta-derive/src/struct_meta.rs b/structmeta-derive/src/struct_meta.rs
index 633667f..f98c0d7 100644
--- a/structmeta-derive/src/struct_meta.rs
+++ b/structmeta-derive/src/struct_meta.rs
@@ -314,18 +314,22 @@ impl<'a> Param<'a> {
                 ty,
                 is_option,
             })
-        } else if let NamedParamType::Value { ty, is_vec } = ty {
-            Param::Unnamed(UnnamedParam {
-                info,
-                ty,
-                is_option,
-                is_vec,
-            })
         } else {
-            bail!(
-                info.span(),
-                "this field type cannot be used as unnamed parameter."
-            )
+            match ty {
+                // `Option<Vec<T>>` is not an unnamed parameter type
+                NamedParamType::Value { ty, is_vec } if !(is_option && is_vec) => {
+                    Param::Unnamed(UnnamedParam {
+                        info,
+                        ty,
+                        is_option,
+                        is_vec,
+                    })
+                }
+                _ => bail!(
+                    info.span(),
+                    "this field type cannot be used as unnamed parameter."
+                ),
+            }
         };
         Ok(this)
     }
-- 
2.43.0


From 9a2007e7a3c0f5965bb5e30c76172c4f77771b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 08/15] fix: derive(ToTokens) compiles for enums without
 variants

---
 structmeta-derive/src/to_tokens.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structmeta-derive/src/to_tokens.rs b/structmeta-derive/src/to_tokens.rs
index dc21e9f..e23d8a7 100644
--- a/structmeta-derive/src/to_tokens.rs
+++ b/structmeta-derive/src/to_tokens.rs
@@ -46,6 +46,9 @@ fn code_from_struct(data: &DataStruct) -> Result<TokenStream> {
     Ok(ts)
 }
 fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
+    if data.variants.is_empty() {
+        return Ok(quote!(match *self {}));
+    }
     let mut arms = Vec::new();
     for variant in &data.variants {
         let ident = &variant.ident;
-- 
2.43.0


From a7a67689eb10d1c5b199462a4db61dea9051f4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 09/15] fix: derive(Parse) for enums does not panic when a
 variant without peek ends with a TokenStream

TokenStream::parse moves a forked stream outside of its buffer, which
advance_to refuses with a panic.
---
 structmeta-derive/src/parse.rs |  4 +---
 structmeta/src/helpers.rs      | 25 +++++++++++++++++++++++--
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index b43ec80..fcddba0 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -76,9 +76,7 @@ fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
             } else {
                 input_is_forked = true;
                 quote! {
-                    let fork = input.fork();
-                    if let Ok(value) = #fn_ident(&fork) {
-                        ::structmeta::helpers::exports::syn::parse::discouraged::Speculative::advance_to(input, &fork);
+                    if let Some(value) = ::structmeta::helpers::try_parse(input, #fn_ident)? {
                         return Ok(value);
                     }
                 }
diff --git a/structmeta/src/helpers.rs b/structmeta/src/helpers.rs
index 8346d8d..e099f67 100644
--- a/structmeta/src/helpers.rs
+++ b/structmeta/src/helpers.rs
@@ -1,9 +1,9 @@
-use proc_macro2::{Ident, Span, TokenStream};
+use proc_macro2::{Ident, Span, TokenStream, TokenTree};
 use syn::{
     MacroDelimiter, Result, Token, braced, bracketed,
     ext::IdentExt,
     parenthesized,
-    parse::{ParseBuffer, ParseStream, discouraged::Speculative},
+    parse::{ParseBuffer, ParseStream, Parser, discouraged::Speculative},
     token::{self},
 };
 
@@ -13,6 +13,27 @@ pub mod exports {
     pub use syn;
 }
 
+/// Parse with `f`. If it fails, nothing is consumed and `None` is returned.
+pub fn try_parse<T>(input: ParseStream, f: impl Fn(ParseStream) -> Result<T>) -> Result<Option<T>> {
+    let fork = input.fork();
+    let Ok(value) = f(&fork) else {
+        return Ok(None);
+    };
+    if fork.cursor().partial_cmp(&input.cursor()).is_some() {
+        input.advance_to(&fork);
+        return Ok(Some(value));
+    }
+    // `TokenStream::parse` leaves `fork` outside of the buffer of `input`, which `advance_to` refuses.
+    let end = input.fork();
+    let mut tokens = TokenStream::new();
+    while !end.is_empty() {
+        tokens.extend([end.parse::<TokenTree>()?]);
+    }
+    let value = Parser::parse2(&f, tokens)?;
+    input.advance_to(&end);
+    Ok(Some(value))
+}
+
 pub enum NameIndex {
     Flag(std::result::Result<usize, Ident>),
     NameValue(std::result::Result<usize, Ident>),
-- 
2.43.0


From 02fc3b635dfcf1248e188305239e77695e513af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:11 +0000
Subject: [PATCH 10/15] fix: derived code resolves its own variables when
 fields come from another macro

---
 structmeta-derive/src/struct_meta.rs | 21 +++++++++++++--------
 structmeta-derive/src/syn_utils.rs   | 10 +++++++++-
 structmeta-derive/src/to_tokens.rs   |  6 ++++--
 3 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/structmeta-derive/src/struct_meta.rs b/structmeta-derive/src/struct_meta.rs
index f98c0d7..9925d4c 100644
--- a/structmeta-derive/src/struct_meta.rs
+++ b/structmeta-derive/src/struct_meta.rs
@@ -367,7 +367,8 @@ impl<'a> ParamInfo<'a> {
     fn build_let_parse(&self) -> TokenStream {
         let temp_ident = &self.temp_ident;
         let ty = &self.field.ty;
-        quote_spanned!(self.span()=> let #temp_ident = input.parse::<#ty>()?;)
+        let input = local_ident("input");
+        quote_spanned!(self.span()=> let #temp_ident = #input.parse::<#ty>()?;)
     }
 }
 
@@ -401,10 +402,11 @@ impl NamedParam<'_> {
         let span = self.info.field.span();
         let expr = self.ty.build_parse_expr(kind, span);
         let var = kind.to_helper_name_index_variant();
+        let span_var = local_ident("span");
         quote_spanned! { span=>
             ::structmeta::helpers::NameIndex::#var(Ok(#index)) => {
                 if #temp_ident.is_some() {
-                    return Err(::structmeta::helpers::exports::syn::Error::new(span, #msg));
+                    return Err(::structmeta::helpers::exports::syn::Error::new(#span_var, #msg));
                 }
                 #temp_ident = Some(#expr);
             }
@@ -444,10 +446,11 @@ impl RestParam<'_> {
         let span = self.info.field.span();
         let expr = self.ty.build_parse_expr(kind, span);
         let var = kind.to_helper_name_index_variant();
+        let span_var = local_ident("span");
         quote_spanned! { span=>
             ::structmeta::helpers::NameIndex::#var(Err(name)) => {
                 if #temp_ident.insert(name.to_string(), #expr).is_some() {
-                    return Err(::structmeta::helpers::exports::syn::Error::new(span, format!("parameter `{}` specified more than once", name)));
+                    return Err(::structmeta::helpers::exports::syn::Error::new(#span_var, format!("parameter `{}` specified more than once", name)));
                 }
             }
         }
@@ -755,18 +758,20 @@ impl<'a> NamedParamType<'a> {
 }
 
 fn build_parse_expr(ty: &Type, span: Span) -> TokenStream {
-    quote_spanned!(span=> input.parse::<#ty>()?)
+    let input = local_ident("input");
+    quote_spanned!(span=> #input.parse::<#ty>()?)
 }
 fn build_parse_expr_name_args(ty: &Type, is_vec: bool, span: Span) -> TokenStream {
+    let content = local_ident("content");
     let value = if is_vec {
-        quote_spanned!(span=> ::structmeta::helpers::exports::syn::punctuated::Punctuated::<#ty, ::structmeta::helpers::exports::syn::Token![,]>::parse_terminated(&content)?.into_iter().collect())
+        quote_spanned!(span=> ::structmeta::helpers::exports::syn::punctuated::Punctuated::<#ty, ::structmeta::helpers::exports::syn::Token![,]>::parse_terminated(&#content)?.into_iter().collect())
     } else {
-        quote_spanned!(span=> content.parse::<#ty>()?)
+        quote_spanned!(span=> #content.parse::<#ty>()?)
     };
     quote! {
         {
-            let content;
-            ::structmeta::helpers::exports::syn::parenthesized!(content in input);
+            let #content;
+            ::structmeta::helpers::exports::syn::parenthesized!(#content in input);
             #value
         }
     }
diff --git a/structmeta-derive/src/syn_utils.rs b/structmeta-derive/src/syn_utils.rs
index 1dd939a..81f5900 100644
--- a/structmeta-derive/src/syn_utils.rs
+++ b/structmeta-derive/src/syn_utils.rs
@@ -1,4 +1,4 @@
-use proc_macro2::TokenStream;
+use proc_macro2::{Ident, Span, TokenStream};
 use quote::quote;
 use syn::{
     DeriveInput, Path, PathArguments, PathSegment, Result, Token, Type, WherePredicate,
@@ -63,6 +63,14 @@ pub fn impl_trait_result(
     Ok(ts)
 }
 
+/// Identifier of a local variable of the generated code.
+///
+/// Code with the span of a field (`quote_spanned!(field.span()=> ...)`) must use this to name a variable defined outside of that code,
+/// because the field may come from another macro.
+pub fn local_ident(name: &str) -> Ident {
+    Ident::new(name, Span::call_site())
+}
+
 pub fn is_type(ty: &Type, ns: &[&[&str]], name: &str) -> bool {
     if let Some(a) = get_arguments_of(ty, ns, name) {
         a.is_empty()
diff --git a/structmeta-derive/src/to_tokens.rs b/structmeta-derive/src/to_tokens.rs
index e23d8a7..80d2bd0 100644
--- a/structmeta-derive/src/to_tokens.rs
+++ b/structmeta-derive/src/to_tokens.rs
@@ -164,7 +164,8 @@ impl Scope<'_> {
                 let ty = s.token_type_ident();
                 quote_spanned!(span=> ::structmeta::helpers::exports::syn::token::#ty::surround)
             };
-            let code = quote_spanned!(span=> #func(#ident, tokens, |tokens| { #ts }););
+            let tokens = local_ident("tokens");
+            let code = quote_spanned!(span=> #func(#ident, #tokens, |#tokens| { #ts }););
             return Ok(code);
         }
         Ok(quote!())
@@ -209,7 +210,8 @@ fn code_from_fields(fields: &Fields) -> Result<TokenStream> {
             }
         }
         if field_to_tokens {
-            let code = quote_spanned!(field.span()=> ::structmeta::helpers::exports::quote::ToTokens::to_tokens(#ident, tokens););
+            let tokens = local_ident("tokens");
+            let code = quote_spanned!(field.span()=> ::structmeta::helpers::exports::quote::ToTokens::to_tokens(#ident, #tokens););
             scopes.last_mut().unwrap().ts.extend(code);
         }
     }
-- 
2.43.0


From 3b2b3fed2e7c389af78f79d042e431d1131a2e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 11/15] fix: special types are recognised when they are passed
 through a macro_rules macro

---
 structmeta-derive/src/syn_utils.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/structmeta-derive/src/syn_utils.rs b/structmeta-derive/src/syn_utils.rs
index 81f5900..6a58d9a 100644
--- a/structmeta-derive/src/syn_utils.rs
+++ b/structmeta-derive/src/syn_utils.rs
@@ -79,6 +79,11 @@ pub fn is_type(ty: &Type, ns: &[&[&str]], name: &str) -> bool {
     }
 }
 pub fn get_arguments_of<'a>(ty: &'a Type, ns: &[&[&str]], name: &str) -> Option<&'a PathArguments> {
+    let mut ty = ty;
+    // A type passed through `macro_rules` is enclosed by an invisible group.
+    while let Type::Group(group) = ty {
+        ty = &group.elem;
+    }
     if let Type::Path(ty) = ty {
         if ty.qself.is_some() {
             return None;
-- 
2.43.0


From b2c1fd9c3cd7d1da2535aef8cbf2ec29e90257d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:35 +0000
Subject: [PATCH 12/15] fix: a variant that ends with a TokenStream is parsed
 once

try_parse parsed such a variant a second time, so every parser in it was
called twice, and in nested enums the time doubled with every level.
---
 structmeta/src/helpers.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/structmeta/src/helpers.rs b/structmeta/src/helpers.rs
index e099f67..788a74a 100644
--- a/structmeta/src/helpers.rs
+++ b/structmeta/src/helpers.rs
@@ -1,9 +1,9 @@
-use proc_macro2::{Ident, Span, TokenStream, TokenTree};
+use proc_macro2::{Ident, Span, TokenStream};
 use syn::{
     MacroDelimiter, Result, Token, braced, bracketed,
     ext::IdentExt,
     parenthesized,
-    parse::{ParseBuffer, ParseStream, Parser, discouraged::Speculative},
+    parse::{ParseBuffer, ParseStream, discouraged::Speculative},
     token::{self},
 };
 
@@ -19,18 +19,11 @@ pub fn try_parse<T>(input: ParseStream, f: impl Fn(ParseStream) -> Result<T>) ->
     let Ok(value) = f(&fork) else {
         return Ok(None);
     };
-    if fork.cursor().partial_cmp(&input.cursor()).is_some() {
-        input.advance_to(&fork);
-        return Ok(Some(value));
+    if fork.cursor().partial_cmp(&input.cursor()).is_none() {
+        // `TokenStream::parse` left `fork` outside of the buffer of `input`; `advance_to` needs both there.
+        input.parse::<TokenStream>()?;
     }
-    // `TokenStream::parse` leaves `fork` outside of the buffer of `input`, which `advance_to` refuses.
-    let end = input.fork();
-    let mut tokens = TokenStream::new();
-    while !end.is_empty() {
-        tokens.extend([end.parse::<TokenTree>()?]);
-    }
-    let value = Parser::parse2(&f, tokens)?;
-    input.advance_to(&end);
+    input.advance_to(&fork);
     Ok(Some(value))
 }
 
-- 
2.43.0


From e2558e4b1330fcdfeac1edb61e54ee4260969344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:40 +0000
Subject: [PATCH 13/15] fix: helper attributes in places where they have no
 meaning are reported

---
 structmeta-derive/src/parse.rs               | 31 ++++++++++++++++
 structmeta-derive/src/to_tokens.rs           |  2 ++
 structmeta-derive/src/to_tokens_attribute.rs | 37 +++++++++++++++++++-
 3 files changed, 69 insertions(+), 1 deletion(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index fcddba0..1ddeb06 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -15,8 +15,10 @@ pub fn derive_parse(input: DeriveInput) -> Result<TokenStream> {
         if attr.path().is_ident("parse") {
             let attr: ParseAttribute = attr.parse_args()?;
             dump = dump || attr.dump.is_some();
+            attr.check_no_field_args()?;
         }
     }
+    check_to_tokens_attributes(&input)?;
 
     let ts = match &input.data {
         Data::Struct(data) => code_from_struct(data)?,
@@ -52,6 +54,14 @@ fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
     let mut input_is_moved = false;
     for index in 0..data.variants.len() {
         let variant = &data.variants[index];
+        for attr in &variant.attrs {
+            if attr.path().is_ident("parse") {
+                bail!(
+                    attr.path().span(),
+                    "`#[parse]` cannot be specified with a variant."
+                );
+            }
+        }
         let variant_ident = &variant.ident;
         let is_last = index == data.variants.len() - 1;
         let fn_ident = format_ident!("_parse_{}", &variant.ident);
@@ -154,6 +164,7 @@ fn code_from_fields(
         for attr in &field.attrs {
             if attr.path().is_ident("to_tokens") {
                 let attr: ToTokensAttribute = attr.parse_args()?;
+                attr.check_field()?;
                 for token in attr.token {
                     for c in token.value().chars() {
                         match c {
@@ -205,11 +216,20 @@ fn code_from_fields(
             }
             if attr.path().is_ident("parse") {
                 let attr: ParseAttribute = attr.parse_args()?;
+                if let Some(dump) = attr.dump {
+                    bail!(dump.span(), "`dump` cannot be specified with a field.");
+                }
                 peek = peek.or(attr.peek);
                 is_any = is_any || attr.any.is_some();
                 is_terminated = is_terminated || attr.terminated.is_some();
             }
         }
+        if !use_parse && (is_any || is_terminated) {
+            bail!(
+                field.span(),
+                "`any` and `terminated` cannot be specified with a field that encloses other fields."
+            );
+        }
         if let Some(peeks) = &mut peeks {
             if let Some(peek) = peek {
                 let span = peek.span();
@@ -318,6 +338,17 @@ impl Parse for ParseAttribute {
         })
     }
 }
+impl ParseAttribute {
+    fn check_no_field_args(&self) -> Result<()> {
+        if let Some(span) = (self.any.map(|kw| kw.span()))
+            .or(self.peek.map(|kw| kw.span()))
+            .or(self.terminated.map(|kw| kw.span()))
+        {
+            bail!(span, "only `dump` can be specified with a struct or enum.");
+        }
+        Ok(())
+    }
+}
 mod kw {
     use syn::custom_keyword;
     custom_keyword!(any);
diff --git a/structmeta-derive/src/to_tokens.rs b/structmeta-derive/src/to_tokens.rs
index 80d2bd0..2121c57 100644
--- a/structmeta-derive/src/to_tokens.rs
+++ b/structmeta-derive/src/to_tokens.rs
@@ -14,6 +14,7 @@ pub fn derive_to_tokens(input: DeriveInput) -> Result<TokenStream> {
             dump = dump || attr.dump.is_some();
         }
     }
+    check_to_tokens_attributes(&input)?;
 
     let ts = match &input.data {
         Data::Struct(data) => code_from_struct(data)?,
@@ -179,6 +180,7 @@ fn code_from_fields(fields: &Fields) -> Result<TokenStream> {
         for attr in &field.attrs {
             if attr.path().is_ident("to_tokens") {
                 let attr: ToTokensAttribute = attr.parse_args()?;
+                attr.check_field()?;
                 for token in &attr.token {
                     for c in token.value().chars() {
                         if let Some(delimiter) = delimiter_from_open_char(c) {
diff --git a/structmeta-derive/src/to_tokens_attribute.rs b/structmeta-derive/src/to_tokens_attribute.rs
index e43bdae..7035412 100644
--- a/structmeta-derive/src/to_tokens_attribute.rs
+++ b/structmeta-derive/src/to_tokens_attribute.rs
@@ -1,5 +1,5 @@
 use proc_macro2::Span;
-use syn::{LitStr, Result, Token, parse::Parse, spanned::Spanned};
+use syn::{Data, DeriveInput, LitStr, Result, Token, parse::Parse, spanned::Spanned};
 
 pub struct ToTokensAttribute {
     pub dump: Option<Span>,
@@ -26,6 +26,41 @@ impl Parse for ToTokensAttribute {
     }
 }
 
+/// `#[to_tokens]` must be specified only where it has a meaning.
+pub fn check_to_tokens_attributes(input: &DeriveInput) -> Result<()> {
+    for attr in &input.attrs {
+        if attr.path().is_ident("to_tokens") {
+            let attr: ToTokensAttribute = attr.parse_args()?;
+            if let Some(token) = attr.token.first() {
+                bail!(
+                    token.span(),
+                    "only `dump` can be specified with a struct or enum."
+                );
+            }
+        }
+    }
+    if let Data::Enum(data) = &input.data {
+        for attr in data.variants.iter().flat_map(|v| &v.attrs) {
+            if attr.path().is_ident("to_tokens") {
+                bail!(
+                    attr.path().span(),
+                    "`#[to_tokens]` cannot be specified with a variant."
+                );
+            }
+        }
+    }
+    Ok(())
+}
+
+impl ToTokensAttribute {
+    pub fn check_field(&self) -> Result<()> {
+        if let Some(span) = self.dump {
+            bail!(span, "`dump` cannot be specified with a field.");
+        }
+        Ok(())
+    }
+}
+
 mod kw {
     use syn::custom_keyword;
     custom_keyword!(dump);
-- 
2.43.0


From 0d085718db92825350eb53c5b59b9215d9b86f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:18 +0000
Subject: [PATCH 14/15] fix: derived code does not warn about the case of field
 names

---
 structmeta-derive/src/parse.rs     |  3 ++-
 structmeta-derive/src/to_tokens.rs | 15 ++++++++-------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index 1ddeb06..a03e368 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -293,8 +293,9 @@ fn code_from_fields(
 }
 
 fn to_var_ident(index: usize, ident: &Option<Ident>) -> Ident {
+    // not named after the field, whose name may not be in snake case
     if let Some(ident) = ident {
-        format_ident!("_{}", ident)
+        format_ident!("_field_{}", index, span = ident.span())
     } else {
         format_ident!("_{}", index)
     }
diff --git a/structmeta-derive/src/to_tokens.rs b/structmeta-derive/src/to_tokens.rs
index 2121c57..48b7fc2 100644
--- a/structmeta-derive/src/to_tokens.rs
+++ b/structmeta-derive/src/to_tokens.rs
@@ -73,15 +73,15 @@ fn to_pattern(self_path: TokenStream, fields: &Fields) -> TokenStream {
         Fields::Unit => self_path,
         Fields::Unnamed(_) => {
             for (index, field) in fields.iter().enumerate() {
-                let var_ident = to_var_ident(Some(index), &field.ident);
+                let var_ident = to_var_ident(index, &field.ident);
                 vars.push(quote!(#var_ident));
             }
             quote!( #self_path( #(#vars,)*))
         }
         Fields::Named(_) => {
-            for field in fields.iter() {
+            for (index, field) in fields.iter().enumerate() {
                 let field_ident = &field.ident;
-                let var_ident = to_var_ident(None, field_ident);
+                let var_ident = to_var_ident(index, field_ident);
                 vars.push(quote!(#field_ident : #var_ident));
             }
             quote!( #self_path { #(#vars,)* } )
@@ -175,7 +175,7 @@ impl Scope<'_> {
 fn code_from_fields(fields: &Fields) -> Result<TokenStream> {
     let mut scopes = vec![Scope::new(None)];
     for (index, field) in fields.iter().enumerate() {
-        let ident = to_var_ident(Some(index), &field.ident);
+        let ident = to_var_ident(index, &field.ident);
         let mut field_to_tokens = true;
         for attr in &field.attrs {
             if attr.path().is_ident("to_tokens") {
@@ -229,10 +229,11 @@ fn code_from_fields(fields: &Fields) -> Result<TokenStream> {
     }
     unreachable!()
 }
-fn to_var_ident(index: Option<usize>, ident: &Option<Ident>) -> Ident {
+fn to_var_ident(index: usize, ident: &Option<Ident>) -> Ident {
+    // not named after the field, whose name may not be in snake case
     if let Some(ident) = ident {
-        format_ident!("_{}", ident)
+        format_ident!("_field_{}", index, span = ident.span())
     } else {
-        format_ident!("_{}", index.unwrap())
+        format_ident!("_{}", index)
     }
 }
-- 
2.43.0


From aa85845d3263d5a64af88eaee9c0ad470afce5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:50 +0000
Subject: [PATCH 15/15] fix: derived code does not warn about what the
 definition marks as deprecated

---
 structmeta-derive/src/syn_utils.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/structmeta-derive/src/syn_utils.rs b/structmeta-derive/src/syn_utils.rs
index 6a58d9a..0f98c0f 100644
--- a/structmeta-derive/src/syn_utils.rs
+++ b/structmeta-derive/src/syn_utils.rs
@@ -1,8 +1,8 @@
 use proc_macro2::{Ident, Span, TokenStream};
 use quote::quote;
 use syn::{
-    DeriveInput, Path, PathArguments, PathSegment, Result, Token, Type, WherePredicate,
-    punctuated::Punctuated,
+    Attribute, Data, DeriveInput, Fields, Path, PathArguments, PathSegment, Result, Token, Type,
+    WherePredicate, punctuated::Punctuated,
 };
 
 macro_rules! bail {
@@ -42,13 +42,28 @@ pub fn impl_trait(
     } else {
         quote! { where #(#wheres,)*}
     };
+    let allow_deprecated = is_deprecated(input).then(|| quote!(#[allow(deprecated)]));
     quote! {
         #[automatically_derived]
+        #allow_deprecated
         impl #impl_g #trait_path for #ty #ty_g #where_clause {
             #contents
         }
     }
 }
+/// Whether the generated code uses something the user has marked as deprecated.
+fn is_deprecated(input: &DeriveInput) -> bool {
+    let deprecated = |attrs: &[Attribute]| attrs.iter().any(|a| a.path().is_ident("deprecated"));
+    let fields = |fields: &Fields| fields.iter().any(|f| deprecated(&f.attrs));
+    deprecated(&input.attrs)
+        || match &input.data {
+            Data::Struct(data) => fields(&data.fields),
+            Data::Enum(data) => {
+                (data.variants.iter()).any(|v| deprecated(&v.attrs) || fields(&v.fields))
+            }
+            Data::Union(_) => false,
+        }
+}
 pub fn impl_trait_result(
     input: &DeriveInput,
     trait_path: &Path,
-- 
2.43.0

