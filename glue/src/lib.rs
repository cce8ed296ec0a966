//! Observation of parsed values and entry point of the generated shard programs.
use kit::val::{Pos, Val};
use std::collections::HashMap;

pub mod algebra;
pub use kit;
pub use structmeta;

pub trait Obs {
    fn obs(&self) -> Val;
}
macro_rules! leaf {
    ($($t:ty),* $(,)?) => {$(impl Obs for $t { fn obs(&self) -> Val { Val::leaf(self) } })*};
}
leaf!(
    syn::LitInt, syn::LitStr, syn::LitBool, syn::LitChar, syn::LitFloat, syn::Lit, syn::Ident, syn::Expr, syn::Type, syn::Path,
    syn::Lifetime, kit::types::Kv, kit::types::Rule, syn::Visibility, proc_macro2::TokenStream,
    kit::types::look::Flag, kit::types::look::bool, kit::types::look::MacroDelimiter,
);
impl<T: Obs> Obs for kit::types::Seen<T> { fn obs(&self) -> Val { self.0.obs() } }
impl Obs for kit::types::Ints { fn obs(&self) -> Val { Val::leaf(self) } }
impl<const N: usize> Obs for kit::types::Rep<N> { fn obs(&self) -> Val { Val::leaf(self) } }
impl Obs for kit::types::Lt<'_> { fn obs(&self) -> Val { Val::leaf(self) } }
impl<T> Obs for kit::types::look::Option<T> { fn obs(&self) -> Val { Val::leaf(self) } }
impl<T> Obs for kit::types::look::Vec<T> { fn obs(&self) -> Val { Val::leaf(self) } }
impl<T> Obs for kit::types::look::NameValue<T> { fn obs(&self) -> Val { Val::leaf(self) } }
impl<T> Obs for kit::types::look::NameArgs<T> { fn obs(&self) -> Val { Val::leaf(self) } }
impl<K, V> Obs for kit::types::look::HashMap<K, V> { fn obs(&self) -> Val { Val::leaf(self) } }

impl Obs for bool { fn obs(&self) -> Val { Val::Bool(*self) } }
impl Obs for structmeta::Flag { fn obs(&self) -> Val { Val::Flag(self.span.map(Pos::of)) } }
impl<T: Obs> Obs for Option<T> {
    fn obs(&self) -> Val {
        match self {
            None => Val::None,
            Some(v) => Val::Some(Box::new(v.obs())),
        }
    }
}
impl<T: Obs> Obs for Vec<T> { fn obs(&self) -> Val { Val::List(self.iter().map(|v| v.obs()).collect()) } }
impl<T: Obs> Obs for HashMap<String, T> {
    fn obs(&self) -> Val { Val::Map(self.iter().map(|(k, v)| (k.clone(), v.obs())).collect()) }
}
impl<T: Obs> Obs for structmeta::NameValue<T> { fn obs(&self) -> Val { Val::NV(Pos::of(self.name_span), Box::new(self.value.obs())) } }
impl<T: Obs> Obs for structmeta::NameArgs<T> { fn obs(&self) -> Val { Val::NA(Pos::of(self.name_span), Box::new(self.args.obs())) } }
