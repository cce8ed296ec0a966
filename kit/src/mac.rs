//! Definitions written by a `macro_rules` macro: parts of the definition (types, fields, names,
//! literals, attributes, ...) are handed to the macro, so that the derive sees invisible groups and
//! identifiers from two syntax contexts. The meaning is that of the plain definition.
use proc_macro2::Span;
use std::fmt::Write;
use std::ops::Range;
use syn::spanned::Spanned;

pub(crate) struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn pct(&mut self, p: u64) -> bool {
        self.next() % 100 < p
    }
}

/// a part of the text handed to the macro as this fragment; "" stands for any tokens
struct Hole {
    at: Range<usize>,
    frag: &'static str,
}

struct Holes {
    v: Vec<Hole>,
    r: Rng,
}
impl Holes {
    fn put(&mut self, at: Range<usize>, frag: &'static str) {
        if at.is_empty() && frag != "vis" || self.v.iter().any(|h| h.at.start < at.end && at.start < h.at.end) {
            return;
        }
        self.v.push(Hole { at, frag });
    }
    fn span(&mut self, s: Span, frag: &'static str) {
        self.put(s.byte_range(), frag);
    }
    fn ty(&mut self, ty: &syn::Type) {
        if self.r.pct(30) {
            if let syn::Type::Path(p) = ty {
                if let Some(syn::PathArguments::AngleBracketed(a)) = p.path.segments.last().map(|s| &s.arguments) {
                    for a in &a.args {
                        if let syn::GenericArgument::Type(t) = a {
                            self.ty(t);
                        }
                    }
                    return;
                }
            }
        }
        self.span(whole(ty), "ty");
    }
    fn attr(&mut self, a: &syn::Attribute) {
        let helper = ["struct_meta", "parse", "to_tokens"].iter().any(|n| a.path().is_ident(n));
        if self.r.pct(8) {
            if let syn::Meta::List(_) = &a.meta {
                return self.span(whole(&a.meta), "meta");
            }
        }
        if let (true, syn::Meta::List(l)) = (helper, &a.meta) {
            if self.r.pct(12) {
                return self.span(whole(&l.tokens), "");
            }
            for t in l.tokens.clone() {
                if let proc_macro2::TokenTree::Literal(x) = t {
                    if self.r.pct(25) {
                        let f = ["literal", "expr", "tt"][self.r.next() as usize % 3];
                        self.span(x.span(), f);
                    }
                }
            }
        }
    }
    fn fields(&mut self, fs: &syn::Fields) {
        let fs: Vec<_> = fs.iter().collect();
        if fs.len() > 1 && self.r.pct(8) {
            // several fields at once
            let a = self.r.next() as usize % (fs.len() - 1);
            let b = a + 1 + self.r.next() as usize % (fs.len() - 1 - a);
            self.put(whole(fs[a]).byte_range().start..whole(fs[b]).byte_range().end, "");
        }
        for f in fs {
            match self.r.next() % 10 {
                0..3 => {}
                3..8 => self.ty(&f.ty),
                _ => self.span(whole(f), ""),
            }
            if let Some(i) = &f.ident {
                if self.r.pct(15) {
                    self.span(i.span(), "ident");
                }
            }
            if self.r.pct(15) {
                match &f.vis {
                    syn::Visibility::Inherited => {}
                    v => self.span(whole(v), "vis"),
                }
            }
            for a in &f.attrs {
                self.attr(a);
            }
        }
    }
}
pub(crate) fn whole(t: &impl Spanned) -> Span {
    t.span()
}

/// `def` (one item) written by a macro; unchanged if it cannot be taken apart
pub fn wrap(def: &str, seed: u32) -> String {
    let Ok(item) = syn::parse_str::<syn::DeriveInput>(def) else { return def.to_string() };
    let mut h = Holes { v: Vec::new(), r: Rng(seed as u64) };
    if h.r.pct(30) {
        h.span(item.ident.span(), "ident");
    }
    for a in &item.attrs {
        if h.r.pct(20) {
            h.span(whole(a), "");
        } else {
            h.attr(a);
        }
    }
    match &item.data {
        syn::Data::Struct(d) => h.fields(&d.fields),
        syn::Data::Enum(d) => {
            for v in &d.variants {
                if h.r.pct(12) {
                    h.span(whole(v), "");
                } else {
                    if h.r.pct(15) {
                        h.span(v.ident.span(), "ident");
                    }
                    h.fields(&v.fields);
                }
            }
        }
        syn::Data::Union(_) => {}
    }
    let mut holes = h.v;
    holes.sort_by_key(|h| h.at.start);
    // byte positions of spans count from the beginning of the text of this thread
    let Some(base) = base(def, &item) else { return def.to_string() };
    let (mut pat, mut args, mut body) = (String::new(), String::new(), String::new());
    let mut at = 0;
    for (n, x) in holes.iter().enumerate() {
        let (s, e) = (x.at.start - base, x.at.end - base);
        body.push_str(&def[at..s]);
        at = e;
        if x.frag.is_empty() {
            let _ = write!(pat, " [$($h{n}:tt)*]");
            let _ = write!(body, "$($h{n})*");
        } else {
            let _ = write!(pat, " [$h{n}:{}]", x.frag);
            let _ = write!(body, "$h{n}");
        }
        let _ = writeln!(args, " [{}\n    ]", &def[s..e]);
    }
    body.push_str(&def[at..]);
    let name = format!("define_{}", item.ident.to_string().trim_start_matches("r#"));
    format!("    macro_rules! {name} {{ ({pat} ) => {{\n{body}    }} }}\n    {name}! {{{args} }}\n")
}
/// where byte positions of the text start
pub(crate) fn base(def: &str, item: &syn::DeriveInput) -> Option<usize> {
    let r = item.ident.span().byte_range();
    let id = item.ident.to_string();
    // the position of the item's name is known: it follows `struct` or `enum`
    let kw = match &item.data {
        syn::Data::Struct(_) => format!("pub struct {id}"),
        syn::Data::Enum(_) => format!("pub enum {id}"),
        syn::Data::Union(_) => return None,
    };
    let p = def.find(&kw)? + kw.len() - id.len();
    r.start.checked_sub(p)
}

#[cfg(test)]
mod tests {
    #[test]
    fn wraps() {
        let d = "    #[derive(A)] #[struct_meta(dump)]\n    pub struct Ä { /// dö\n #[struct_meta(name = \"x\")] pub x: Option<Vec<T>>, y: u8 }\n";
        let mut seen = std::collections::BTreeSet::new();
        for s in 0..200 {
            let w = super::wrap(d, s);
            syn::parse_str::<syn::File>(&w).unwrap();
            seen.insert(w);
        }
        assert!(seen.len() > 50);
        println!("{}", seen.iter().next().unwrap());
    }
}
