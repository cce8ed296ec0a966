//! Things around a definition that mean nothing to the derives: `cfg`, `cfg_attr`, other attributes,
//! parts that are configured out, visibilities, discriminants, comments.
use crate::mac::{Rng, base, whole};
use syn::spanned::Spanned;

struct Out {
    v: Vec<(usize, String)>,
    r: Rng,
    gone: usize,
}
impl Out {
    fn put(&mut self, at: usize, text: impl Into<String>) {
        self.v.push((at, text.into()));
    }
    fn pick<'a>(&mut self, from: &[&'a str]) -> &'a str {
        from[self.r.next() as usize % from.len()]
    }
    fn attrs(&mut self, attrs: &[syn::Attribute]) {
        for a in attrs {
            if matches!(a.meta, syn::Meta::List(_)) && self.r.pct(12) {
                let s = whole(&a.meta).byte_range();
                let cfg = self.pick(&["all()", "not(any())", "not(no_such_cfg)", "all(), allow(dead_code)"]);
                self.put(s.start, format!("cfg_attr({cfg}, "));
                self.put(s.end, ")");
            }
        }
    }
    fn fields(&mut self, fs: &syn::Fields, is_struct: bool) {
        for f in fs {
            let at = whole(f).byte_range().start;
            if self.r.pct(8) {
                self.gone += 1;
                let helper = self.pick(&["", "#[struct_meta(no such thing)] ", "#[doc = \"x\"] "]);
                let helper = if is_struct { helper } else { "" };
                let name = if f.ident.is_some() { format!("gone{}: ", self.gone) } else { String::new() };
                self.put(at, format!("#[cfg(any())] {helper}{name}NoSuchType, "));
            }
            if self.r.pct(12) {
                let a = self.pick(&["#[cfg(all())] ", "#[doc(hidden)] ", "#[deprecated] ", "/* no, */ ", "#[allow(clippy::all)] ", "// pub\n        ", "#[cfg_attr(any(), no_such)] ", "/** doc */ "]);
                self.put(at, a);
            }
            self.attrs(&f.attrs);
            if let (syn::Visibility::Public(p), true) = (&f.vis, self.r.pct(10)) {
                let v = self.pick(&["(super)", "(in super)", "(self)", "(crate)"]);
                self.put(p.span().byte_range().end, v);
            }
        }
    }
}

pub fn dress(def: &str, seed: u32) -> String {
    let Ok(item) = syn::parse_str::<syn::DeriveInput>(def) else { return def.to_string() };
    let mut o = Out { v: Vec::new(), r: Rng(seed as u64), gone: 0 };
    o.attrs(&item.attrs);
    let at = whole(&item.vis).byte_range().start;
    if o.r.pct(30) {
        let a = o.pick(&["#[non_exhaustive] ", "#[must_use] ", "#[deprecated] ", "#[doc(hidden)] ", "#[doc = \"(x\"] ", "#[cfg(all())] ", "#[cfg_attr(any(), derive(NoSuch))] ", "/* pub enum */ "]);
        o.put(at, a);
    }
    match &item.data {
        syn::Data::Struct(d) => o.fields(&d.fields, true),
        syn::Data::Enum(d) => {
            let n = d.variants.len();
            let unit = d.variants.iter().all(|v| v.fields.is_empty() && matches!(v.fields, syn::Fields::Unit));
            let repr = n > 0 && o.r.pct(12);
            if repr {
                o.put(at, "#[repr(i16)] ");
            }
            let values = (repr || unit) && o.r.pct(60);
            for (k, v) in d.variants.iter().enumerate() {
                let at = whole(v).byte_range().start;
                if o.r.pct(10) {
                    o.gone += 1;
                    let g = o.gone;
                    let body = o.pick(&["", "(NoSuchType)", " { x: NoSuchType }"]);
                    o.put(at, format!("#[cfg(any())] Gone{g}{body}, "));
                }
                if o.r.pct(12) {
                    let a = o.pick(&["#[cfg(all())] ", "#[doc(hidden)] ", "#[deprecated] ", "/* no, */ ", "#[allow(clippy::all)] ", "/** doc */ "]);
                    o.put(at, a);
                }
                o.fields(&v.fields, false);
                if values && o.r.pct(60) {
                    let how = o.r.next() as usize % 3;
                    let k = (n - k) * 10;
                    o.put(whole(v).byte_range().end, match how {
                        0 => format!(" = {k}"),
                        1 => format!(" = {{ const X: i8 = 3; X as {} - {k} }}", if repr { "i16" } else { "isize" }),
                        _ => format!(" = -{k}"),
                    });
                }
            }
        }
        syn::Data::Union(_) => {}
    }
    let Some(base) = base(def, &item) else { return def.to_string() };
    let mut v = o.v;
    v.sort_by_key(|x| x.0);
    let mut out = String::new();
    let mut at = 0;
    for (p, t) in v {
        out.push_str(&def[at..p - base]);
        out.push_str(&t);
        at = p - base;
    }
    out.push_str(&def[at..]);
    out
}

#[cfg(test)]
mod tests {
    #[test]
    fn dresses() {
        let d = "    #[derive(A)]\n    pub enum Ä { /// dö\n A(#[parse(peek)] Option<Vec<T>>, u8), B { #[parse(any)] x: u8 }, C }\n";
        let mut seen = std::collections::BTreeSet::new();
        for s in 0..200 {
            let w = super::dress(d, s);
            syn::parse_str::<syn::File>(&w).expect(&w);
            seen.insert(w);
        }
        assert!(seen.len() > 50);
        println!("{}", seen.iter().next().unwrap());
    }
}
