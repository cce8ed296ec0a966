//! Identifier dictionaries.
use crate::tape::Src;

pub const PLAIN: &[&str] = &[
    "a", "b", "c", "x", "y", "z", "ab", "ba", "abc", "acb", "abd", "value", "name", "names", "flag", "flags", "key",
    "kind", "skip", "rename", "default", "debug", "index", "input", "span", "fork", "content", "args", "arg", "rest",
    "dump", "unnamed", "name_filter", "with", "from", "into", "bound", "crate_name", "rename_all", "skip_if", "x1",
    "x2", "foo_bar", "item", "items", "ident", "tokens", "temp", "is_next", "named_used", "unnamed_index", "_x", "__",
    "_0", "_value_0", "max_length", "min_length", "long_parameter_name_number_one", "long_parameter_name_number_two",
];
pub const OTHER_CASE: &[&str] = &["X", "Foo", "FooBar", "fooBar", "FOO", "A", "Ab", "Value", "NAME", "Self_", "camelCase", "T", "X1"];
pub const UNICODE: &[&str] = &["\u{e9}t\u{e9}", "\u{540d}\u{524d}", "na\u{ef}ve", "\u{3c3}", "\u{df}x"];
/// keywords that may be written r#kw
pub const KEYWORDS: &[&str] = &[
    "if", "fn", "type", "struct", "enum", "match", "move", "ref", "mut", "async", "await", "dyn", "loop", "where",
    "use", "pub", "in", "as", "box", "static", "const", "try", "yield", "abstract", "macro", "gen", "for", "while",
    "let", "else", "impl", "trait", "mod", "return", "break", "continue", "unsafe", "extern", "final", "override",
    "priv", "typeof", "unsized", "virtual", "become", "do", "true", "false",
];
/// words that can only be a name through `name = "..."`
pub const NAME_ONLY: &[&str] = &["self", "Self", "super", "crate"];
/// contextual keywords that are ordinary identifiers
pub const WEAK: &[&str] = &["union", "auto", "default", "raw", "safe", "macro_rules", "dyn_", "r", "br", "c", "cr"];

#[derive(Clone, Copy, Debug)]
pub struct NameMix {
    pub plain: u32,
    pub case: u32,
    pub unicode: u32,
    pub keyword: u32,
    pub weak: u32,
    /// one edit away from an already chosen name
    pub near: u32,
    /// random letters
    pub random: u32,
    /// from a fixed short list (forces collisions with generated-code locals)
    pub long: u32,
}
pub const MIX: NameMix = NameMix { plain: 60, case: 5, unicode: 2, keyword: 8, weak: 3, near: 10, random: 8, long: 2 };

pub fn is_keyword(s: &str) -> bool {
    KEYWORDS.contains(&s)
}

pub fn random_word(s: &mut Src, max: usize) -> String {
    let n = s.range(1, max);
    let mut w = String::new();
    for i in 0..n {
        let set: &[u8] = if i == 0 { b"abcdexyz" } else { b"abcdexyz_019" };
        w.push(*s.pick(set) as char);
    }
    w
}

/// one random edit of `w`: insert, delete, replace or swap neighbours
pub fn edit(s: &mut Src, w: &str) -> String {
    let mut c: Vec<char> = w.chars().collect();
    let alpha: &[u8] = b"abcdeoxyz_s1";
    match s.below(4) {
        0 => {
            let i = s.below(c.len());
            c[i] = *s.pick(alpha) as char;
        }
        1 => {
            let i = s.below(c.len() + 1);
            c.insert(i, *s.pick(alpha) as char);
        }
        2 if c.len() > 1 => {
            let i = s.below(c.len());
            c.remove(i);
        }
        _ if c.len() > 1 => {
            let i = s.below(c.len() - 1);
            c.swap(i, i + 1);
        }
        _ => c.push('s'),
    }
    c.into_iter().collect()
}

pub fn is_ident(w: &str) -> bool {
    !w.is_empty() && w != "_" && syn::parse_str::<proc_macro2::TokenStream>(w).is_ok_and(|t| {
        let v: Vec<_> = t.into_iter().collect();
        v.len() == 1 && matches!(&v[0], proc_macro2::TokenTree::Ident(i) if *i == w)
    })
}

/// a fresh name not in `taken`
pub fn fresh(s: &mut Src, mix: &NameMix, taken: &[String]) -> String {
    for _ in 0..6 {
        let w = match s.weighted(&[mix.plain, mix.case, mix.unicode, mix.keyword, mix.weak, mix.near, mix.random, mix.long]) {
            0 => s.pick(PLAIN).to_string(),
            1 => s.pick(OTHER_CASE).to_string(),
            2 => s.pick(UNICODE).to_string(),
            3 => {
                if s.pct(12) {
                    s.pick(NAME_ONLY).to_string()
                } else {
                    s.pick(KEYWORDS).to_string()
                }
            }
            4 => s.pick(WEAK).to_string(),
            5 if !taken.is_empty() => {
                let w = s.pick(taken).clone();
                edit(s, &w)
            }
            6 => random_word(s, 6),
            _ => random_word(s, 30),
        };
        if is_ident(&w) && !taken.contains(&w) {
            return w;
        }
    }
    let mut i = taken.len();
    loop {
        let w = format!("p{i}");
        if !taken.contains(&w) {
            return w;
        }
        i += 1;
    }
}
