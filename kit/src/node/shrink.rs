use super::schema::*;
use super::toks::NLeaf;

pub fn smaller(cur: &NSchema) -> Vec<NSchema> {
    let mut out: Vec<NSchema> = Vec::new();
    let mut push = |c: NSchema| {
        let c = prune(c);
        if c != *cur && valid(&c) && !out.contains(&c) {
            out.push(c)
        }
    };
    let nv = cur.variants.len();
    if cur.is_enum && nv > 1 {
        if nv > 3 {
            for st in [0, nv / 2] {
                let mut c = cur.clone();
                c.variants.drain(st..(st + nv / 2).min(nv));
                push(c);
            }
        }
        for i in 0..nv {
            let mut c = cur.clone();
            c.variants.remove(i);
            push(c);
        }
    }
    for v in 0..nv {
        let n = cur.variants[v].fields.len();
        for k in [n / 2, n / 3] {
            if k > 1 {
                for st in (0..n).step_by(k) {
                    let mut c = cur.clone();
                    c.variants[v].fields.drain(st..(st + k).min(n));
                    push(c);
                }
            }
        }
        for i in 0..n {
            let mut c = cur.clone();
            let f = c.variants[v].fields.remove(i);
            // the symbols that close earlier groups move on
            if let (true, Some(next)) = (f.syms.iter().any(|s| matches!(s, Sym::Close(_))), c.variants[v].fields.get_mut(i)) {
                let mut s: Vec<Sym> = f.syms.iter().copied().filter(|s| matches!(s, Sym::Close(_))).collect();
                s.extend(next.syms.iter().copied());
                next.syms = s;
            }
            push(c);
            // a whole pair
            let mut c = cur.clone();
            let f = c.variants[v].fields.remove(i);
            if let Some(Sym::Open(o)) = f.syms.last().copied() {
                let mut depth = 0;
                'all: for g in &mut c.variants[v].fields[i..] {
                    for k in 0..g.syms.len() {
                        match g.syms[k] {
                            Sym::Open(_) => depth += 1,
                            Sym::Close(x) if depth == 0 => {
                                if x == o {
                                    g.syms.remove(k);
                                }
                                break 'all;
                            }
                            Sym::Close(_) => depth -= 1,
                        }
                    }
                }
                push(c);
            }
        }
    }
    let mut c = cur.clone();
    plain(&mut c);
    push(c);
    let mut c = cur.clone();
    plain(&mut c);
    for f in c.variants.iter_mut().flat_map(|v| v.fields.iter_mut()) {
        if matches!(f.kind, FieldKind::Leaf(_)) && !f.peek && !f.any {
            f.kind = FieldKind::Leaf(NLeaf::LitInt);
        }
    }
    push(c);
    out
}
fn plain(c: &mut NSchema) {
    c.noise = 0;
    c.scope = 0;
    c.mac = 0;
    c.dress = 0;
    c.edition = 0;
    c.derive_spell = 0;
    for f in c.variants.iter_mut().flat_map(|v| v.fields.iter_mut()) {
        f.noise = 0;
        f.vis = 0;
        f.spell = 0;
        f.sym_style = 0;
    }
    c.subs.iter_mut().for_each(plain);
}
fn prune(mut c: NSchema) -> NSchema {
    let used: Vec<usize> = (0..c.generics.len()).filter(|g| c.fields().any(|f| f.kind == FieldKind::Param(*g))).collect();
    let subs: Vec<usize> = (0..c.subs.len()).filter(|g| c.fields().any(|f| matches!(f.kind, FieldKind::Sub(k) | FieldKind::BoxSub(k) if k == *g))).collect();
    for f in c.variants.iter_mut().flat_map(|v| v.fields.iter_mut()) {
        match &mut f.kind {
            FieldKind::Param(g) => *g = used.iter().position(|u| u == g).unwrap(),
            FieldKind::Sub(g) | FieldKind::BoxSub(g) => *g = subs.iter().position(|u| u == g).unwrap(),
            _ => {}
        }
    }
    c.generics = used.iter().map(|&u| c.generics[u].clone()).collect();
    c.subs = subs.iter().map(|&u| c.subs[u].clone()).collect();
    c
}
fn valid(c: &NSchema) -> bool {
    c.variants.iter().all(|v| {
        let Some(_) = tree(&v.fields) else { return false };
        let r = roots(&v.fields);
        let n = v.fields.iter().filter(|f| f.peek).count();
        v.fields.iter().enumerate().all(|(i, f)| {
            let opens = f.syms.iter().filter(|s| matches!(s, Sym::Open(_))).count();
            let delim = matches!(f.kind, FieldKind::Delim(_) | FieldKind::MacroDelim);
            let guarded = f.kind != FieldKind::SelfBox || !r.contains(&i) || v.fields[..i].iter().any(super::gener::consumes);
            opens == delim as usize && (!f.peek || r.contains(&i)) && guarded
        }) && r.iter().take(n).all(|&i| v.fields[i].peek)
    })
}
