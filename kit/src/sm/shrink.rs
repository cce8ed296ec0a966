use super::schema::*;

pub fn smaller(cur: &SmSchema) -> Vec<SmSchema> {
    let mut out: Vec<SmSchema> = Vec::new();
    let n = cur.fields.len();
    let mut push = |c: SmSchema| {
        if c != *cur && !out.contains(&c) {
            out.push(c)
        }
    };
    for k in [n / 2, n / 3] {
        if k > 1 {
            for st in (0..n).step_by(k) {
                let mut c = cur.clone();
                c.fields.drain(st..(st + k).min(n));
                push(prune(c));
            }
        }
    }
    for i in 0..n {
        let mut c = cur.clone();
        c.fields.remove(i);
        push(prune(c));
    }
    let mut c = cur.clone();
    c.mac = 0;
    push(c);
    let mut c = cur.clone();
    c.dress = 0;
    push(c);
    let mut c = cur.clone();
    c.edition = 0;
    push(c);
    let mut c = cur.clone();
    c.noise = 0;
    c.scope = 0;
    c.derive_spell = 0;
    for f in &mut c.fields {
        f.noise = 0;
        f.vis = 0;
        f.spell = Spell { opt: 0, vec: 0, map: 0, string: 0, sm: 0, boolean: 0, leaf: 0 };
    }
    push(c);
    out
}
fn prune(mut c: SmSchema) -> SmSchema {
    // unused generics would not compile
    let used: Vec<usize> = (0..c.generics.len()).filter(|g| c.fields.iter().any(|f| f.leaf == LeafTy::Param(*g))).collect();
    for f in &mut c.fields {
        if let LeafTy::Param(g) = f.leaf {
            f.leaf = LeafTy::Param(used.iter().position(|u| *u == g).unwrap());
        }
    }
    c.generics = used.iter().map(|&u| c.generics[u].clone()).collect();
    c
}
