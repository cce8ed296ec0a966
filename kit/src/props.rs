//! What each property generates.
use crate::names::{self, NameMix};
use crate::node;
use crate::sm::{case, case::Mix, case::Variants, gener, gener::Profile};

#[derive(Clone, Debug)]
pub struct SmPlan {
    pub profile: Profile,
    pub mix: Mix,
    pub variants: Variants,
    /// types and cases per type in the quick tier
    pub types: usize,
    pub cases: u32,
    pub tape: usize,
}

pub fn sm_plan(prop: &str) -> Option<SmPlan> {
    let b = gener::BASE;
    let m = case::BASE;
    let v = Variants::default();
    let plan = |profile, mix, variants| SmPlan { profile, mix, variants, types: 800, cases: 900, tape: 160 };
    Some(match prop {
        "C01" => plan(
            Profile { named: 100, req: 15, opt: 12, var: 8, ..b },
            Mix { faults: [85, 13, 2], garbage: 0, present: 65, rest_max: 4, ..m },
            Variants { permute: true, relayout: false },
        ),
        "C02" => plan(b, Mix { faults: [5, 65, 30], garbage: 5, ..m }, v),
        "C03" => plan(
            Profile { req: 55, opt: 55, var: 45, named: 55, max_fields: 4, tuple: 40, interleave: 40, ..b },
            Mix { faults: [45, 45, 10], long: 4, kinds: [25, 4, 4, 2, 4, 40, 8, 8, 2, 2, 4, 2, 8, 1, 2, 1], ..m },
            v,
        ),
        "C04" => plan(
            Profile {
                req: 20, opt: 55, var: 50, named: 80, rest: 25, max_fields: 3, filter: 35, leaves: [10, 10, 10, 45, 10, 15],
                names: NameMix { plain: 50, case: 25, unicode: 6, near: 8, ..names::MIX }, ..b
            },
            Mix { faults: [50, 40, 10], namelike: 85, kinds: [4, 4, 16, 8, 10, 16, 2, 4, 2, 2, 18, 8, 4, 10, 2, 4], ..m },
            v,
        ),
        "C05" => plan(
            Profile { rest: 100, named: 90, max_fields: 5, ..b },
            Mix { faults: [60, 34, 6], rest_max: 6, kinds: [4, 20, 10, 10, 12, 3, 2, 4, 2, 3, 2, 2, 3, 8, 20, 12], ..m },
            v,
        ),
        "C06" => plan(
            Profile { named: 100, req: 8, opt: 8, var: 8, max_fields: 7, optional: 55, styles: [6, 6, 10, 12, 16, 12, 16, 14, 14, 16], ..b },
            Mix { faults: [70, 26, 4], empty: 35, present: 60, trailing: 35, kinds: [6, 2, 1, 1, 26, 1, 2, 8, 12, 22, 4, 4, 4, 1, 1, 1], ..m },
            v,
        ),
        "C07" => plan(
            b,
            Mix { faults: [75, 20, 5], attr: 50, none_group: 15, trailing: 40, layout: [20, 40, 40], kinds: [1, 1, 1, 1, 1, 1, 50, 1, 5, 1, 5, 1, 5, 1, 1, 1], ..m },
            Variants { permute: false, relayout: true },
        ),
        "C08" => plan(
            Profile {
                named: 100, req: 8, opt: 8, var: 8, name_attr: 45, swap_names: 60, max_fields: 8, big: 30,
                names: NameMix { plain: 40, case: 14, unicode: 7, keyword: 40, weak: 10, near: 26, random: 8, long: 3 }, ..b
            },
            Mix { faults: [60, 36, 4], kinds: [2, 6, 10, 22, 4, 1, 1, 1, 1, 1, 1, 1, 1, 25, 2, 8], ..m },
            v,
        ),
        "C09" => plan(b, Mix { faults: [10, 35, 55], garbage: 55, none_group: 15, long: 4, kinds: [2, 2, 2, 2, 4, 4, 8, 8, 10, 8, 10, 10, 40, 6, 2, 2], ..m }, v),
        "C10" => plan(
            Profile { named: 100, req: 10, opt: 8, var: 8, rest: 35, sub: 20, styles: [2, 20, 4, 18, 18, 18, 18, 2, 14, 14], ..b },
            Mix { faults: [92, 8, 0], garbage: 0, layout: [30, 25, 45], rest_max: 4, ..m },
            v,
        ),
        "C11" => plan(
            Profile { named: 92, ..b },
            Mix { faults: [3, 97, 0], garbage: 0, none_group: 0, kinds: [14, 12, 14, 4, 18, 16, 0, 0, 0, 0, 0, 0, 0, 0, 12, 6], ..m },
            v,
        ),
        "C12" => plan(
            Profile {
                named: 100, rest: 0, req: 10, opt: 8, var: 5, max_fields: 6,
                names: NameMix { plain: 50, case: 8, unicode: 6, keyword: 8, weak: 3, near: 20, random: 20, long: 6 }, ..b
            },
            Mix { faults: [2, 98, 0], garbage: 0, none_group: 0, kinds: [0, 0, 12, 88, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], ..m },
            v,
        ),
        "C19" | "C29" => SmPlan {
            types: 1500,
            cases: 60,
            ..plan(
                Profile {
                    generics: 30, scope: 25, hostile: 25, spell: 30, noise: 45, mac: 45, dress: 45, edition: 40, look: 6, tuple: 25, unit: 4, big: 25, sub: 10, name_attr: 25, swap_names: 30,
                    names: NameMix { plain: 60, case: 10, unicode: 5, keyword: 25, weak: 8, near: 6, random: 4, long: 2 }, ..b
                },
                Mix { faults: [80, 18, 2], ..m },
                v,
            )
        },
        "C21" => SmPlan {
            types: 800,
            cases: 300,
            ..plan(Profile { spell: 70, look: 28, generics: 35, mac: 25, ..b }, Mix { faults: [75, 22, 3], ..m }, v)
        },
        "C22" => SmPlan {
            types: 700,
            cases: 250,
            ..plan(
                Profile {
                    generics: 25, scope: 20, hostile: 15, spell: 25, noise: 40, mac: 0, tuple: 25, unit: 4, big: 10, sub: 20, name_attr: 20, filter: 35,
                    names: NameMix { plain: 60, case: 10, unicode: 5, keyword: 20, weak: 6, near: 6, random: 4, long: 2 }, ..b
                },
                Mix { faults: [45, 50, 5], ..m },
                v,
            )
        },
        "C26" => SmPlan {
            types: 700,
            ..plan(
                Profile {
                    generics: 30, scope: 15, hostile: 15, spell: 30, noise: 40, mac: 30, dress: 30, edition: 25, tuple: 25, big: 30, sub: 15, name_attr: 25, rest: 30, filter: 30,
                    names: NameMix { plain: 60, case: 10, unicode: 5, keyword: 15, weak: 6, near: 6, random: 4, long: 2 }, ..b
                },
                m,
                v,
            )
        },
        "C27" => SmPlan {
            types: 600,
            ..plan(
                Profile { generics: 10, edition: 20, sub: 12, ..b },
                Mix { faults: [50, 42, 8], garbage: 4, attr: 45, none_group: 25, ..m },
                v,
            )
        },
        "C28" => SmPlan {
            types: 500,
            ..plan(
                Profile { named: 88, req: 35, opt: 35, var: 35, rest: 30, sub: 25, generics: 0, seen: true, leaves: [26, 18, 34, 10, 4, 8], ..b },
                Mix { faults: [55, 40, 5], rest_max: 4, attr: 30, none_group: 10, ..m },
                v,
            )
        },
        "C25" => plan(
            Profile { named: 92, sub: 20, ..b },
            Mix { faults: [3, 97, 0], garbage: 0, none_group: 3, attr: 40, kinds: [0, 0, 0, 0, 0, 0, 14, 34, 26, 14, 0, 0, 12, 0, 0, 0], ..m },
            v,
        ),
        "C24" => plan(
            Profile { named: 100, req: 8, opt: 8, var: 8, sub: 70, max_fields: 4, big: 4, styles: [2, 2, 6, 4, 4, 34, 34, 2, 2, 2], ..b },
            Mix { faults: [60, 40, 0], garbage: 0, ..m },
            v,
        ),
        _ => return None,
    })
}

#[derive(Clone, Debug)]
pub struct NodePlan {
    pub profile: node::gener::NProfile,
    pub mix: node::case::NMix,
    pub types: usize,
    pub cases: u32,
    pub tape: usize,
}

pub fn node_plan(prop: &str) -> Option<NodePlan> {
    use node::case::{MIX, NMix};
    use node::gener::{BASE, NProfile};
    let b = BASE;
    let m = MIX;
    let plan = |profile, mix| NodePlan { profile, mix, types: 1000, cases: 900, tape: 120 };
    Some(match prop {
        "C09" => NodePlan {
            types: 400,
            ..plan(NProfile { enums: 50, narrow: 50, ..b }, NMix { changes: [5, 35, 35, 25], soup: 45, trailing: 30, ..m })
        },
        "C13" => plan(
            NProfile { roles: [0, 40], kinds: [30, 14, 8, 26, 14, 8, 7, 3, 0, 0], tuple: 40, max_fields: 8, big: 25, ..b },
            NMix { changes: [100, 0, 0, 0], trailing: 0, soup: 0, ..m },
        ),
        "C14" => plan(NProfile { roles: [25, 0], enums: 0, kinds: [35, 20, 9, 20, 7, 9, 8, 0, 0, 0], ..b }, m),
        "C15" => plan(
            NProfile { kinds: [35, 16, 10, 20, 12, 9, 7, 4, 0, 0], narrow: 30, ..b },
            NMix { changes: [80, 16, 3, 1], trailing: 12, soup: 1, ..m },
        ),
        "C16" => plan(
            NProfile { roles: [25, 0], enums: 100, narrow: 75, peek: 55, max_variants: 6, max_fields: 4, big: 5, unit: 8, ..b },
            NMix { changes: [38, 42, 14, 6], soup: 14, ..m },
        ),
        "C17" => plan(
            NProfile { roles: [25, 0], any: 60, ident: 65, enums: 45, peek: 70, max_fields: 5, kinds: [34, 10, 4, 14, 6, 34, 3, 2, 0, 0], ..b },
            NMix { kinds: [12, 8, 14, 12, 6, 6, 3, 3, 14, 26, 3], ..m },
        ),
        "C18" => plan(
            NProfile { roles: [20, 15], kinds: [28, 12, 8, 14, 40, 6, 5, 3, 3, 0], spell: 60, ..b },
            NMix { kinds: [8, 4, 8, 8, 5, 40, 6, 10, 18, 4, 2], ..m },
        ),
        "C19" | "C29" => NodePlan {
            types: 1500,
            cases: 60,
            ..plan(
                NProfile {
                    roles: [22, 22], generics: 30, scope: 25, hostile: 25, spell: 50, noise: 45, mac: 45, dress: 45, edition: 40, tuple: 35, unit: 6, big: 25,
                    names: NameMix { plain: 40, case: 10, unicode: 5, keyword: 35, weak: 14, near: 6, random: 4, long: 2 }, ..b
                },
                m,
            )
        },
        "C21" => NodePlan {
            types: 600,
            cases: 300,
            ..plan(NProfile { spell: 100, scope: 30, mac: 25, kinds: [25, 12, 4, 8, 40, 4, 3, 0, 22, 0], ..b }, NMix { kinds: [8, 4, 8, 8, 5, 40, 6, 10, 18, 4, 2], ..m })
        },
        "C22" => NodePlan {
            types: 700,
            cases: 250,
            ..plan(
                NProfile {
                    generics: 25, scope: 20, hostile: 15, spell: 40, noise: 40, mac: 0, tuple: 35, unit: 5,
                    names: NameMix { plain: 45, case: 10, unicode: 5, keyword: 30, weak: 12, near: 6, random: 4, long: 2 }, ..b
                },
                m,
            )
        },
        "C26" => NodePlan {
            types: 700,
            ..plan(
                NProfile { generics: 30, scope: 15, hostile: 15, spell: 40, noise: 40, mac: 30, dress: 30, edition: 25, tuple: 30, enums: 50, peek: 60, max_variants: 6, big: 20, ..b },
                m,
            )
        },
        "C27" => NodePlan {
            types: 600,
            ..plan(NProfile { generics: 10, edition: 20, enums: 40, peek: 60, ..b }, NMix { changes: [50, 38, 10, 2], ..m })
        },
        "C28" => NodePlan {
            types: 700,
            ..plan(
                NProfile { enums: 65, narrow: 65, peek: 35, generics: 0, seen: true, rest: 20, kinds: [38, 20, 6, 14, 7, 12, 14, 10, 1, 0], ..b },
                NMix { changes: [50, 36, 10, 4], soup: 10, ..m },
            )
        },
        "C25" => plan(
            NProfile { kinds: [35, 18, 9, 20, 12, 9, 10, 2, 0, 0], enums: 35, peek: 70, ..b },
            NMix { changes: [3, 87, 8, 2], ..m },
        ),
        "C24" => NodePlan {
            types: 400,
            ..plan(NProfile { kinds: [24, 12, 6, 12, 6, 6, 45, 6, 0, 0], narrow: 40, max_fields: 4, ..b }, m)
        },
        _ => return None,
    })
}
