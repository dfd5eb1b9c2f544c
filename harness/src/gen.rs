//! Proptest strategies for cases.
use crate::case::{mix, Case, Op};
use crate::engine::*;
use crate::{idsprop, locks};
use crate::props::Prop;
use proptest::prelude::*;
use proptest::strategy::{Union, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};

fn arg() -> BoxedStrategy<u32> {
    prop_oneof![3 => 0u32..8, 3 => 0u32..128, 4 => any::<u32>()].boxed()
}

/// Component sets: mostly few bits, of types (low half) and other components (high half).
fn mask() -> BoxedStrategy<u32> {
    prop_oneof![
        2 => (0u32..16).prop_map(|a| 1 << a),
        4 => (0u32..16, 0u32..16, 0u32..32).prop_map(|(a, b, c)| 1 << a | 1 << b | 1 << c),
        2 => (0u32..16, 0u32..32, 0u32..32, 0u32..16, 0u32..16).prop_map(|(a, b, c, d, e)| 1 << a | 1 << b | 1 << c | 1 << d | 1 << e),
        1 => 0u32..256,
        1 => (16u32..32, 16u32..32).prop_map(|(a, b)| 1 << a | 1 << b),
        1 => any::<u32>(),
        1 => Just(0u32),
    ]
    .boxed()
}

fn op(k: u8) -> BoxedStrategy<Op> {
    match k {
        K_SPAWN | K_BULK_SPAWN | K_BROAD | K_MASS | K_TWINS | K_ABANDON | K_CHURN => (mask(), arg(), arg()).prop_map(move |(a, b, c)| Op { k, a, b, c }).boxed(),
        _ => (arg(), arg(), arg()).prop_map(move |(a, b, c)| Op { k, a, b, c }).boxed(),
    }
}

fn ops(w: &[(u8, u32)]) -> BoxedStrategy<Op> {
    Union::new_weighted(w.iter().filter(|x| x.1 > 0).map(|(k, n)| (*n, op(*k))).collect::<Vec<_>>()).boxed()
}

fn cfg() -> BoxedStrategy<Vec<u32>> {
    let big = prop_oneof![60 => Just(None), 10 => (0usize..CFG_WORDS - 2, 50u32..74).prop_map(Some), 1 => (0usize..CFG_WORDS - 2, 40u32..50).prop_map(Some)];
    (0u32..1 << 20, 0u32..48, proptest::collection::vec(0u32..40, CFG_WORDS - 2), big)
        .prop_map(|(a, b, mut c, big)| {
            if let Some((i, x)) = big {
                c[i] = x;
                if x >= 50 {
                    let n = c.len();
                    c[(i + 1) % n] = 50 + (x + a) % 24;
                    c[(i + 5) % n] = 50 + (x * 5 + b) % 24;
                }
            }
            let mut v = vec![a, b];
            v.extend(c);
            v
        })
        .boxed()
}

fn case(head: BoxedStrategy<Vec<Op>>, body: BoxedStrategy<Vec<Op>>) -> BoxedStrategy<Case> {
    (cfg(), head, body)
        .prop_map(|(cfg, mut ops, b)| {
            ops.extend(b);
            Case { cfg, ops }
        })
        .boxed()
}

pub fn strategy(p: &Prop, miri: bool) -> BoxedStrategy<Case> {
    use proptest::collection::vec;
    let none = || Just(Vec::new()).boxed();
    if p.id == "C11" {
        let o = (0u8..14, arg(), arg(), arg()).prop_map(|(k, a, b, c)| Op { k, a, b, c });
        return case(none(), vec(o, 1..48).boxed());
    }
    if p.id == "C08" {
        let mutate = (0u8..12, mask(), arg(), arg()).prop_map(|(k, a, b, c)| Op { k, a, b, c });
        let lock = prop_oneof![
            5 => (arg(), arg(), arg()).prop_map(|(a, b, c)| Op { k: locks::K_ACQUIRE, a, b, c }),
            2 => (arg(), arg(), arg()).prop_map(|(a, b, c)| Op { k: locks::K_RELEASE, a, b, c }),
        ];
        let body = vec((vec(mutate.clone(), 0..4), vec(lock, 3..14)), 1..4).prop_map(|v| v.into_iter().flat_map(|(a, b)| a.into_iter().chain(b)).collect());
        let body = body.boxed();
        // many components, each with a lock of its own
        let many = (
            vec(arg().prop_map(|a| Op { k: 3, a, b: 8, c: 15 | 23 << 4 }), 2..6),
            vec(any::<[u32; 3]>().prop_map(|[a, b, c]| Op { k: 0, a, b, c }), 4..16),
        )
            .prop_map(|(mut a, b)| {
                a.extend(b);
                a
            });
        return prop_oneof![
            5 => case(vec(mutate, 3..12).boxed(), body.clone()),
            1 => case(many.boxed(), body),
        ]
        .boxed();
    }
    if miri {
        // interpreted a thousand times slower: short, and nothing in bulk
        let w: Vec<(u8, u32)> = p.weights.iter().copied().filter(|(k, _)| !matches!(*k, K_BULK_SPAWN | K_BULK_ADD | K_CHURN | K_BULK_DESPAWN)).collect();
        let small = (0u8..14, arg(), arg(), arg()).prop_map(|(k, a, b, c)| Op { k, a, b: if k == 2 { b % 8 } else { b }, c });
        return prop_oneof![
            5 => case(none(), vec(ops(&w), 4..14).boxed()).prop_map(|mut c| { c.cfg[0] |= 0x20; c }),
            1 => case(none(), vec(small, 4..14).boxed()).prop_map(|mut c| { c.cfg[0] &= !0x70; c }),
        ]
        .boxed();
    }
    let body = ops(p.weights);
    let small = case(none(), vec(body.clone(), 4..56).boxed());
    let wide = case(
        vec(
            prop_oneof![
                3 => op(K_BULK_SPAWN).prop_map(|o| Op { b: o.b | 31, c: o.c & !1, ..o }),
                2 => op(K_SPAWN_COMP).prop_map(|o| Op { c: o.c | 15, ..o }),
                2 => op(K_SPAWN_SHAPE),
            ],
            3..9,
        )
        .boxed(),
        vec(body.clone(), 6..32).boxed(),
    );
    let tall = case(
        vec(
            prop_oneof![
                4 => op(K_BULK_SPAWN).prop_map(|o| Op { b: o.b | 47, c: o.c | 1, ..o }),
                1 => op(K_SPAWN_COMP),
            ],
            2..9,
        )
        .boxed(),
        vec(body.clone(), 6..32).boxed(),
    );
    let churn = case(
        vec(
            prop_oneof![
                2 => op(K_CHURN).prop_map(|o| Op { b: o.b | 15, ..o }),
                1 => op(K_ABANDON),
                1 => op(K_SPAWN),
                1 => op(K_DESPAWN),
            ],
            2..10,
        )
        .boxed(),
        vec(body.clone(), 4..40).boxed(),
    );
    let broad = case(vec(prop_oneof![2 => op(K_BROAD), 1 => op(K_SPAWN_COMP), 1 => op(K_SPAWN)], 1..4).boxed(), vec(body.clone(), 4..24).boxed());
    // more of them than sixteen bits count, and most do the same
    let giant = (0u32..3, mask(), 0u32..700, 0u32..1 << 20, prop_oneof![1 => 0u32..4, 2 => Just(2u32)])
        .prop_map(|(_, a, b, c, d)| Op { k: K_MASS, a, b, c: c / 84 * 84 + 20 + 21 * ((d + 3 * 20) % 4) });
    let giant = case(vec(prop_oneof![4 => giant, 1 => op(K_SPAWN_COMP)], 1..3).boxed(), vec(body.clone(), 2..12).boxed())
        .prop_map(|mut c| {
            c.cfg[1] = 23;
            c
        })
        .boxed();
    let mass = case(vec(prop_oneof![2 => op(K_MASS), 1 => op(K_SPAWN_COMP)], 1..4).boxed(), vec(body, 4..20).boxed())
        .prop_map(|mut c| {
            c.cfg[1] = 23;
            c
        })
        .boxed();
    let all = [small, wide, tall, churn];
    let mut u: Vec<_> = p.profiles.iter().zip(all).filter(|x| *x.0 > 0).map(|(w, s)| (*w * 600, s)).collect();
    u.push((250, broad));
    u.push((30, mass));
    u.push((5, giant));
    let u = Union::new_weighted(u).boxed();
    match p.id {
        // `Entities` by itself takes other kinds of operations
        "C04" => {
            let direct = (0u8..10, arg(), arg(), arg()).prop_map(|(k, a, b, c)| Op { k, a, b, c });
            prop_oneof![
                1000 => case(none(), vec(direct.clone(), 2..50).boxed()).prop_map(|mut c| { c.cfg[0] &= !16; c }),
                1 => case(vec(direct.clone(), 0..6).boxed(), vec((Just(idsprop::K_DEEP), arg(), arg(), arg()).prop_map(|(k, a, b, c)| Op { k, a, b, c }), 1..3).boxed())
                    .prop_map(|mut c| { c.cfg[0] &= !16; c }),
                1000 => u.prop_map(|mut c| { c.cfg[0] |= 16; c }),
            ]
            .boxed()
        }
        "C15" => {
            let direct = (0u8..14, arg(), arg(), arg()).prop_map(|(k, a, b, c)| Op { k, a, b, c });
            prop_oneof![
                1 => case(none(), vec(direct, 2..50).boxed()).prop_map(|mut c| { c.cfg[0] &= !0x70; c }),
                5 => u.prop_map(|mut c| { c.cfg[0] |= 0x20; c }),
            ]
            .boxed()
        }
        _ => u,
    }
}

/// Cases that take long: the ones a slot has so many generations that 32 bits do not count them.
pub fn long(n: u64) -> BoxedStrategy<Case> {
    use proptest::collection::vec;
    let direct = || vec((0u8..10, arg(), arg(), arg()).prop_map(|(k, a, b, c)| Op { k, a, b, c }), 0..6);
    let k = prop_oneof![
        2 => (1u32..12, arg(), arg()).prop_map(|(a, b, c)| Op { k: idsprop::K_LONG, a, b, c }),
        2 => (0u32..13, arg(), arg()).prop_map(|(a, b, c)| Op { k: idsprop::K_LONG_WORLD, a, b, c }),
    ];
    // the longest there is comes first, once, alone
    let all = match n {
        0 => (arg(), Just(0u32)).prop_map(|(b, c)| Op { k: idsprop::K_LONG, a: 0, b, c }).boxed(),
        _ => k.boxed(),
    };
    (cfg(), direct(), all, direct())
        .prop_map(|(mut cfg, mut ops, k, b)| {
            cfg[0] &= !16;
            ops.push(k);
            ops.extend(b);
            Case { cfg, ops }
        })
        .boxed()
}

pub fn tree(p: &Prop, s: &BoxedStrategy<Case>, seed: u64, index: u64) -> Box<dyn ValueTree<Value = Case>> {
    let mut key = [0u8; 32];
    let mut h = mix(seed ^ 0x5eed);
    for b in p.id.bytes() {
        h = mix(h ^ b as u64);
    }
    h = mix(h ^ index);
    for i in 0..4 {
        h = mix(h);
        key[i * 8..i * 8 + 8].copy_from_slice(&h.to_le_bytes());
    }
    let mut runner = TestRunner::new_with_rng(
        Config { failure_persistence: None, ..Config::default() },
        TestRng::from_seed(RngAlgorithm::ChaCha, &key),
    );
    Box::new(s.new_tree(&mut runner).expect("a case"))
}
