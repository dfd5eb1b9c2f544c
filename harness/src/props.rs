//! What each property runs, and which of its cases count.
use crate::case::Case;
use crate::engine::*;
use crate::{alloc, determ, idsprop, ledger, locks, vecprop};

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    /// how many times as many cases in the thorough tier
    pub deeper: u64,
    /// how many short cases are interpreted by Miri
    pub interpreted: u64,
    /// how many cases are run in the build that sees uses of uninitialised memory
    pub uninit: u64,
    /// how many long cases are run in the optimised build
    pub long: u64,
    pub go: fn(&Case) -> (R, Stats),
    /// 1 small, 2 wide (many component combinations), 4 tall (many entities), 8 churn; weights
    pub profiles: [u32; 4],
    pub weights: &'static [(u8, u32)],
    pub nontrivial: fn(&Stats) -> bool,
    pub rule: &'static str,
}

fn engine(case: &Case, f: Focus, no_leak: bool) -> (R, Stats) {
    ledger::reset();
    let mut e = Eng::new(case, f, false);
    e.no_leak = no_leak;
    let mut r = Ok(());
    for op in &case.ops {
        r = e.step(*op);
        if r.is_err() {
            break;
        }
    }
    if r.is_ok() {
        r = e.finish();
    }
    if r.is_err() {
        e.poison();
    }
    (r, e.st.clone())
}

const F0: Focus = Focus { ledger: false, meta: false, ranges: false, data: false };

fn c15_inner(case: &Case) -> (R, Stats) {
    match case.cfg(0) >> 4 & 7 {
        0 => vecprop::run(case),
        1 => idsprop::run(case),
        _ => engine(case, Focus { ranges: true, data: !cfg!(miri), ..F0 }, true),
    }
}

/// Runs the case with every allocation watched. What is still allocated afterwards twice in a row is
/// a leak (the first time it may be a cache of the runtime).
fn c15(case: &Case) -> (R, Stats) {
    let (mut r, mut st) = (Ok(()), Stats::default());
    foreign(0);
    nearby(0);
    let mut first = 0;
    for round in 0..3 {
        alloc::start();
        let x = catch(|| c15_inner(case)).unwrap_or_else(|_| (Err(String::new()), Stats::default()));
        r = x.0;
        let st2 = x.1;
        ledger::reset();
        drop(last_panic());
        let (blocks, bytes) = alloc::stop();
        st = st2;
        st.blocks_tracked += 1;
        if r.is_err() {
            // (only memory errors count here)
            r = Ok(());
            break;
        }
        if let Some(m) = alloc::mismatch() {
            return (Err(m), st);
        }
        if blocks == 0 {
            break;
        }
        if round > 0 && blocks == first {
            return (Err(format!("{} blocks of memory ({} bytes) were never released", blocks, bytes)), st);
        }
        first = blocks;
    }
    (r, st)
}

impl Prop {
    /// Runs a case. A panic that nothing expected is a failure too.
    pub fn run(&self, c: &Case) -> (R, Stats) {
        catch(|| (self.go)(c)).unwrap_or_else(|_| (Err(format!("a call that has to succeed failed: {}", last_panic())), Stats::default()))
    }
}

fn c04(case: &Case) -> (R, Stats) {
    if case.cfg(0) & 16 == 0 {
        idsprop::run(case)
    } else {
        engine(case, F0, false)
    }
}

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        quick: 40000,
        deeper: 20,
        interpreted: 0,
        uninit: 0,
        long: 0,
        go: |c| engine(c, Focus { data: true, ..F0 }, false),
        profiles: [6, 2, 1, 1],
        weights: &[
            (K_SPAWN, 8), (K_SPAWN_SHAPE, 4), (K_BULK_SPAWN, 2), (K_SPAWN_COMP, 3), (K_ADD, 14), (K_REMOVE, 10), (K_DESPAWN, 7),
            (K_DESPAWN_COMP, 1), (K_SET, 8), (K_QUERY_WRITE, 5), (K_DYN_WRITE, 5), (K_STALE, 2), (K_CHURN, 1), (K_TAG, 2), (K_UNTAG, 1),
            (K_BULK_ADD, 2), (K_BULK_DESPAWN, 1), (K_ABSENT, 1), (K_ZIGZAG, 4), (K_VERIFY, 1), (K_ABANDON, 1), (K_AGE, 1), (K_REPLACE, 3),
        ],
        nontrivial: |s| s.adds + s.removes >= 4 && s.despawns >= 1 && s.writes >= 2 && s.max_archetypes_or_rows() >= 3,
        rule: "history with at least 4 additions/removals on existing entities, a despawn, 2 writes and 3 live entities",
    },
    Prop {
        id: "C02",
        quick: 50000,
        deeper: 20,
        interpreted: 0,
        uninit: 0,
        long: 0,
        go: |c| engine(c, F0, false),
        profiles: [4, 4, 1, 1],
        weights: &[
            (K_SPAWN, 6), (K_SPAWN_SHAPE, 8), (K_BULK_SPAWN, 5), (K_SPAWN_COMP, 2), (K_ADD, 7), (K_REMOVE, 6), (K_DESPAWN, 5),
            (K_DESPAWN_COMP, 1), (K_SET, 3), (K_QUERY_WRITE, 12), (K_QUERY, 16), (K_PARTIAL, 8), (K_ABSENT, 2), (K_TAG, 1),
            (K_BULK_ADD, 2), (K_BULK_DESPAWN, 1), (K_ZIGZAG, 2), (K_CHURN, 1), (K_AGE, 1), (K_REPLACE, 3),
        ],
        nontrivial: |s| s.query_nonempty >= 3 && s.query_multi_arch >= 1,
        rule: "at least 3 typed queries with rows, one of them over entities with different component sets",
    },
    Prop {
        id: "C03",
        quick: 60000,
        deeper: 20,
        interpreted: 0,
        uninit: 0,
        long: 0,
        go: |c| engine(c, F0, false),
        profiles: [4, 4, 1, 1],
        weights: &[
            (K_SPAWN, 6), (K_SPAWN_SHAPE, 3), (K_BULK_SPAWN, 5), (K_SPAWN_COMP, 6), (K_ADD, 8), (K_REMOVE, 6), (K_DESPAWN, 5),
            (K_DESPAWN_COMP, 2), (K_SET, 3), (K_DYN_WRITE, 12), (K_DYN_QUERY, 20), (K_TAG, 3), (K_UNTAG, 1), (K_BULK_ADD, 2),
            (K_BULK_DESPAWN, 1), (K_ZIGZAG, 2), (K_CHURN, 1), (K_REGISTER, 1), (K_AGE, 1), (K_REPLACE, 3),
        ],
        nontrivial: |s| s.dyn_nonempty >= 3 && s.columns >= 3,
        rule: "at least 3 dynamic queries with rows, visited by row and by at least 3 columns",
    },
    Prop {
        id: "C04",
        quick: 150000,
        deeper: 20,
        interpreted: 0,
        uninit: 0,
        long: 16,
        go: c04,
        profiles: [5, 1, 1, 5],
        weights: &[
            (K_SPAWN, 10), (K_BULK_SPAWN, 3), (K_SPAWN_COMP, 2), (K_ADD, 4), (K_REMOVE, 2), (K_DESPAWN, 14), (K_DESPAWN_COMP, 3), (K_STALE, 16),
            (K_CHURN, 8), (K_ABANDON, 6), (K_BULK_DESPAWN, 4), (K_REGISTER, 2), (K_TAG, 2), (K_VERIFY, 2), (K_REFUSED, 3), (K_AGE, 2), (K_REPLACE, 3),
        ],
        nontrivial: |s| s.reused_slots >= 2 && s.despawns >= 3,
        rule: "at least 3 despawns and 2 reuses of a slot",
    },
    Prop {
        id: "C05",
        quick: 85000,
        deeper: 20,
        interpreted: 0,
        uninit: 0,
        long: 0,
        go: |c| engine(c, Focus { ledger: true, ..F0 }, false),
        profiles: [6, 2, 1, 1],
        weights: &[
            (K_SPAWN, 8), (K_SPAWN_SHAPE, 4), (K_BULK_SPAWN, 2), (K_SPAWN_COMP, 4), (K_ADD, 12), (K_REMOVE, 11), (K_DESPAWN, 9), (K_DESPAWN_COMP, 4),
            (K_DYN_WRITE, 2), (K_CHURN, 2), (K_ABANDON, 6), (K_BULK_ADD, 2), (K_BULK_DESPAWN, 2), (K_ZIGZAG, 4), (K_REFUSED, 3), (K_TWINS, 1), (K_TAG, 1), (K_STALE, 1), (K_AGE, 1), (K_REPLACE, 3),
        ],
        nontrivial: |s| s.values_destroyed >= 3 && s.removes + s.despawns >= 3,
        rule: "at least 3 values with observable destructors destroyed before the world is, by at least 3 removals/despawns",
    },
    Prop {
        id: "C06",
        quick: 32000,
        deeper: 20,
        interpreted: 0,
        uninit: 0,
        long: 0,
        go: |c| engine(c, Focus { ledger: true, data: true, meta: true, ..F0 }, false),
        profiles: [8, 2, 1, 1],
        weights: &[
            (K_TWINS, 24), (K_SPAWN, 8), (K_SPAWN_SHAPE, 3), (K_SPAWN_COMP, 5), (K_ABANDON, 10), (K_ADD, 4), (K_REMOVE, 3), (K_DESPAWN, 4), (K_TAG, 2),
            (K_BULK_SPAWN, 2), (K_DESPAWN_COMP, 1), (K_REFUSED, 2), (K_REGISTER, 1),
        ],
        nontrivial: |s| s.twins >= 2 && s.abandoned >= 1,
        rule: "at least 2 component sets assembled by several routes and one builder given up",
    },
    Prop {
        id: "C07",
        quick: 38000,
        deeper: 20,
        interpreted: 0,
        uninit: 0,
        long: 0,
        go: |c| engine(c, Focus { ledger: true, data: true, ranges: true, ..F0 }, false),
        profiles: [6, 2, 2, 1],
        weights: &[
            (K_SPAWN_COMP, 10), (K_SPAWN, 10), (K_BULK_SPAWN, 4), (K_ADD, 14), (K_REMOVE, 9), (K_DESPAWN, 6), (K_DESPAWN_COMP, 2), (K_SET, 8), (K_DYN_WRITE, 8),
            (K_DYN_QUERY, 4), (K_BULK_ADD, 4), (K_BULK_DESPAWN, 2), (K_ZIGZAG, 4), (K_ABANDON, 3), (K_TAG, 1), (K_TWINS, 2),
        ],
        nontrivial: |s| s.dyn_values >= 6 && s.ranges_checked >= 6 && s.adds + s.removes >= 3,
        rule: "at least 6 values of run-time described components, 6 address ranges compared, and 3 moves between component sets",
    },
    Prop {
        id: "C08",
        quick: 60000,
        deeper: 20,
        interpreted: 0,
        uninit: 0,
        long: 0,
        go: locks::run,
        profiles: [1, 0, 0, 0],
        weights: &[],
        nontrivial: |s| s.locks_held >= 3 && (s.locks_blocked >= 1 || s.locks_shared >= 1),
        rule: "at least 3 queries granted, and at least one that had to wait or shared a component with another",
    },
    Prop {
        id: "C09",
        quick: 32000,
        deeper: 20,
        interpreted: 0,
        uninit: 0,
        long: 0,
        go: |c| engine(c, Focus { ledger: true, data: true, meta: true, ..F0 }, false),
        profiles: [8, 2, 1, 1],
        weights: &[
            (K_REFUSED, 22), (K_STALE, 6), (K_SPAWN, 8), (K_SPAWN_SHAPE, 2), (K_SPAWN_COMP, 5), (K_ADD, 10), (K_REMOVE, 7), (K_DESPAWN, 7), (K_DESPAWN_COMP, 2),
            (K_TAG, 3), (K_BULK_SPAWN, 1), (K_QUERY, 2), (K_DYN_QUERY, 2), (K_CHURN, 1), (K_ABANDON, 1), (K_ZIGZAG, 1), (K_AGE, 1), (K_REPLACE, 3),
        ],
        nontrivial: |s| s.refused >= 3 && s.refused_by_panic >= 2 && s.adds + s.removes + s.despawns >= 3,
        rule: "at least 3 refused calls, 2 of them by a panic, among at least 3 accepted changes",
    },
    Prop {
        id: "C10",
        quick: 60000,
        deeper: 20,
        interpreted: 0,
        uninit: 0,
        long: 0,
        go: |c| engine(c, Focus { data: true, ..F0 }, false),
        profiles: [8, 2, 1, 1],
        weights: &[
            (K_REGISTER, 12), (K_ABSENT, 10), (K_ADD, 16), (K_REMOVE, 12), (K_SPAWN, 6), (K_DESPAWN_COMP, 4), (K_DYN_QUERY, 8), (K_QUERY, 3), (K_SET, 4),
            (K_SPAWN_COMP, 3), (K_DESPAWN, 3), (K_ZIGZAG, 4), (K_DYN_WRITE, 3), (K_TWINS, 3), (K_TAG, 1),
        ],
        nontrivial: |s| s.by_id_ops >= 2 && s.typed_ops >= 2 && s.query_empty_unregistered >= 1,
        rule: "at least 2 changes by type, 2 by id, and a query for a type never used",
    },
    Prop {
        id: "C11",
        quick: 300000,
        deeper: 20,
        interpreted: 0,
        uninit: 0,
        long: 0,
        go: vecprop::run,
        profiles: [1, 0, 0, 0],
        weights: &[],
        nontrivial: |s| s.vec_elems >= 5 && s.vec_grown >= 1 && s.vec_moves >= 1,
        rule: "at least 5 elements pushed, a vector grown past its first allocation, and an element moved to another vector",
    },
    Prop {
        id: "C12",
        quick: 55000,
        deeper: 20,
        interpreted: 0,
        uninit: 0,
        long: 0,
        go: |c| engine(c, Focus { meta: true, ..F0 }, false),
        profiles: [4, 3, 1, 1],
        weights: &[
            (K_SPAWN, 8), (K_SPAWN_SHAPE, 3), (K_BULK_SPAWN, 3), (K_SPAWN_COMP, 4), (K_ADD, 14), (K_REMOVE, 13), (K_DESPAWN, 8), (K_DESPAWN_COMP, 4), (K_CHURN, 2),
            (K_BULK_ADD, 3), (K_BULK_DESPAWN, 2), (K_ZIGZAG, 8), (K_TAG, 3), (K_UNTAG, 2), (K_TWINS, 3), (K_ABANDON, 1), (K_VERIFY, 4), (K_REGISTER, 1), (K_AGE, 1), (K_REPLACE, 3),
        ],
        nontrivial: |s| s.shared_archetypes >= 2 && s.adds + s.removes >= 4,
        rule: "at least 4 additions/removals and at least 2 sightings of several entities sharing an archetype",
    },
    Prop {
        id: "C13",
        quick: 38000,
        deeper: 20,
        interpreted: 0,
        uninit: 0,
        long: 0,
        go: |c| engine(c, Focus { data: true, meta: true, ledger: true, ..F0 }, false),
        profiles: [6, 3, 1, 2],
        weights: &[
            (K_TAG, 18), (K_UNTAG, 7), (K_SPAWN, 7), (K_SPAWN_COMP, 6), (K_DESPAWN_COMP, 9), (K_DESPAWN, 4), (K_DYN_QUERY, 9), (K_ADD, 8), (K_REMOVE, 5),
            (K_CHURN, 3), (K_BULK_ADD, 3), (K_BULK_SPAWN, 2), (K_STALE, 2), (K_ZIGZAG, 2), (K_AGE, 2), (K_REPLACE, 3),
        ],
        nontrivial: |s| s.tags_attached >= 2 && s.comp_despawn_carried >= 1,
        rule: "at least 2 entities attached as components and the despawn of a component that something carries",
    },
    Prop {
        id: "C14",
        quick: 32000,
        deeper: 20,
        interpreted: 0,
        uninit: 0,
        long: 0,
        go: determ::run,
        profiles: [5, 3, 1, 1],
        weights: &[
            (K_SPAWN, 8), (K_SPAWN_SHAPE, 4), (K_BULK_SPAWN, 3), (K_SPAWN_COMP, 4), (K_ADD, 12), (K_REMOVE, 9), (K_DESPAWN, 7), (K_DESPAWN_COMP, 2), (K_QUERY, 8),
            (K_DYN_QUERY, 8), (K_CHURN, 2), (K_ABANDON, 2), (K_REFUSED, 3), (K_TAG, 3), (K_BULK_DESPAWN, 2), (K_ZIGZAG, 3), (K_REGISTER, 2), (K_STALE, 1), (K_PARTIAL, 1), (K_VERIFY, 1), (K_AGE, 1), (K_REPLACE, 3),
        ],
        nontrivial: |s| s.query_nonempty + s.dyn_nonempty >= 4 && s.adds + s.removes >= 4,
        rule: "at least 4 changes and 4 queries with rows compared between the two worlds",
    },
    Prop {
        id: "C15",
        quick: 25000,
        deeper: 20,
        interpreted: 120,
        uninit: 16000,
        long: 0,
        go: c15,
        profiles: [6, 2, 2, 2],
        weights: &[
            (K_SPAWN, 8), (K_SPAWN_SHAPE, 4), (K_BULK_SPAWN, 3), (K_SPAWN_COMP, 5), (K_ADD, 12), (K_REMOVE, 10), (K_DESPAWN, 7), (K_DESPAWN_COMP, 3), (K_QUERY, 5), (K_QUERY_WRITE, 4),
            (K_DYN_QUERY, 5), (K_DYN_WRITE, 4), (K_CHURN, 2), (K_ABANDON, 5), (K_STALE, 3), (K_REFUSED, 5), (K_TAG, 3), (K_BULK_DESPAWN, 2), (K_BULK_ADD, 2), (K_ZIGZAG, 3), (K_TWINS, 3),
            (K_PARTIAL, 3), (K_SET, 3), (K_ARMED, 3), (K_AGE, 1), (K_REPLACE, 3),
        ],
        nontrivial: |s| s.vec_ops + s.ops >= 8 && s.vec_elems + s.adds + s.removes + s.spawns >= 6,
        rule: "at least 8 operations of which 6 store or move values",
    },
    Prop {
        id: "C16",
        quick: 20000,
        deeper: 20,
        interpreted: 0,
        uninit: 0,
        long: 0,
        go: |c| engine(c, Focus { data: true, meta: true, ledger: true, ..F0 }, false),
        profiles: [8, 2, 1, 1],
        weights: &[
            (K_ARMED, 18), (K_SPAWN, 10), (K_SPAWN_SHAPE, 6), (K_SPAWN_COMP, 4), (K_ADD, 12), (K_REMOVE, 5), (K_DESPAWN, 4), (K_BULK_SPAWN, 3), (K_DESPAWN_COMP, 1), (K_ZIGZAG, 3),
            (K_QUERY_WRITE, 2), (K_DYN_WRITE, 2), (K_TAG, 1), (K_CHURN, 1),
        ],
        nontrivial: |s| s.armed >= 2 && s.adds + s.spawns >= 4,
        rule: "at least 2 operations whose destructor panicked, among at least 4 that store values",
    },
];

impl Stats {
    fn max_archetypes_or_rows(&self) -> u64 {
        self.max_entities
    }
}

pub fn find(id: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    })
}
