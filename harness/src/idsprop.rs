//! `Entities` on its own, against the set of all ids ever issued.
use crate::case::{Case, Op};
use crate::engine::{legit, Stats, R};
use arche_tape::entities::Entities;
use arche_tape::EcsId;
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashMap, HashSet};

/// Many generations of few slots, or many slots.
pub const K_DEEP: u8 = 20;
/// As many generations as 32 bits count, and more (only in the optimised build).
pub const K_LONG: u8 = 21;
/// Tens of millions of generations of the slots of a world (only in the optimised build).
pub const K_LONG_WORLD: u8 = 22;

/// A set of ids that quickly says that it lacks one.
struct Marks {
    bits: Vec<u64>,
    set: HashSet<u64>,
}

impl Marks {
    fn new<'a>(known: impl Iterator<Item = &'a u64>) -> Self {
        let mut m = Marks { bits: vec![0; 1 << 12], set: HashSet::new() };
        known.for_each(|n| {
            m.insert(*n);
        });
        m
    }
    #[inline]
    fn at(n: u64) -> (usize, u64) {
        let h = n.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 46;
        (h as usize >> 6, 1 << (h & 63))
    }
    #[inline]
    fn has(&self, n: u64) -> bool {
        let (i, b) = Self::at(n);
        self.bits[i] & b != 0 && self.set.contains(&n)
    }
    fn insert(&mut self, n: u64) -> bool {
        let (i, b) = Self::at(n);
        self.bits[i] |= b;
        self.set.insert(n)
    }
}

/// Those of `total` ids that are kept to be compared with: the first, those around powers of two,
/// and some of the others.
#[inline]
fn kept(i: u64, total: u64) -> bool {
    i < 64 || (i & (i - 1)) == 0 || (i & (i + 1)) == 0 || i % (total / 128 + 1) == 0
}

/// No answer is expected from a slower implementation than that.
const LONG: std::time::Duration = std::time::Duration::from_secs(180);

struct Sut {
    e: Entities,
    all: Vec<(EcsId, bool)>,
    live: Vec<usize>,
    u64s: HashSet<u64>,
    hash: HashMap<EcsId, usize>,
    ord: BTreeSet<EcsId>,
    slots: HashMap<usize, usize>,
    st: Stats,
}

impl Sut {
    fn spawn(&mut self) -> R {
        let e = &mut self.e;
        let id = legit("spawn", || e.spawn())?;
        let n = id.as_u64();
        if !self.u64s.insert(n) {
            return Err(format!("id {:#x} was issued before", n));
        }
        if self.hash.insert(id, self.all.len()).is_some() {
            return Err(format!("id {:#x} is the same hash key as one issued before", n));
        }
        if !self.ord.insert(id) {
            return Err(format!("id {:#x} compares equal to one issued before", n));
        }
        if !self.e.is_alive(id) {
            return Err(format!("id {:#x} is not alive after its spawn", n));
        }
        if let Some(&o) = self.slots.get(&id.uindex()) {
            if self.all[o].1 {
                return Err(format!("id {:#x} was given the slot of the live id {:#x}", n, self.all[o].0.as_u64()));
            }
            self.st.reused_slots += 1;
            self.st.max_generations = self.st.max_generations.max(n >> 32);
        }
        self.slots.insert(id.uindex(), self.all.len());
        self.live.push(self.all.len());
        self.all.push((id, true));
        self.st.spawns += 1;
        Ok(())
    }

    fn despawn(&mut self, ix: usize) -> R {
        let (id, alive) = self.all[ix];
        let e = &mut self.e;
        let r = legit("despawn", || e.despawn(id))?;
        if r != alive {
            return Err(format!("despawn of the {} id {:#x} reported {}", if alive { "live" } else { "dead" }, id.as_u64(), r));
        }
        if alive {
            self.st.despawns += 1;
        } else {
            self.st.dead_reads += 1;
        }
        self.all[ix].1 = false;
        if self.live.last() == Some(&ix) {
            self.live.pop();
        } else {
            self.live.retain(|&l| l != ix);
        }
        if self.e.is_alive(id) {
            return Err(format!("id {:#x} is alive after its despawn", id.as_u64()));
        }
        Ok(())
    }

    fn pair(&self, a: usize, b: usize) -> R {
        let (x, y) = (self.all[a].0, self.all[b].0);
        let eq = a == b;
        let c = x.cmp(&y);
        if (x == y) != eq || (x.as_u64() == y.as_u64()) != eq || (c == Ordering::Equal) != eq || x.partial_cmp(&y) != Some(c) || y.cmp(&x) != c.reverse() {
            return Err(format!("ids {:#x} and {:#x} are confused: ==: {}, cmp: {:?}, reversed: {:?}", x.as_u64(), y.as_u64(), x == y, c, y.cmp(&x)));
        }
        Ok(())
    }

    fn all_alive(&self) -> R {
        for (id, alive) in &self.all {
            if self.e.is_alive(*id) != *alive {
                return Err(format!("id {:#x} is {}alive", id.as_u64(), if *alive { "not " } else { "" }));
            }
        }
        if self.ord.len() != self.all.len() || self.hash.len() != self.all.len() {
            return Err("ids are confused".into());
        }
        Ok(())
    }

    /// `total` ids of the same few slots, one after the other.
    fn long(&mut self, total: u64, width: usize) -> R {
        let t0 = std::time::Instant::now();
        let mut marks = Marks::new(self.u64s.iter());
        let mut some = Vec::new();
        let mut now: Vec<EcsId> = Vec::with_capacity(width);
        let mut i = 0u64;
        while i < total {
            for _ in 0..width {
                let id = self.e.spawn();
                i += 1;
                let n = id.as_u64();
                if marks.has(n) || now.contains(&id) {
                    return Err(format!("id {:#x} was issued before, {} ids ago or earlier", n, i));
                }
                if kept(i, total) {
                    marks.insert(n);
                    self.st.max_generations = self.st.max_generations.max(n >> 32);
                    for (old, at) in &some {
                        if !now.contains(old) && self.e.is_alive(*old) {
                            return Err(format!("the dead id {:#x} is alive again {} ids later", EcsId::as_u64(old), i - at));
                        }
                        if *old == id || old.cmp(&id) == Ordering::Equal {
                            return Err(format!("id {:#x} equals {:#x}, issued {} ids before", n, old.as_u64(), i - at));
                        }
                    }
                    some.push((id, i));
                }
                now.push(id);
            }
            for id in now.drain(..) {
                if !self.e.is_alive(id) || !self.e.despawn(id) || self.e.is_alive(id) {
                    return Err(format!("id {:#x} is not alive after its spawn, or its despawn does not report success, or it is still alive", id.as_u64()));
                }
            }
            if i >> 22 != (i - width as u64) >> 22 && t0.elapsed() > LONG {
                break;
            }
        }
        self.st.spawns += i;
        self.st.despawns += i;
        self.st.reused_slots += i;
        self.st.deep_reuse += 1;
        for (id, _) in some {
            let ix = self.all.len();
            if !self.u64s.insert(id.as_u64()) || self.hash.insert(id, ix).is_some() || !self.ord.insert(id) {
                return Err(format!("id {:#x} was issued before", id.as_u64()));
            }
            self.all.push((id, false));
        }
        self.all_alive()
    }

    /// The same in a world, with components.
    fn long_world(&mut self, total: u64) -> R {
        let t0 = std::time::Instant::now();
        let mut w = arche_tape::World::new();
        let mut marks = Marks::new([].iter());
        let by = w.spawn().with(77u32).build();
        let carrier = w.spawn().with(78u32).with(5u8).build();
        let mut some: Vec<(EcsId, u64)> = vec![];
        for i in 1..=total {
            let id = w.spawn().build();
            let n = id.as_u64();
            if marks.has(n) {
                return Err(format!("world: id {:#x} was issued before", n));
            }
            if kept(i, total) {
                marks.insert(n);
                self.st.max_generations = self.st.max_generations.max(n >> 32);
                w.add_component_dynamic(carrier, id);
                for (old, at) in &some {
                    let rows = w.query_dynamic([arche_tape::FetchType::Immut(*old)]).iter().count();
                    if rows != 0 || w.is_alive(*old) || w.get_entity_meta(*old).is_some() || w.get_component_mut_dynamic(carrier, *old).is_some() || w.despawn(*old) {
                        return Err(format!("world: the dead id {:#x} is taken for {:#x}, which has its slot {} ids later", old.as_u64(), n, i - at));
                    }
                    if w.query::<(&u32,)>().get(*old).is_some() || *old == id || old.cmp(&id) == Ordering::Equal {
                        return Err(format!("world: the dead id {:#x} is taken for {:#x}, {} ids later", old.as_u64(), n, i - at));
                    }
                }
                let got: Vec<u64> = w
                    .query_dynamic([arche_tape::FetchType::EcsId, arche_tape::FetchType::Immut(id)])
                    .iter()
                    .map(|[p, _]| unsafe { *(p as *const EcsId) }.as_u64())
                    .collect();
                if got != [carrier.as_u64()] {
                    return Err(format!("world: {} entities have the component {:#x}, which one has", got.len(), n));
                }
                some.push((id, i));
            }
            if !w.is_alive(id) || !w.despawn(id) || w.is_alive(id) {
                return Err(format!("world: id {:#x} is not alive after its spawn, or its despawn does not report success, or it is still alive", n));
            }
            if i & 0xffff == 0 && t0.elapsed() > LONG {
                break;
            }
            self.st.spawns += 1;
        }
        let mut left: Vec<(u64, u32)> = w.query::<(arche_tape::EcsIds, &u32)>().iter().map(|(i, v)| (i.as_u64(), *v)).collect();
        left.sort_unstable();
        let mut want = vec![(by.as_u64(), 77), (carrier.as_u64(), 78)];
        want.sort_unstable();
        if left != want {
            return Err("world: the other entities are not what they were".into());
        }
        self.st.deep_reuse += 1;
        Ok(())
    }

    fn step(&mut self, op: Op) -> R {
        let n = self.all.len();
        self.st.ops += 1;
        if op.k == K_LONG {
            let total = match op.a {
                0 => (1u64 << 32) + 500 + op.b as u64 % 1000,
                a => (1u64 << (18 + a % 12)) + op.b as u64 % 100_000,
            };
            return self.long(total, 1 + op.c as usize % 3);
        }
        if op.k == K_LONG_WORLD {
            return self.long_world((1 << (12 + op.a % 13)) + op.b as u64 % 1000);
        }
        if op.k == K_DEEP {
            let n = [300u32, 2000, 9000, 70000, 140000][(op.a % 5) as usize] + op.b % 1000;
            let width = [1u32, 1, 2, 3, n][(op.c % 5) as usize];
            let mut left = n;
            let rounds = if width == n { 2 } else { n };
            left *= rounds.min(2);
            while left > 0 {
                let w = width.min(left);
                for _ in 0..w {
                    self.spawn()?;
                }
                for _ in 0..w {
                    let last = *self.live.last().unwrap();
                    self.despawn(last)?;
                }
                left -= w;
            }
            self.st.deep_reuse += 1;
            return self.all_alive();
        }
        match op.k % 10 {
            0 | 1 => self.spawn()?,
            2 | 3 if !self.live.is_empty() => {
                let l = self.live.len();
                let i = self.live[if op.a & 1 == 0 { (op.a >> 1) as usize % l } else { l - 1 - (op.a >> 1) as usize % l }];
                self.despawn(i)?
            }
            4 if n > 0 => self.despawn(op.a as usize % n)?,
            5 => {
                for _ in 0..1 + op.a % 40 {
                    self.spawn()?
                }
            }
            6 => {
                for k in 0..op.a % 40 {
                    let l = self.live.len();
                    if l == 0 {
                        break;
                    }
                    let i = self.live[match op.b % 3 {
                        0 => l - 1,
                        1 => 0,
                        _ => (op.c as usize).wrapping_mul(k as usize + 1) % l,
                    }];
                    self.despawn(i)?
                }
            }
            7 => {
                // one slot over and over
                for _ in 0..1 + op.a % 60 {
                    self.spawn()?;
                    let last = *self.live.last().unwrap();
                    self.despawn(last)?;
                    self.despawn(last)?;
                }
            }
            _ => self.all_alive()?,
        }
        let n = self.all.len();
        if n > 0 {
            for i in 0..6u32 {
                self.pair(op.b.wrapping_add(i.wrapping_mul(op.c | 1)) as usize % n, op.c.wrapping_add(i * i) as usize % n)?;
            }
            self.pair(n - 1, op.b as usize % n)?;
        }
        Ok(())
    }
}

pub fn run(case: &Case) -> (R, Stats) {
    let mut s = Sut {
        e: Entities::new(),
        all: vec![],
        live: vec![],
        u64s: HashSet::new(),
        hash: HashMap::new(),
        ord: BTreeSet::new(),
        slots: HashMap::new(),
        st: Stats::default(),
    };
    for (n, op) in case.ops.iter().enumerate() {
        if let Err(m) = s.step(*op) {
            return (Err(format!("step {}: {}", n + 1, m)), s.st);
        }
    }
    let r = s.all_alive();
    (r, s.st)
}
