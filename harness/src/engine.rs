//! One world under test next to its reference model; interprets the operations of a case.
use crate::shapes::Partial;
use crate::case::{mix, Case, Op};
use crate::dynval::{self, Buf, DynLayout, NSLOT};
use crate::ledger;
use crate::shapes::{salted, Cell, Row, Shape, P, SHAPES};
use crate::types::{self, ledger_key, Obs, NT};
use arche_tape::entity_builder::EntityBuilder;
use arche_tape::world::ComponentMeta;
use arche_tape::{EcsId, FetchType, World};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type R<T = ()> = Result<T, String>;

thread_local! { pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        LAST_PANIC.with(|l| *l.borrow_mut() = s);
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|l| std::mem::take(&mut *l.borrow_mut())).replace('\n', " ")
}

type Payload = Box<dyn std::any::Any + Send>;
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, Payload> {
    catch_unwind(AssertUnwindSafe(f))
}
/// Runs a call that has to succeed.
pub fn legit<T>(what: &str, f: impl FnOnce() -> T) -> R<T> {
    catch(f).map_err(|_| format!("{} failed: {}", what, last_panic()))
}

#[derive(Copy, Clone, Default, Debug)]
pub struct Focus {
    /// destructions are compared with the model
    pub ledger: bool,
    /// locations and metadata
    pub meta: bool,
    /// addresses are aligned and disjoint
    pub ranges: bool,
    /// everything is read back after every operation
    pub data: bool,
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Role {
    Tag,
    Static(usize),
    Gen(usize),
    Dyn(usize),
}
impl Role {
    pub fn layout(self) -> (usize, usize) {
        match self {
            Role::Tag => (0, 1),
            Role::Static(t) | Role::Gen(t) => (types::table()[t].size, types::table()[t].align),
            Role::Dyn(s) => (dynval::slot(s).size, dynval::slot(s).align),
        }
    }
    pub fn owns_memory(self) -> bool {
        matches!(self, Role::Static(t) | Role::Gen(t) if types::HEAP.contains(&t))
    }
    pub fn norm(self, v: u64) -> u64 {
        match self {
            Role::Tag => 0,
            Role::Static(t) | Role::Gen(t) => (types::table()[t].norm)(v),
            Role::Dyn(s) => dynval::norm(dynval::slot(s).size, v),
        }
    }
    /// the ledger's key of a value, if its destruction can be seen
    pub fn key(self, o: Obs) -> Option<(u16, u64)> {
        match self {
            Role::Tag => None,
            Role::Static(t) | Role::Gen(t) => types::table()[t].tracked.then(|| ledger_key(t, o)),
            Role::Dyn(s) => dynval::slot(s).drop.then(|| (ledger::K_DYN + s as u16, o.v)),
        }
    }
}

pub struct Ent {
    pub id: EcsId,
    pub alive: bool,
    pub role: Role,
    /// was ever attached to something
    pub used: bool,
    pub comps: BTreeMap<usize, Obs>,
    pos: usize,
}

/// A component as an operation names it: by type, or by id.
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum CRef {
    S(usize),
    E(usize),
}

macro_rules! stats {
    ($($n:ident),* $(,)?) => {
        #[derive(Clone, Debug, Default)]
        pub struct Stats { $(pub $n: u64),* }
        impl Stats {
            /// (maxima stay maxima)
            pub fn add(&mut self, o: &Stats) {
                $(if stringify!($n).starts_with("max_") { self.$n = self.$n.max(o.$n) } else { self.$n += o.$n })*
            }
            pub fn list(&self) -> Vec<(&'static str, u64)> { vec![$((stringify!($n), self.$n)),*] }
        }
    };
}
stats!(
    ops, skipped, asides, beside, spawns, adds, removes, despawns, comp_despawns, comp_despawn_carried, moves_with_swap, reused_slots,
    writes, absent_reads, dead_reads, queries, query_rows, query_nonempty, query_multi_arch, query_empty_unregistered,
    dyn_queries, dyn_rows, dyn_nonempty, dyn_incomplete, columns, partials, refused, refused_by_panic, abandoned,
    abandoned_with_values, twins, armed, armed_builders, armed_worlds, armed_vecs, tags_attached, self_tags, by_id_ops, typed_ops, values_destroyed, max_entities,
    max_archetypes, shared_archetypes, ranges_checked, full_checks, zst_values, dyn_values, grown_rows, rebuilt_types, shrunk, aged,
    locks_held, locks_blocked, locks_granted, locks_shared, locks_unwound, vec_ops, vec_elems, vec_grown, vec_moves, blocks_tracked,
    max_generations, deep_reuse, max_components, max_lock_components, max_elements
);

pub struct Eng {
    pub w: Option<World>,
    pub ents: Vec<Ent>,
    alive: Vec<usize>,
    /// entities other than those of types that may be used as components
    others: Vec<usize>,
    pub smap: [Option<usize>; NT],
    by_u64: HashSet<u64>,
    by_hash: HashMap<EcsId, usize>,
    by_ord: BTreeMap<EcsId, usize>,
    uindexes: HashMap<usize, usize>,
    pub f: Focus,
    pub st: Stats,
    pub log: Option<Vec<u64>>,
    touched: Vec<usize>,
    expect_total: i64,
    period: usize,
    step: usize,
    /// Nothing is read after a step but what the step itself reads (and what is watched, now and then).
    quiet: bool,
    /// The entity that was read last and that is read first the next time (in quiet mode).
    watched: Option<usize>,
    /// values of refused calls must not own memory (their fate is unspecified)
    pub no_leak: bool,
}

pub const K_SPAWN: u8 = 0;
pub const K_BULK_SPAWN: u8 = 1;
pub const K_SPAWN_COMP: u8 = 2;
pub const K_ADD: u8 = 3;
pub const K_REMOVE: u8 = 4;
pub const K_DESPAWN: u8 = 5;
pub const K_DESPAWN_COMP: u8 = 6;
pub const K_SET: u8 = 7;
pub const K_QUERY_WRITE: u8 = 8;
pub const K_DYN_WRITE: u8 = 9;
pub const K_QUERY: u8 = 10;
pub const K_DYN_QUERY: u8 = 11;
pub const K_STALE: u8 = 12;
pub const K_REFUSED: u8 = 13;
pub const K_ABANDON: u8 = 14;
pub const K_CHURN: u8 = 15;
pub const K_TWINS: u8 = 16;
pub const K_PARTIAL: u8 = 17;
pub const K_TAG: u8 = 18;
pub const K_BULK_ADD: u8 = 19;
pub const K_BULK_DESPAWN: u8 = 20;
pub const K_ARMED: u8 = 21;
pub const K_VERIFY: u8 = 22;
pub const K_REGISTER: u8 = 23;
pub const K_ABSENT: u8 = 24;
pub const K_SPAWN_SHAPE: u8 = 25;
pub const K_ZIGZAG: u8 = 26;
pub const K_UNTAG: u8 = 27;
pub const K_BROAD: u8 = 28;
pub const K_MASS: u8 = 29;
pub const K_AGE: u8 = 30;
pub const K_REPLACE: u8 = 31;
pub const NKINDS: u8 = 32;
pub const KIND_NAMES: [&str; NKINDS as usize] = [
    "spawn", "bulk_spawn", "spawn_component", "add", "remove", "despawn", "despawn_component", "set", "query_write",
    "dyn_write", "query", "dyn_query", "stale", "refused", "abandon", "churn", "twins", "partial_query", "tag", "bulk_add",
    "bulk_despawn", "armed", "verify", "register", "absent", "spawn_shape", "zigzag", "untag", "broad", "mass", "age",
    "replace",
];

/// cfg: 0 flags, 1 check period, 2.. one word per slot of run-time layouts
pub const CFG_WORDS: usize = 2 + NSLOT;

pub fn set_slots(case: &Case) {
    for i in 0..NSLOT {
        let c = case.cfg(2 + i);
        let (size, align) = dynval::layout((c / 2) as usize);
        dynval::set_slot(i, DynLayout { size, align, drop: c % 2 == 1 });
    }
}

fn expand(x: u32) -> u64 {
    mix(x as u64)
}

impl Eng {
    pub fn new(case: &Case, f: Focus, log: bool) -> Eng {
        set_slots(case);
        if !cfg!(miri) && case.cfg(0) >> 14 & 3 == 0 {
            crate::aside::begin(case.cfg(1) as u64);
        }
        Eng {
            w: Some(if case.cfg(0) & 1 == 0 { World::new() } else { World::default() }),
            ents: Vec::new(),
            alive: Vec::new(),
            others: Vec::new(),
            smap: [None; NT],
            by_u64: HashSet::new(),
            by_hash: HashMap::new(),
            by_ord: BTreeMap::new(),
            uindexes: HashMap::new(),
            f,
            st: Stats::default(),
            log: log.then(Vec::new),
            touched: Vec::new(),
            expect_total: 0,
            period: if cfg!(miri) { usize::MAX } else { 1 + case.cfg(1) as usize % 24 },
            step: 0,
            quiet: case.cfg(0) >> 12 & 3 == 0,
            watched: None,
            no_leak: false,
        }
    }

    pub fn w(&mut self) -> &mut World {
        self.w.as_mut().unwrap()
    }
    fn logv(&mut self, x: u64) {
        if let Some(l) = &mut self.log {
            l.push(x)
        }
    }
    pub fn limit(&self) -> usize {
        self.alive.len() + 8
    }

    // ---------------------------------------------------------------- model bookkeeping

    fn register_ent(&mut self, id: EcsId, role: Role) -> R<usize> {
        let ix = self.ents.len();
        let n = id.as_u64();
        if !self.by_u64.insert(n) {
            return Err(format!("id {:#x} was issued before", n));
        }
        if self.by_hash.insert(id, ix).is_some() {
            return Err(format!("id {:#x} equals (as a hash key) one issued before", n));
        }
        if self.by_ord.insert(id, ix).is_some() {
            return Err(format!("id {:#x} compares equal to one issued before", n));
        }
        if !self.w().is_alive(id) {
            return Err(format!("id {:#x} is not alive after it was issued", n));
        }
        if let Some(o) = self.uindexes.insert(id.uindex(), ix) {
            self.st.reused_slots += 1;
            self.st.max_generations = self.st.max_generations.max(n >> 32);
            if self.ents[o].alive {
                return Err(format!("id {:#x} was given the slot of {:#x}, which is alive", n, self.ents[o].id.as_u64()));
            }
        }
        self.ents.push(Ent { id, alive: true, role, used: false, comps: BTreeMap::new(), pos: self.alive.len() });
        self.alive.push(ix);
        self.st.max_entities = self.st.max_entities.max(self.alive.len() as u64);
        self.logv(n);
        Ok(ix)
    }

    fn unalive(&mut self, ix: usize) {
        let pos = self.ents[ix].pos;
        self.alive.swap_remove(pos);
        if let Some(&m) = self.alive.get(pos) {
            self.ents[m].pos = pos;
        }
        self.ents[ix].alive = false;
        self.others.retain(|&o| o != ix);
        for s in self.smap.iter_mut() {
            if *s == Some(ix) {
                *s = None;
            }
        }
    }

    fn put(&mut self, e: usize, comp: usize, o: Obs) {
        let role = self.ents[comp].role;
        self.ents[e].comps.insert(comp, o);
        self.ents[comp].used = true;
        if role.key(o).is_some() {
            self.expect_total += 1;
        }
        if role.layout().0 == 0 && role != Role::Tag {
            self.st.zst_values += 1;
        }
        if let Role::Dyn(_) = role {
            self.st.dyn_values += 1;
        }
    }

    fn take(&mut self, e: usize, comp: usize) -> Option<Obs> {
        let o = self.ents[e].comps.remove(&comp)?;
        if self.ents[comp].role.key(o).is_some() {
            self.expect_total -= 1;
            self.st.values_destroyed += 1;
        }
        Some(o)
    }

    /// The component entity of a type, entered in the model once the world has created it.
    pub fn learn(&mut self, t: usize) -> R<usize> {
        let id = legit("obtaining the id of a type", || (types::table()[t].get_id)(self.w.as_mut().unwrap()))?;
        match self.smap[t] {
            Some(c) => {
                if self.ents[c].id != id {
                    return Err(format!("type {} had id {:#x} and now has {:#x}", t, self.ents[c].id.as_u64(), id.as_u64()));
                }
                Ok(c)
            }
            None => {
                let c = self.register_ent(id, Role::Static(t))?;
                self.smap[t] = Some(c);
                Ok(c)
            }
        }
    }

    fn comp_ix(&self, c: CRef) -> Option<usize> {
        match c {
            CRef::S(t) => self.smap[t],
            CRef::E(e) => Some(e),
        }
    }
    fn has(&self, e: usize, c: CRef) -> bool {
        self.comp_ix(c).map_or(false, |c| self.ents[c].alive && self.ents[e].comps.contains_key(&c))
    }
    fn role_of(&self, c: CRef) -> Role {
        match c {
            CRef::S(t) => Role::Static(t),
            CRef::E(e) => self.ents[e].role,
        }
    }

    pub fn pick(&self, a: u32) -> Option<usize> {
        if self.alive.is_empty() {
            return None;
        }
        let n = self.alive.len();
        let i = (a >> 1) as usize % n;
        Some(self.alive[if a & 1 == 1 { n - 1 - i } else { i }])
    }
    /// A dead entity, most recent first.
    fn pick_dead(&self, a: u32) -> Option<usize> {
        if self.ents.len() == self.alive.len() {
            return None;
        }
        let n = self.ents.len();
        let s = a as usize % n;
        (0..n).map(|i| (s + i) % n).find(|&i| !self.ents[i].alive)
    }
    fn universe(&self) -> usize {
        NT + self.others.len()
    }
    fn cref(&self, b: u32) -> CRef {
        let i = b as usize % self.universe();
        if i < NT {
            CRef::S(i)
        } else {
            CRef::E(self.others[i - NT])
        }
    }
    fn cref_missing(&self, e: usize, b: u32) -> Option<CRef> {
        (0..self.universe() as u32).map(|i| self.cref((b % self.universe() as u32) + i)).find(|c| !self.has(e, *c))
    }
    fn comp_present(&self, e: usize, b: u32) -> Option<usize> {
        let n = self.ents[e].comps.len();
        if n == 0 {
            return None;
        }
        self.ents[e].comps.keys().nth(b as usize % n).copied()
    }

    // ---------------------------------------------------------------- values

    fn make_raw(role: Role, v: u64, p: *mut u8) -> Obs {
        match role {
            Role::Tag => Obs { v: 0, tok: 0 },
            Role::Static(t) | Role::Gen(t) => (types::table()[t].make_raw)(v, p),
            Role::Dyn(s) => {
                let l = dynval::slot(s);
                let v = dynval::norm(l.size, v);
                unsafe { dynval::write(l.size, v, p) };
                if l.drop {
                    ledger::create(ledger::K_DYN + s as u16, v);
                }
                Obs { v, tok: 0 }
            }
        }
    }

    /// Reads the value behind a pointer the world handed out.
    fn read_ptr(&self, role: Role, p: *mut u8) -> R<Obs> {
        let (size, align) = role.layout();
        if p.is_null() {
            return Err("a null pointer was handed out for a component".into());
        }
        if role != Role::Tag && p as usize % align != 0 {
            return Err(format!("a pointer to a component of size {} is not aligned to {}", size, align));
        }
        match role {
            Role::Tag => Ok(Obs { v: 0, tok: 0 }),
            Role::Static(t) | Role::Gen(t) => Ok(unsafe { (types::table()[t].read)(p) }),
            Role::Dyn(s) => match unsafe { dynval::read(dynval::slot(s).size, p) } {
                Some(v) => Ok(Obs { v, tok: 0 }),
                None => Err(format!("the bytes of a {}-byte component are not any that were stored", size)),
            },
        }
    }

    fn write_ptr(role: Role, old: Obs, v: u64, p: *mut u8) -> Obs {
        let v = role.norm(v);
        match role {
            Role::Tag => old,
            Role::Static(t) | Role::Gen(t) => {
                unsafe { (types::table()[t].write)(p, v) };
                Obs { v, tok: old.tok }
            }
            Role::Dyn(s) => {
                let l = dynval::slot(s);
                unsafe { dynval::write(l.size, v, p) };
                if l.drop {
                    ledger::recontent(ledger::K_DYN + s as u16, old.v, v);
                }
                Obs { v, tok: 0 }
            }
        }
    }

    /// What an unlogged token means: identity of tracked values.
    fn same(role: Role, a: Obs, b: Obs) -> bool {
        match role {
            Role::Tag => true,
            _ => a == b,
        }
    }

    fn show(&self, c: usize) -> String {
        format!("{:?} {:#x}", self.ents[c].role, self.ents[c].id.as_u64())
    }

    // ---------------------------------------------------------------- operations on the world

    /// The components of a builder operation: bits of `mask` select types, bits of `omask` others.
    fn select(&self, mask: u32, omask: u32, off: u32) -> Vec<CRef> {
        let mut v: Vec<CRef> = (0..NT).filter(|t| mask >> t & 1 == 1).map(CRef::S).collect();
        let n = self.others.len();
        if n > 0 {
            for i in 0..n.min(16) {
                if omask >> i & 1 == 1 {
                    v.push(CRef::E(self.others[(off as usize + i) % n]));
                }
            }
        }
        v
    }

    fn permute<T>(v: &mut Vec<T>, how: u32) {
        let n = v.len();
        if n < 2 {
            return;
        }
        match how % 4 {
            0 => {}
            1 => v.reverse(),
            2 => v.rotate_left((how as usize / 4) % n),
            _ => {
                for i in (1..n).rev() {
                    v.swap(i, (mix(how as u64 + i as u64) % (i as u64 + 1)) as usize)
                }
            }
        }
    }

    fn with_value<'a>(b: EntityBuilder<'a>, c: CRef, role: Role, id: Option<EcsId>, v: u64, how: u32, obs: &mut Obs) -> EntityBuilder<'a> {
        match (c, how % 2, id) {
            (CRef::S(t), 0, _) | (CRef::S(t), _, None) => (types::table()[t].with)(b, v, obs),
            (_, _, id) => {
                let id = id.unwrap();
                let (size, align) = role.layout();
                if size == 0 && (role == Role::Tag || how % 4 < 2) {
                    *obs = Self::make_raw(role, v, std::ptr::null_mut::<u8>().wrapping_add(align));
                    return b.with_dynamic(id);
                }
                let buf = Buf::new(size, align);
                *obs = Self::make_raw(role, v, buf.ptr());
                unsafe { b.with_dynamic_with_data(buf.ptr(), id) }
            }
        }
    }

    /// Opens a builder and gives it the components; `build` or not.
    /// Makes one of these values panic when it is destroyed.
    pub fn arm_one(roles: impl Iterator<Item = (Role, Obs)>, pick: u32) -> bool {
        let ks: Vec<(u16, u64)> = roles.filter_map(|(r, o)| r.key(o)).collect();
        if ks.is_empty() {
            return false;
        }
        let k = ks[pick as usize % ks.len()];
        ledger::arm(k.0, k.1);
        true
    }

    /// The call destroyed the armed value and its panic came through.
    pub fn fired<T>(r: std::thread::Result<T>) -> R {
        let still = ledger::disarm();
        match r {
            Ok(_) if still => return Err("a value was to be destroyed and its destructor did not run".into()),
            Ok(_) => return Err("the panic of a destructor did not reach the caller".into()),
            Err(p) if !p.is::<ledger::ArmedPanic>() => return Err(format!("with a panicking destructor the call fails otherwise: {}", last_panic())),
            Err(_) => {}
        }
        last_panic();
        Ok(())
    }

    fn build(&mut self, comps: &[(CRef, u64)], cap: Option<usize>, meta: Option<ComponentMeta>, how: u32, build: bool) -> R<(Option<EcsId>, Vec<Obs>)> {
        let ids: Vec<(Role, Option<EcsId>)> =
            comps.iter().map(|(c, _)| (self.role_of(*c), self.comp_ix(*c).map(|i| self.ents[i].id))).collect();
        let mut obs = vec![Obs { v: 0, tok: 0 }; comps.len()];
        let w = self.w.as_mut().unwrap();
        let what = if build { "building an entity" } else { "giving components to a builder" };
        let id = legit(what, || {
            let mut b = match (meta, cap) {
                (Some(m), _) => unsafe { w.spawn_with_component_meta(m) },
                (None, Some(c)) => w.spawn_with_capacity(c),
                (None, None) => w.spawn(),
            };
            for (i, (c, v)) in comps.iter().enumerate() {
                b = Self::with_value(b, *c, ids[i].0, ids[i].1, *v, how.rotate_right(2 * i as u32), &mut obs[i]);
            }
            if build {
                let e = b.build();
                Some(e)
            } else {
                drop(b);
                None
            }
        })?;
        for (c, _) in comps {
            if let CRef::S(t) = c {
                self.learn(*t)?;
            }
        }
        Ok((id, obs))
    }

    fn spawn_model(&mut self, id: EcsId, role: Role, comps: &[(CRef, u64)], obs: &[Obs]) -> R<usize> {
        let e = self.register_ent(id, role)?;
        for ((c, _), o) in comps.iter().zip(obs) {
            let ci = self.comp_ix(*c).unwrap();
            self.put(e, ci, *o);
        }
        self.st.spawns += 1;
        self.touched.push(e);
        Ok(e)
    }

    fn valued(&self, mut comps: Vec<CRef>, seed: u32, perm: u32) -> Vec<(CRef, u64)> {
        Self::permute(&mut comps, perm);
        comps.into_iter().enumerate().map(|(i, c)| (c, mix(expand(seed) ^ i as u64))).collect()
    }

    fn spawn(&mut self, comps: Vec<(CRef, u64)>, how: u32) -> R<usize> {
        let total: usize = comps.iter().map(|(c, _)| self.role_of(*c).layout().0).sum();
        let h = (how >> 11) as usize;
        let cap = match (how >> 8) % 8 {
            0 | 1 => None,
            2 => Some(0),
            3 => Some(1 + h % 7),
            4 => Some(h % 300),
            // just enough, or just not
            5 => Some((total + h % 3).saturating_sub(1)),
            6 => Some(((1usize << (h % 13)) + (h >> 4) % 3).saturating_sub(1)),
            _ if h % 16 == 15 => Some((1 << 15 << ((h >> 4) % 4)) + (h >> 6) % 3 - 1),
            _ => Some(total * (1 + h % 3)),
        };
        let (id, obs) = self.build(&comps, cap, None, how, true)?;
        self.spawn_model(id.unwrap(), Role::Tag, &comps, &obs)
    }

    fn add(&mut self, e: usize, c: CRef, v: u64, by_id: bool) -> R {
        let eid = self.ents[e].id;
        let o;
        match c {
            CRef::S(t) if !by_id => {
                if v & 64 == 0 {
                    self.learn(t)?;
                }
                let w = self.w.as_mut().unwrap();
                o = legit("adding a component", || (types::table()[t].add)(w, eid, v))?;
                self.learn(t)?;
                self.st.typed_ops += 1;
            }
            _ => {
                let ci = match c {
                    CRef::S(t) => self.learn(t)?,
                    CRef::E(x) => x,
                };
                let (role, cid) = (self.ents[ci].role, self.ents[ci].id);
                let (size, align) = role.layout();
                let w = self.w.as_mut().unwrap();
                self.st.by_id_ops += 1;
                if size == 0 && (role == Role::Tag || v & 128 == 0) {
                    o = Self::make_raw(role, v, std::ptr::null_mut::<u8>().wrapping_add(align));
                    legit("adding a dataless component", || w.add_component_dynamic(eid, cid))?;
                } else {
                    let buf = Buf::new(size, align);
                    o = Self::make_raw(role, v, buf.ptr());
                    legit("adding a component by id", || unsafe { w.add_component_dynamic_with_data(eid, cid, buf.ptr()) })?;
                }
            }
        }
        let ci = self.comp_ix(c).unwrap();
        self.put(e, ci, o);
        self.st.adds += 1;
        self.touched.push(e);
        Ok(())
    }

    fn remove(&mut self, e: usize, ci: usize, by_id: bool) -> R {
        let (eid, cid) = (self.ents[e].id, self.ents[ci].id);
        let w = self.w.as_mut().unwrap();
        match self.ents[ci].role {
            Role::Static(t) if !by_id => {
                legit("removing a component", || (types::table()[t].remove)(w, eid))?;
                self.st.typed_ops += 1;
            }
            _ => {
                legit("removing a component by id", || w.remove_component_dynamic(eid, cid))?;
                self.st.by_id_ops += 1;
            }
        }
        self.take(e, ci);
        self.st.removes += 1;
        self.touched.push(e);
        Ok(())
    }

    fn despawn_model(&mut self, e: usize) {
        if self.ents[e].used {
            let carriers: Vec<usize> = self.alive.iter().copied().filter(|&x| self.ents[x].comps.contains_key(&e)).collect();
            if !carriers.is_empty() {
                self.st.comp_despawn_carried += 1;
            }
            for x in carriers {
                self.take(x, e);
                if self.touched.len() < 16 {
                    self.touched.push(x);
                }
            }
        }
        for c in self.ents[e].comps.keys().copied().collect::<Vec<_>>() {
            self.take(e, c);
        }
        self.unalive(e);
        self.st.despawns += 1;
        if self.ents[e].role != Role::Tag || self.ents[e].used {
            self.st.comp_despawns += 1;
        }
    }

    fn despawn(&mut self, e: usize) -> R {
        let id = self.ents[e].id;
        let w = self.w.as_mut().unwrap();
        let swaps = w.get_entity_meta(id).map_or(0, |m| m.instance_meta.index);
        if !legit("despawning", || w.despawn(id))? {
            return Err(format!("despawning the live id {:#x} reported that nothing was despawned", id.as_u64()));
        }
        self.st.moves_with_swap += (swaps == 0) as u64;
        self.despawn_model(e);
        if self.w().is_alive(id) {
            return Err(format!("id {:#x} is alive after its despawn", id.as_u64()));
        }
        if self.w().despawn(id) {
            return Err(format!("a second despawn of id {:#x} reported success", id.as_u64()));
        }
        Ok(())
    }

    // ---------------------------------------------------------------- queries

    fn expected_rows(&self, sh: &Shape) -> Option<Vec<(usize, Row)>> {
        let mut cs = Vec::new();
        for p in sh.params {
            if let Some(t) = p.ty() {
                cs.push(self.smap[t]?);
            }
        }
        let mut out = Vec::new();
        'ents: for &e in &self.alive {
            let ent = &self.ents[e];
            for c in &cs {
                if !ent.comps.contains_key(c) {
                    continue 'ents;
                }
            }
            let mut row = Vec::with_capacity(sh.params.len());
            for p in sh.params {
                row.push(match p.ty() {
                    None => Cell { v: ent.id.as_u64(), tok: 0, addr: 0 },
                    Some(t) => {
                        let o = ent.comps[&self.smap[t].unwrap()];
                        Cell { v: o.v, tok: o.tok, addr: 0 }
                    }
                });
            }
            out.push((e, row));
        }
        Some(out)
    }

    fn strip(rows: &[Row]) -> Vec<Row> {
        let mut v: Vec<Row> = rows.iter().map(|r| r.iter().map(|c| Cell { addr: 0, ..*c }).collect()).collect();
        v.sort_unstable();
        v
    }

    fn compare_rows(&mut self, what: &str, params: &[P], got: &[Row], exp: &[(usize, Row)]) -> R {
        let g = Self::strip(got);
        let mut x: Vec<Row> = exp.iter().map(|(_, r)| r.clone()).collect();
        x.sort_unstable();
        if g != x {
            let gs: BTreeSet<&Row> = g.iter().collect();
            let xs: BTreeSet<&Row> = x.iter().collect();
            let missing = xs.difference(&gs).next();
            let extra = gs.difference(&xs).next();
            return Err(format!(
                "{} {:?}: {} rows, {} expected; first missing row {:?}, first unexpected row {:?}",
                what, params, g.len(), x.len(), missing, extra
            ));
        }
        for (i, p) in params.iter().enumerate() {
            if let P::W(t) = p {
                if types::table()[*t].size > 0 {
                    let set: HashSet<usize> = got.iter().map(|r| r[i].addr).collect();
                    if set.len() != got.len() {
                        return Err(format!("{} {:?}: two rows hand out the same mutable reference", what, params));
                    }
                }
            }
        }
        Ok(())
    }

    fn log_rows(&mut self, rows: &[Row]) {
        if self.log.is_some() {
            for r in rows {
                for c in r {
                    self.logv(c.v)
                }
                self.logv(u64::MAX - 1);
            }
        }
    }

    pub fn typed_query(&mut self, si: usize, salt: Option<u64>) -> R {
        let sh = &SHAPES[si % SHAPES.len()];
        let lim = self.limit();
        let exp = self.expected_rows(sh);
        let w = self.w.as_ref().unwrap();
        let got = legit("a typed query", || (sh.collect)(w, salt, lim))?;
        self.st.queries += 1;
        self.st.query_rows += got.len() as u64;
        if exp.is_none() {
            self.st.query_empty_unregistered += 1;
        }
        let exp = exp.unwrap_or_default();
        self.compare_rows("typed query", sh.params, &got, &exp)?;
        self.log_rows(&got);
        if !exp.is_empty() {
            self.st.query_nonempty += 1;
            let sets: HashSet<usize> =
                exp.iter().map(|(e, _)| self.ents[*e].comps.len()).collect();
            if sets.len() > 1 {
                self.st.query_multi_arch += 1;
            }
        }
        if let Some(s) = salt {
            for (e, _) in &exp {
                for p in sh.params {
                    if let P::W(t) = p {
                        let c = self.smap[*t].unwrap();
                        let o = self.ents[*e].comps.get_mut(&c).unwrap();
                        o.v = (types::table()[*t].norm)(salted(o.v, s));
                        self.st.writes += 1;
                    }
                }
            }
            for (e, _) in exp.iter().take(4) {
                self.touched.push(*e);
            }
        }
        Ok(())
    }

    fn partial_query(&mut self, si: usize, k: usize) -> R {
        let sh = &SHAPES[si % SHAPES.len()];
        let lim = self.limit();
        let exp = self.expected_rows(sh).unwrap_or_default();
        let w = self.w.as_ref().unwrap();
        let k = k % (exp.len() + 2);
        let Partial { first, all, again, skipped, count, last, hint } = legit("a typed query", || (sh.partial)(w, k, lim))?;
        self.st.partials += 1;
        self.compare_rows("typed query iterated again after stopping early", sh.params, &all, &exp)?;
        self.log_rows(&all);
        if first.len() != k.min(exp.len()) {
            return Err(format!("typed query {:?}: the first {} rows were only {}", sh.params, k, first.len()));
        }
        let mut a = Self::strip(&all);
        for r in Self::strip(&first) {
            match a.iter().position(|x| *x == r) {
                Some(p) => {
                    a.swap_remove(p);
                }
                None => return Err(format!("typed query {:?}: the iteration that was stopped gave a row {:?} the whole one does not", sh.params, r)),
            }
        }
        if again != 0 {
            return Err(format!("typed query {:?}: the exhausted iterator gave {} more rows", sh.params, again));
        }
        // the other ways of using an iterator
        let n = exp.len();
        if count != n || last.is_some() != (n > 0) || skipped.len() != n.saturating_sub(k) || hint.0 > n || hint.1.map_or(false, |h| h < n) {
            return Err(format!(
                "typed query {:?} with {} rows: counted as {}, {} after the first {}, estimated as {:?}",
                sh.params, n, count, skipped.len(), k, hint
            ));
        }
        let mut a = Self::strip(&all);
        let mut rest = Self::strip(&skipped);
        rest.extend(Self::strip(&first));
        rest.sort_unstable();
        a.sort_unstable();
        if a != rest || last.map_or(false, |l| a.binary_search(&Self::strip(&[l])[0]).is_err()) {
            return Err(format!("typed query {:?}: skipping the first {} rows gives others than the rest", sh.params, k));
        }
        Ok(())
    }

    /// `get` of several entities, alive, dead or asked for twice, through one query.
    fn typed_get_many(&mut self, si: usize, c: u32) -> R {
        let sh = &SHAPES[si % SHAPES.len()];
        let exp = self.expected_rows(sh).unwrap_or_default();
        let n = self.ents.len();
        if n == 0 {
            return Ok(());
        }
        let mut es: Vec<usize> = (0..5).map(|i| (expand(c.wrapping_add(i)) as usize) % n).collect();
        es.extend(exp.iter().map(|x| x.0).skip(c as usize % 3).step_by(2).take(3));
        es.extend(self.pick(c));
        es.extend(es.first().copied());
        let ids: Vec<EcsId> = es.iter().map(|e| self.ents[*e].id).collect();
        let w = self.w.as_ref().unwrap();
        let got = legit("get on a typed query", || (sh.get_many)(w, &ids))?;
        for ((e, id), g) in es.iter().zip(&ids).zip(&got) {
            let want = exp.iter().find(|x| x.0 == *e).map(|x| x.1.clone());
            let g = g.as_ref().map(|r| r.iter().map(|c| Cell { addr: 0, ..*c }).collect::<Row>());
            if g != want {
                return Err(format!("get of {:#x} through one query {:?} for several entities gives {:?} instead of {:?}", id.as_u64(), sh.params, g, want));
            }
        }
        Ok(())
    }

    /// `get` of one entity, alive or dead, through a typed query.
    fn typed_get(&mut self, si: usize, e: usize, salt: Option<u64>) -> R {
        let sh = &SHAPES[si % SHAPES.len()];
        let id = self.ents[e].id;
        let w = self.w.as_ref().unwrap();
        let got = legit("get on a typed query", || (sh.get)(w, id, salt))?;
        let alive = self.ents[e].alive;
        let has = alive && sh.params.iter().all(|p| p.ty().map_or(true, |t| self.has(e, CRef::S(t))));
        if !has {
            if alive {
                self.st.absent_reads += 1;
            } else {
                self.st.dead_reads += 1;
            }
            if got.is_some() {
                return Err(format!(
                    "get of {:?} on {} entity {:#x} gave a row",
                    sh.params,
                    if alive { "an incomplete" } else { "a dead" },
                    id.as_u64()
                ));
            }
            self.logv(7);
            return Ok(());
        }
        let Some(row) = got else {
            return Err(format!("get of {:?} on entity {:#x}, which has them all, gave nothing", sh.params, id.as_u64()));
        };
        for (i, p) in sh.params.iter().enumerate() {
            match p.ty() {
                None => {
                    if row[i].v != id.as_u64() {
                        return Err(format!("get on entity {:#x} gave the id {:#x}", id.as_u64(), row[i].v));
                    }
                }
                Some(t) => {
                    let c = self.smap[t].unwrap();
                    let o = self.ents[e].comps[&c];
                    if (row[i].v, row[i].tok) != (o.v, o.tok) {
                        return Err(format!(
                            "get on entity {:#x}: type {} reads {:#x}/{} instead of {:#x}/{}",
                            id.as_u64(), t, row[i].v, row[i].tok, o.v, o.tok
                        ));
                    }
                }
            }
        }
        if let Some(s) = salt {
            for p in sh.params {
                if let P::W(t) = p {
                    let c = self.smap[*t].unwrap();
                    let o = self.ents[e].comps.get_mut(&c).unwrap();
                    o.v = (types::table()[*t].norm)(salted(o.v, s));
                    self.st.writes += 1;
                }
            }
            self.touched.push(e);
        }
        Ok(())
    }

    /// A run-time fetch list: mostly components of one entity, sometimes others, dead or foreign ids.
    fn fetch_list(&mut self, a: u32, b: u32, c: u32) -> Vec<F> {
        const SIZES: [usize; 32] = [1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 6, 6, 6, 7, 8, 8, 9, 10, 12, 16, 20];
        let n = SIZES[((b ^ b >> 8) & 31) as usize];
        let mut out: Vec<F> = Vec::new();
        let own: Vec<usize> = self.pick(a).map_or(vec![], |e| self.ents[e].comps.keys().copied().collect());
        for i in 0..n {
            let r = mix(((c as u64) << 32 | b as u64) ^ (i as u64) << 17);
            let kind = r % 16;
            let x = match kind {
                0 | 1 => Fx::Id,
                2 if (b >> 4) & 3 == 0 => match self.pick_dead((r >> 8) as u32) {
                    Some(d) => Fx::C(d),
                    None => Fx::Id,
                },
                2 if (b >> 4) & 3 == 1 => Fx::Foreign((r >> 8) as usize % 64),
                3 => self.pick((r >> 8) as u32).map_or(Fx::Id, Fx::C),
                _ if own.is_empty() || (b >> 6) & 7 == 0 => match self.cref((r >> 8) as u32) {
                    CRef::S(t) => self.smap[t].map_or(Fx::Id, Fx::C),
                    CRef::E(e) => Fx::C(e),
                },
                _ => Fx::C(own[(i + (r >> 8) as usize % 2 + (c >> 9) as usize) % own.len()]),
            };
            let x = match x {
                Fx::C(e) => {
                    let dup = out.iter().any(|f| f.x == Fx::C(e));
                    let mutdup = out.iter().any(|f| f.x == Fx::C(e) && f.m);
                    if mutdup {
                        F { x: Fx::Id, m: false }
                    } else {
                        F { x: Fx::C(e), m: !dup && (r >> 40) & 1 == 1 }
                    }
                }
                Fx::Foreign(i) => F { x, m: !out.iter().any(|f| f.x == Fx::Foreign(i)) && (r >> 40) & 1 == 1 },
                x => F { x, m: false },
            };
            out.push(x);
        }
        out
    }

    pub fn fetch_list_pub(&mut self, a: u32, b: u32, c: u32) -> Vec<F> {
        self.fetch_list(a, b, c)
    }

    pub fn fetch_ids(&self, fs: &[F]) -> Vec<FetchType> {
        fs.iter()
            .map(|f| match (f.x, f.m) {
                (Fx::Id, _) => FetchType::EcsId,
                (Fx::C(e), true) => FetchType::Mut(self.ents[e].id),
                (Fx::C(e), false) => FetchType::Immut(self.ents[e].id),
                (Fx::Foreign(i), true) => FetchType::Mut(foreign(self.ents.len() + i)),
                (Fx::Foreign(i), false) => FetchType::Immut(foreign(self.ents.len() + i)),
            })
            .collect()
    }

    fn expected_dyn(&self, fs: &[F]) -> Vec<usize> {
        self.alive
            .iter()
            .copied()
            .filter(|&e| {
                fs.iter().all(|f| match f.x {
                    Fx::Id => true,
                    Fx::C(c) => self.ents[c].alive && self.ents[e].comps.contains_key(&c),
                    Fx::Foreign(_) => false,
                })
            })
            .collect()
    }

    fn dyn_query(&mut self, fs: &[F], salt: Option<u64>) -> R {
        let exp = self.expected_dyn(fs);
        let ids = self.fetch_ids(fs);
        let lim = self.limit();
        let w = self.w.as_ref().unwrap();
        // collect the pointers row-wise and column-wise; they stay valid, nothing is moved meanwhile
        let got = legit("a dynamic query", || dyn_collect(w, ids, lim))?;
        self.st.dyn_queries += 1;
        self.st.dyn_rows += got.rows.len() as u64;
        if !exp.is_empty() {
            self.st.dyn_nonempty += 1;
        }
        if fs.iter().any(|f| match f.x {
            Fx::C(c) => !self.ents[c].alive || !self.ents[c].used,
            Fx::Foreign(_) => true,
            Fx::Id => false,
        }) {
            self.st.dyn_incomplete += 1;
        }
        if got.again != 0 {
            return Err(format!("dynamic query {}: the exhausted iterator gave {} more rows", self.show_fs(fs), got.again));
        }
        self.compare_dyn("row", fs, &got.rows, &exp)?;
        let (count, k, rest, hint, cols) = &got.other;
        let n = exp.len();
        let all: BTreeSet<&Vec<*mut u8>> = got.rows.iter().collect();
        if *count != n || rest.len() != n.saturating_sub(*k) || rest.iter().any(|r| !all.contains(r)) || hint.0 > n || hint.1.map_or(false, |h| h < n) || *cols != got.cols.len() {
            return Err(format!(
                "dynamic query {} with {} rows: counted as {}, {} after the first {}, estimated as {:?}, {} column(s) counted as {}",
                self.show_fs(fs), n, count, rest.len(), k, hint, got.cols.len(), cols
            ));
        }
        let mut rows = Vec::new();
        for col in &got.cols {
            self.st.columns += 1;
            let len = col.first().map_or(0, |c| c[1]);
            if col.iter().any(|c| c[1] != len) || len > lim {
                return Err(format!("dynamic query {}: the columns of one archetype have different lengths", self.show_fs(fs)));
            }
            for i in 0..len {
                rows.push(
                    col.iter()
                        .zip(fs)
                        .map(|(c, f)| {
                            let size = match f.x {
                                Fx::Id => std::mem::size_of::<EcsId>(),
                                Fx::C(e) => self.ents[e].role.layout().0,
                                Fx::Foreign(_) => 0,
                            };
                            (c[0] as *mut u8).wrapping_add(i * size)
                        })
                        .collect::<Vec<_>>(),
                );
            }
        }
        self.compare_dyn("column", fs, &rows, &exp)?;
        if rows != got.rows {
            // the same memory, whichever way it is visited
            let a: BTreeSet<&Vec<*mut u8>> = rows.iter().collect();
            let b: BTreeSet<&Vec<*mut u8>> = got.rows.iter().collect();
            if a != b {
                return Err(format!("dynamic query {}: rows and columns refer to different memory", self.show_fs(fs)));
            }
        }
        if self.log.is_some() {
            for r in &got.rows {
                for (p, f) in r.iter().zip(fs) {
                    let x = match f.x {
                        Fx::Id => unsafe { (*(*p as *const EcsId)).as_u64() },
                        Fx::C(e) => self.read_ptr(self.ents[e].role, *p)?.v,
                        Fx::Foreign(_) => 0,
                    };
                    self.logv(x);
                }
            }
        }
        if let Some(s) = salt {
            // find each row's entity by its id if the query has one, else by the values
            for (i, f) in fs.iter().enumerate() {
                if !f.m {
                    continue;
                }
                let Fx::C(c) = f.x else { continue };
                let role = self.ents[c].role;
                for row in &got.rows {
                    let old = self.read_ptr(role, row[i])?;
                    Self::write_ptr(role, old, salted(old.v, s), row[i]);
                }
                for &e in &exp {
                    let o = self.ents[e].comps.get_mut(&c).unwrap();
                    o.v = role.norm(salted(o.v, s));
                    self.st.writes += 1;
                }
            }
            for &e in exp.iter().take(4) {
                self.touched.push(e);
            }
        }
        Ok(())
    }

    fn show_fs(&self, fs: &[F]) -> String {
        fs.iter()
            .map(|f| match f.x {
                Fx::Id => "id".to_string(),
                Fx::C(c) => format!("{}{}", if f.m { "mut " } else { "" }, self.show(c)),
                Fx::Foreign(_) => "foreign id".into(),
            })
            .collect::<Vec<_>>()
            .join(", ")
    }

    fn compare_dyn(&mut self, how: &str, fs: &[F], rows: &[Vec<*mut u8>], exp: &[usize]) -> R {
        let mut got = Vec::new();
        for r in rows {
            let mut v = Vec::new();
            for (p, f) in r.iter().zip(fs) {
                v.push(match f.x {
                    Fx::Id => {
                        if p.is_null() || *p as usize % std::mem::align_of::<EcsId>() != 0 {
                            return Err(format!("dynamic query {}: bad pointer to an id", self.show_fs(fs)));
                        }
                        Obs { v: unsafe { (*(*p as *const EcsId)).as_u64() }, tok: 0 }
                    }
                    Fx::C(c) => self.read_ptr(self.ents[c].role, *p).map_err(|e| format!("dynamic query {}: {}", self.show_fs(fs), e))?,
                    Fx::Foreign(_) => return Err("a dynamic query on a foreign id gave a row".into()),
                });
            }
            got.push(v);
        }
        let mut want: Vec<Vec<Obs>> = exp
            .iter()
            .map(|&e| {
                fs.iter()
                    .map(|f| match f.x {
                        Fx::C(c) => self.ents[e].comps[&c],
                        _ => Obs { v: self.ents[e].id.as_u64(), tok: 0 },
                    })
                    .collect()
            })
            .collect();
        got.sort_unstable();
        want.sort_unstable();
        if got != want {
            return Err(format!(
                "dynamic query {} ({} by {}): {} rows, {} expected{}",
                self.show_fs(fs), how, how, got.len(), want.len(),
                got.iter().find(|r| !want.contains(r)).map_or(String::new(), |r| format!("; unexpected row {:?}", r))
            ));
        }
        for (i, f) in fs.iter().enumerate() {
            if let (Fx::C(c), true) = (f.x, f.m) {
                if self.ents[c].role.layout().0 > 0 {
                    let set: HashSet<usize> = rows.iter().map(|r| r[i] as usize).collect();
                    if set.len() != rows.len() {
                        return Err(format!("dynamic query {}: two rows have the same mutable pointer", self.show_fs(fs)));
                    }
                }
            }
        }
        Ok(())
    }

    // ---------------------------------------------------------------- oracles

    /// What the world says about one component of one entity.
    pub fn check_comp(&mut self, e: usize, c: usize) -> R {
        let (eid, cid, role) = (self.ents[e].id, self.ents[c].id, self.ents[c].role);
        let w = self.w.as_mut().unwrap();
        let p = legit("get_component_mut_dynamic", || w.get_component_mut_dynamic(eid, cid))?;
        let want = if self.ents[e].alive && self.ents[c].alive { self.ents[e].comps.get(&c).copied() } else { None };
        match (p, want) {
            (None, None) => Ok(()),
            (Some(_), None) => Err(format!("entity {:#x} has component {} that it should not have", eid.as_u64(), self.show(c))),
            (None, Some(_)) => Err(format!("entity {:#x} lost component {}", eid.as_u64(), self.show(c))),
            (Some(p), Some(o)) => {
                let g = self.read_ptr(role, p).map_err(|m| format!("entity {:#x}: {}", eid.as_u64(), m))?;
                if !Self::same(role, g, o) {
                    return Err(format!(
                        "entity {:#x}: component {} reads {:#x}/{} instead of {:#x}/{}",
                        eid.as_u64(), self.show(c), g.v, g.tok, o.v, o.tok
                    ));
                }
                Ok(())
            }
        }
    }

    fn known_comps(&self) -> Vec<usize> {
        self.smap.iter().flatten().copied().chain(self.others.iter().copied()).collect()
    }

    pub fn check_ent(&mut self, e: usize) -> R {
        let id = self.ents[e].id;
        let alive = self.ents[e].alive;
        if self.w().is_alive(id) != alive {
            return Err(format!("id {:#x} is {}alive", id.as_u64(), if alive { "not " } else { "" }));
        }
        let role = self.ents[e].role;
        let m = self.w().get_entity_meta(id).cloned();
        match (&m, alive) {
            (None, false) => {}
            (Some(_), false) => return Err(format!("metadata is available for the dead id {:#x}", id.as_u64())),
            (None, true) => return Err(format!("no metadata for the live id {:#x}", id.as_u64())),
            (Some(m), true) => {
                let l = m.component_meta.layout;
                // (a type without a destructor may be described either way)
                let d = m.component_meta.drop_fn.is_some();
                let drop_ok = match role {
                    Role::Tag => !d,
                    Role::Static(t) | Role::Gen(t) => d || !types::table()[t].needs_drop,
                    Role::Dyn(s) => dynval::slot(s).drop == d,
                };
                if (l.size(), l.align()) != role.layout() || !drop_ok {
                    return Err(format!(
                        "id {:#x} ({:?}) is described as a component of size {} align {}, destructor {}",
                        id.as_u64(), role, l.size(), l.align(), m.component_meta.drop_fn.is_some()
                    ));
                }
                self.logv(m.instance_meta.archetype.0 as u64);
                self.logv(m.instance_meta.index as u64);
                if let (Some(f), true, true) = (m.component_meta.drop_fn, self.f.meta, (self.step + e) % 4 == 0) {
                    self.check_errors_if()?;
                    self.probe_drop(role, f)?;
                }
            }
        }
        for c in self.known_comps() {
            self.check_comp(e, c)?;
        }
        let rot = self.step;
        for t in 0..NT {
            let want = alive && self.has(e, CRef::S(t));
            if (types::table()[t].has)(self.w(), id) != want {
                return Err(format!("has_component of type {} on entity {:#x} is not {}", t, id.as_u64(), want));
            }
            if (t + rot) % 4 == 0 {
                let w = self.w.as_ref().unwrap();
                let g = legit("get", || (types::table()[t].get_r)(w, id))?;
                let o = if want { Some(self.ents[e].comps[&self.smap[t].unwrap()]) } else { None };
                if g != o {
                    return Err(format!("type {} of entity {:#x} reads {:?} instead of {:?}", t, id.as_u64(), g, o));
                }
            }
        }
        Ok(())
    }

    /// No id near those that were issued is alive except those that were issued.
    fn check_strays(&mut self) -> R {
        let top = self.uindexes.keys().max().map_or(0, |m| m + 2);
        for i in 0..nearby_len(top) {
            let id = nearby(i);
            // (for a slot that was never used the call panics)
            if !catch(|| self.w.as_ref().unwrap().is_alive(id)).unwrap_or(false) {
                continue;
            }
            if self.by_hash.get(&id).map_or(false, |&e| self.ents[e].alive) {
                continue;
            }
            // (a refused call may have made a type known to the world)
            for t in 0..NT {
                if self.smap[t].is_none() {
                    self.learn(t)?;
                }
            }
            if !self.by_hash.get(&id).map_or(false, |&e| self.ents[e].alive) {
                return Err(format!("id {:#x} is alive although nothing returned it", id.as_u64()));
            }
        }
        Ok(())
    }

    /// The destructor that the metadata names destroys exactly the value it is given.
    fn probe_drop(&mut self, role: Role, f: fn(*mut std::mem::MaybeUninit<u8>)) -> R {
        let (size, align) = role.layout();
        if let Role::Static(t) | Role::Gen(t) = role {
            if !types::table()[t].tracked && !types::HEAP.contains(&t) {
                return Ok(());
            }
        }
        let before = ledger::total();
        let buf = Buf::new(size, align);
        let o = Self::make_raw(role, 0x1234_5678 + self.step as u64, buf.ptr());
        let made = ledger::total() - before;
        legit("the destructor of a component", || f(buf.ptr() as *mut std::mem::MaybeUninit<u8>))?;
        if ledger::total() != before {
            return Err(format!("the destructor in the metadata of {:?} destroys something else than the value {:#x} it is given ({} made)", role, o.v, made));
        }
        if let Some(m) = ledger::take_errors().first() {
            return Err(format!("the destructor in the metadata of {:?}: {}", role, m));
        }
        Ok(())
    }

    fn check_ids_query(&mut self) -> R {
        let lim = self.limit();
        let si = SHAPES.iter().position(|s| s.params == [P::I]).unwrap();
        let w = self.w.as_ref().unwrap();
        let rows = legit("the query for all ids", || (SHAPES[si].collect)(w, None, lim))?;
        let mut got: Vec<u64> = rows.iter().map(|r| r[0].v).collect();
        got.sort_unstable();
        let mut want: Vec<u64> = self.alive.iter().map(|&e| self.ents[e].id.as_u64()).collect();
        want.sort_unstable();
        if got != want {
            return Err(format!("the query for all ids gives {} of them, {} entities are alive", got.len(), want.len()));
        }
        self.log_rows(&rows);
        Ok(())
    }

    fn check_locations(&mut self) -> R {
        let mut by_set: HashMap<Vec<usize>, usize> = HashMap::new();
        let mut by_arch: HashMap<usize, (Vec<usize>, HashSet<usize>, usize)> = HashMap::new();
        for i in 0..self.alive.len() {
            let e = self.alive[i];
            let id = self.ents[e].id;
            let Some(m) = self.w().get_entity_meta(id).cloned() else {
                return Err(format!("no metadata for the live id {:#x}", id.as_u64()));
            };
            let (a, r) = (m.instance_meta.archetype.0, m.instance_meta.index);
            self.st.max_archetypes = self.st.max_archetypes.max(a as u64 + 1);
            let set: Vec<usize> = self.ents[e].comps.keys().copied().collect();
            let x = *by_set.entry(set.clone()).or_insert(a);
            if x != a {
                return Err(format!("entity {:#x} is in archetype {} while another with the same components is in {}", id.as_u64(), a, x));
            }
            let y = by_arch.entry(a).or_insert_with(|| (set.clone(), HashSet::new(), 0));
            if y.0 != set {
                return Err(format!("archetype {} holds entities with different components", a));
            }
            if !y.1.insert(r) {
                return Err(format!("two entities are at row {} of archetype {}", r, a));
            }
            y.2 = y.2.max(r + 1);
        }
        for (a, (_, rows, n)) in &by_arch {
            if rows.len() != *n {
                return Err(format!("the rows of archetype {} are not dense: {} entities, highest row {}", a, rows.len(), n - 1));
            }
            if *n > 1 {
                self.st.shared_archetypes += 1;
            }
        }
        Ok(())
    }

    /// All values lie in memory of their own.
    fn check_ranges(&mut self) -> R {
        let mut r: Vec<(usize, usize, u64, usize)> = Vec::new();
        for i in 0..self.alive.len() {
            let e = self.alive[i];
            for c in self.ents[e].comps.keys().copied().collect::<Vec<_>>() {
                let (eid, cid, role) = (self.ents[e].id, self.ents[c].id, self.ents[c].role);
                let (size, align) = role.layout();
                let Some(p) = self.w().get_component_mut_dynamic(eid, cid) else {
                    return Err(format!("entity {:#x} lost component {}", eid.as_u64(), self.show(c)));
                };
                if p as usize % align != 0 || p.is_null() {
                    return Err(format!("the pointer to component {} of entity {:#x} is not aligned to {}", self.show(c), eid.as_u64(), align));
                }
                if size > 0 {
                    r.push((p as usize, size, eid.as_u64(), c));
                }
            }
        }
        r.sort_unstable();
        self.st.ranges_checked += r.len() as u64;
        for w in r.windows(2) {
            if w[0].0 + w[0].1 > w[1].0 {
                return Err(format!(
                    "component {} of entity {:#x} and component {} of entity {:#x} overlap in memory",
                    self.show(w[0].3), w[0].2, self.show(w[1].3), w[1].2
                ));
            }
        }
        Ok(())
    }

    fn check_errors(&mut self) -> R {
        let ledger_too = self.f.ledger;
        match ledger::take_errors().into_iter().find(|m| ledger_too || !m.starts_with("destructor")) {
            Some(m) => Err(m),
            None => Ok(()),
        }
    }

    fn check_ledger_full(&mut self) -> R {
        let mut want: BTreeMap<(u16, u64), i64> = BTreeMap::new();
        for &e in &self.alive {
            for (c, o) in &self.ents[e].comps {
                if let Some(k) = self.ents[*c].role.key(*o) {
                    *want.entry(k).or_insert(0) += 1;
                }
            }
        }
        let got = ledger::snapshot(|_| true);
        if got != want {
            for (k, n) in &want {
                let g = got.get(k).copied().unwrap_or(0);
                if g < *n {
                    return Err(format!("a value of kind {} (content {:#x}) was destroyed although its entity still has it", k.0, k.1));
                }
            }
            for (k, n) in &got {
                if want.get(k).copied().unwrap_or(0) < *n {
                    return Err(format!("a value of kind {} (content {:#x}) that nothing holds any more was not destroyed", k.0, k.1));
                }
            }
        }
        Ok(())
    }

    pub fn full_check(&mut self) -> R {
        self.st.full_checks += 1;
        self.check_errors_if()?;
        let n = self.ents.len();
        if self.f.data {
            for i in 0..self.alive.len() {
                self.check_ent(self.alive[i])?;
            }
            for e in n.saturating_sub(64)..n {
                if !self.ents[e].alive {
                    self.check_ent(e)?;
                }
            }
            self.check_ids_query()?;
        } else {
            for k in 0..8.min(self.alive.len()) {
                let e = self.alive[(self.step * 7 + k * 13) % self.alive.len()];
                self.check_ent(e)?;
            }
        }
        for e in 0..n {
            let id = self.ents[e].id;
            let want = self.ents[e].alive;
            if self.w().is_alive(id) != want {
                return Err(format!("id {:#x} is {}alive", id.as_u64(), if want { "not " } else { "" }));
            }
        }
        if self.f.meta {
            self.check_locations()?;
        }
        if self.f.meta || self.f.data {
            self.check_strays()?;
        }
        if self.f.ranges {
            self.check_ranges()?;
        }
        if self.f.ledger {
            self.check_ledger_full()?;
        }
        self.check_errors_if()
    }

    fn check_errors_if(&mut self) -> R {
        if self.f.ledger || self.f.data || self.f.ranges {
            self.check_errors()
        } else {
            ledger::take_errors();
            Ok(())
        }
    }

    fn after_op(&mut self) -> R {
        self.st.asides += crate::aside::pokes();
        self.check_errors_if()?;
        if self.f.ledger && ledger::total() != self.expect_total {
            self.check_ledger_full()?;
            return Err(format!("{} values are alive, {} expected", ledger::total(), self.expect_total));
        }
        let mut t = std::mem::take(&mut self.touched);
        t.dedup();
        for &e in t.iter().take(4) {
            self.st.max_components = self.st.max_components.max(self.ents[e].comps.len() as u64);
            let id = self.ents[e].id;
            let a = self.w().get_entity_meta(id).map_or(0, |m| m.instance_meta.archetype.0 as u64 + 1);
            self.st.max_archetypes = self.st.max_archetypes.max(a);
        }
        if self.f.data && self.quiet {
            if self.step % 3 == 0 {
                let last = self.watched.take();
                if let Some(x) = last {
                    self.check_watched(x, self.step as u32)?;
                    self.check_ent(x)?;
                }
                for &e in t.iter().take(2) {
                    self.check_ent(e)?;
                }
                let next = self.pick_last(expand(self.step as u32) as u32);
                if let Some(x) = next {
                    self.check_watched(x, self.step as u32 >> 1)?;
                }
                self.watched = next;
            }
        } else if self.f.data {
            for &e in t.iter().take(6) {
                self.check_ent(e)?;
            }
        }
        t.clear();
        self.touched = t;
        if self.step % self.period == 0 {
            self.full_check()?;
        }
        Ok(())
    }

    // ---------------------------------------------------------------- refused operations

    fn expect_panic(&mut self, what: &str, r: Result<(), Payload>) -> R {
        self.st.refused += 1;
        match r {
            Ok(()) => Err(format!("{} was accepted", what)),
            Err(_) => {
                last_panic();
                self.st.refused_by_panic += 1;
                Ok(())
            }
        }
    }

    /// Makes a value that is handed to a call that refuses it.
    fn doomed(role: Role, v: u64) -> (Buf, Obs) {
        let (s, a) = role.layout();
        let b = Buf::new(s, a);
        let o = Self::make_raw(role, v, b.ptr());
        (b, o)
    }
    fn unspecified(role: Role, o: Obs) {
        if let Some((k, c)) = role.key(o) {
            ledger::unspecified(k, c)
        }
    }

    fn refused_op(&mut self, op: Op) -> R {
        let v = expand(op.c);
        let Some(e) = self.pick(op.a) else { return Ok(()) };
        let eid = self.ents[e].id;
        let kind = op.b % 18;
        let arg = op.b / 18;
        match kind {
            // a component that is already there
            0 | 1 | 2 => {
                let Some(c) = self.comp_present(e, arg) else { return self.refused_dead(op, v) };
                let (role, cid) = (self.ents[c].role, self.ents[c].id);
                if self.no_leak && role.owns_memory() {
                    return Ok(());
                }
                let w = self.w.as_mut().unwrap();
                if let (Role::Static(t), true) = (role, kind != 1) {
                    let mut o = None;
                    let r = catch(|| {
                        // the value is made by the call itself
                        o = Some((types::table()[t].add)(w, eid, v));
                    });
                    // its identity is the one the ledger issued last
                    let tok = ledger::with(|l| l.last_token());
                    let content = if types::table()[t].size == 0 { 0 } else { tok };
                    if types::table()[t].tracked {
                        ledger::unspecified(t as u16, content);
                    }
                    self.expect_panic("adding a component that is already there", r)?;
                } else {
                    let (b, o) = Self::doomed(role, v);
                    let r = if role.layout().0 == 0 && v & 1 == 0 {
                        catch(|| w.add_component_dynamic(eid, cid))
                    } else {
                        catch(|| unsafe { w.add_component_dynamic_with_data(eid, cid, b.ptr()) })
                    };
                    Self::unspecified(role, o);
                    self.expect_panic("adding by id a component that is already there", r)?;
                }
            }
            // one that is not there
            3 | 4 | 5 => {
                let Some(c) = self.cref_missing(e, arg) else { return Ok(()) };
                if let CRef::S(t) = c {
                    if kind == 5 && self.smap[t].is_none() {
                        // of a type that was never used
                        let w = self.w.as_mut().unwrap();
                        let r = catch(|| (types::table()[t].remove)(w, eid));
                        self.expect_panic("removing a component of a type that was never used", r)?;
                        return self.learn(t).map(|_| ());
                    }
                    self.learn(t)?;
                }
                let ci = self.comp_ix(c).unwrap();
                let cid = self.ents[ci].id;
                let w = self.w.as_mut().unwrap();
                let r = match (self.ents[ci].role, kind) {
                    (Role::Static(t), 3 | 5) => catch(|| (types::table()[t].remove)(w, eid)),
                    _ => catch(|| w.remove_component_dynamic(eid, cid)),
                };
                self.expect_panic("removing a component that is not there", r)?;
            }
            // the same component twice in a builder
            6 | 7 | 8 => {
                let mut comps = self.select(op.a >> 3, op.c >> 5, op.c);
                comps.truncate(5);
                if comps.is_empty() {
                    comps.push(CRef::S(arg as usize % NT));
                }
                for c in &comps {
                    if let CRef::S(t) = c {
                        self.learn(*t)?;
                    }
                }
                let at = arg as usize % comps.len();
                let dup = comps[at];
                let to = (arg as usize / 8) % (comps.len() + 1);
                comps.insert(to, dup);
                let vals = comps.iter().enumerate().map(|(i, c)| (*c, mix(v ^ i as u64))).collect::<Vec<_>>();
                let ids: Vec<(Role, EcsId)> = vals.iter().map(|(c, _)| (self.role_of(*c), self.ents[self.comp_ix(*c).unwrap()].id)).collect();
                let w = self.w.as_mut().unwrap();
                let r = catch(|| {
                    let mut b = if kind == 7 { w.spawn_with_capacity(9) } else { w.spawn() };
                    for (i, (c, v)) in vals.iter().enumerate() {
                        let mut o = Obs { v: 0, tok: 0 };
                        b = Self::with_value(b, *c, ids[i].0, Some(ids[i].1), *v, op.c.rotate_right(i as u32), &mut o);
                    }
                    b.build();
                });
                self.expect_panic("giving a builder the same component twice", r)?;
            }
            // building twice
            9 | 10 => {
                let comps = self.select(op.a >> 3, op.c >> 5, op.c);
                let vals = self.valued(comps, op.c, arg);
                let ids: Vec<(Role, Option<EcsId>)> = vals.iter().map(|(c, _)| (self.role_of(*c), self.comp_ix(*c).map(|i| self.ents[i].id))).collect();
                let mut obs = vec![Obs { v: 0, tok: 0 }; vals.len()];
                let mut first = None;
                let w = self.w.as_mut().unwrap();
                let r = catch(|| {
                    let mut b = w.spawn();
                    for (i, (c, v)) in vals.iter().enumerate() {
                        b = Self::with_value(b, *c, ids[i].0, ids[i].1, *v, 0, &mut obs[i]);
                    }
                    first = Some(b.build());
                    b.build();
                });
                let Some(id) = first else { return Err(format!("building an entity failed: {}", last_panic())) };
                for (c, _) in &vals {
                    if let CRef::S(t) = c {
                        self.learn(*t)?;
                    }
                }
                self.spawn_model(id, Role::Tag, &vals, &obs)?;
                self.expect_panic("building a builder twice", r)?;
            }
            // data as dataless
            11 | 12 => {
                let mut found = None;
                for i in 0..self.universe() as u32 {
                    let c = self.cref(arg.wrapping_add(i));
                    if self.role_of(c).layout().0 > 0 {
                        found = Some(c);
                        break;
                    }
                }
                let Some(c) = found else { return Ok(()) };
                if let CRef::S(t) = c {
                    self.learn(t)?;
                }
                let cid = self.ents[self.comp_ix(c).unwrap()].id;
                let w = self.w.as_mut().unwrap();
                let r = if kind == 11 {
                    catch(|| w.add_component_dynamic(eid, cid))
                } else {
                    catch(|| {
                        let mut b = w.spawn();
                        if v & 1 == 1 {
                            let mut o = Obs { v: 0, tok: 0 };
                            b = (types::table()[3].with)(b, v, &mut o);
                        }
                        b.with_dynamic(cid).build();
                    })
                };
                self.expect_panic("using a component with data as a dataless one", r)?;
                if kind == 12 && v & 1 == 1 {
                    self.learn(3)?;
                }
            }
            _ => return self.refused_dead(op, v),
        }
        self.touched.push(e);
        Ok(())
    }

    /// Dead ids as target and as component.
    fn refused_dead(&mut self, op: Op, v: u64) -> R {
        let Some(d) = self.pick_dead(op.a) else { return Ok(()) };
        let Some(e) = self.pick(op.c) else { return Ok(()) };
        let (did, eid) = (self.ents[d].id, self.ents[e].id);
        // whoever uses the slot now must not be affected
        if let Some(&s) = self.alive.iter().find(|&&x| self.ents[x].id.uindex() == did.uindex()) {
            self.touched.push(s);
        }
        let t = (v >> 8) as usize % NT;
        let mut zero = [0u8; 512];
        let buf = {
            let p = zero.as_mut_ptr();
            let off = p.align_offset(256);
            p.wrapping_add(off)
        };
        match op.b % 14 {
            0 => {
                let w = self.w.as_mut().unwrap();
                if legit("despawning a dead id", || w.despawn(did))? {
                    return Err(format!("despawning the dead id {:#x} reported success", did.as_u64()));
                }
                self.st.refused += 1;
            }
            1 => {
                let w = self.w.as_mut().unwrap();
                let before = ledger::with(|l| l.last_token());
                let r = catch(|| {
                    (types::table()[t].add)(w, did, v);
                });
                if types::table()[t].tracked {
                    let tok = ledger::with(|l| l.last_token());
                    if types::table()[t].size > 0 && tok != before {
                        ledger::unspecified(t as u16, tok);
                    } else if types::table()[t].size == 0 && ledger::total() > self.expect_total {
                        ledger::unspecified(t as u16, 0);
                    }
                }
                self.expect_panic("adding a component to a dead entity", r)?;
            }
            2 => {
                self.learn(t)?;
                let w = self.w.as_mut().unwrap();
                let r = catch(|| (types::table()[t].remove)(w, did));
                self.expect_panic("removing a component from a dead entity", r)?;
            }
            3 => {
                // (reports nothing: the value was not consumed, or the call panics)
                let c = self.cref((v >> 20) as u32);
                if let CRef::S(t) = c {
                    self.learn(t)?;
                }
                let ci = self.comp_ix(c).unwrap();
                let cid = self.ents[ci].id;
                if self.no_leak && self.ents[ci].role.owns_memory() {
                    return Ok(());
                }
                let (b, o) = Self::doomed(self.ents[ci].role, v);
                let w = self.w.as_mut().unwrap();
                let _ = catch(|| unsafe { w.add_component_dynamic_with_data(did, cid, b.ptr()) });
                Self::unspecified(self.ents[ci].role, o);
                self.st.refused += 1;
            }
            4 => {
                let w = self.w.as_mut().unwrap();
                let _ = catch(|| unsafe { w.add_component_dynamic_with_data(eid, did, buf) });
                self.st.refused += 1;
            }
            5 => {
                let w = self.w.as_mut().unwrap();
                let r = catch(|| w.add_component_dynamic(eid, did));
                self.expect_panic("adding a dead entity as a component", r)?;
            }
            6 => {
                let w = self.w.as_mut().unwrap();
                let r = catch(|| w.add_component_dynamic(did, eid));
                self.expect_panic("adding a component to a dead entity", r)?;
            }
            7 => {
                let c = self.pick((v >> 30) as u32).unwrap();
                let cid = self.ents[c].id;
                let w = self.w.as_mut().unwrap();
                let _ = catch(|| w.remove_component_dynamic(did, cid));
                self.st.refused += 1;
            }
            8 => {
                let w = self.w.as_mut().unwrap();
                let _ = catch(|| w.remove_component_dynamic(eid, did));
                self.st.refused += 1;
            }
            9 | 10 => {
                let ids = (0..2).map(|i| (v >> (i * 5)) as usize % NT).collect::<Vec<_>>();
                for t in &ids {
                    self.learn(*t)?;
                }
                let w = self.w.as_mut().unwrap();
                let r = catch(|| {
                    let mut b = w.spawn();
                    let mut o = Obs { v: 0, tok: 0 };
                    if op.c & 4 == 4 {
                        b = (types::table()[ids[0]].with)(b, v, &mut o);
                    }
                    if op.b % 14 == 9 {
                        b = b.with_dynamic(did);
                    } else {
                        b = unsafe { b.with_dynamic_with_data(buf, did) };
                    }
                    b.build();
                });
                self.expect_panic("giving a builder a dead entity as a component", r)?;
            }
            _ => {
                self.check_ent(d)?;
                let w = self.w.as_mut().unwrap();
                let a = legit("get_component_mut_dynamic", || w.get_component_mut_dynamic(eid, did))?;
                let b = legit("get_component_mut_dynamic", || w.get_component_mut_dynamic(did, eid))?;
                if a.is_some() || b.is_some() {
                    return Err(format!("a component was found for the dead id {:#x}", did.as_u64()));
                }
                self.typed_get(op.c as usize, d, None)?;
                self.st.refused += 1;
            }
        }
        last_panic();
        self.touched.push(e);
        Ok(())
    }

    // ---------------------------------------------------------------- composite operations

    /// The same components with the same values, assembled in different ways.
    fn twins(&mut self, op: Op) -> R {
        let mut comps = self.select(op.a, op.b >> 16, op.c);
        comps.truncate(8);
        let vals: Vec<(CRef, u64)> = comps.iter().enumerate().map(|(i, c)| (*c, mix(expand(op.c) ^ i as u64))).collect();
        let routes = 2 + op.b % 3;
        let mut made: Vec<usize> = Vec::new();
        for r in 0..routes {
            let how = mix(op.b as u64 ^ (r as u64) << 40) as u32;
            let mut v = vals.clone();
            Self::permute(&mut v, how >> 3);
            let e = match how % 7 {
                0 | 1 => self.spawn(v, how)?,
                2 => {
                    // one at a time, afterwards
                    let e = self.spawn(vec![], how)?;
                    for (i, (c, x)) in v.into_iter().enumerate() {
                        self.add(e, c, x, how >> (i + 5) & 1 == 1)?;
                    }
                    e
                }
                3 => {
                    // some in the builder, the rest afterwards
                    let k = (how >> 9) as usize % (v.len() + 1);
                    let rest = v.split_off(k);
                    let e = self.spawn(v, how)?;
                    for (c, x) in rest {
                        self.add(e, c, x, how & 1 == 0)?;
                    }
                    e
                }
                4 => {
                    // after a builder that was given up
                    self.abandon(v.clone(), how >> 2)?;
                    self.spawn(v, how >> 1)?
                }
                5 => {
                    // with one too many, removed again
                    let e = self.spawn(vec![], how)?;
                    let extra = self.cref(how >> 4);
                    if !v.iter().any(|(c, _)| self.comp_ix(*c) == self.comp_ix(extra) || *c == extra) {
                        self.add(e, extra, how as u64, false)?;
                        for (c, x) in v {
                            self.add(e, c, x, how & 1 == 0)?;
                        }
                        let x = self.comp_ix(extra).unwrap();
                        self.remove(e, x, how & 2 == 0)?;
                    } else {
                        for (c, x) in v {
                            self.add(e, c, x, how & 1 == 0)?;
                        }
                    }
                    e
                }
                _ => match self.spawn_macro(&v)? {
                    Some(e) => e,
                    None => self.spawn(v, how)?,
                },
            };
            made.push(e);
        }
        self.st.twins += 1;
        let first = made[0];
        for &e in &made {
            if self.ents[e].comps.keys().ne(self.ents[first].comps.keys()) {
                return Err("the twins of the model differ".into());
            }
            self.check_ent(e)?;
        }
        let place = |s: &mut Self, e: usize| {
            let id = s.ents[e].id;
            s.w().get_entity_meta(id).map(|m| (m.instance_meta.archetype.0, m.instance_meta.index))
        };
        let p0 = place(self, first);
        let mut rows = HashSet::new();
        for &e in &made {
            let p = place(self, e);
            if p.map(|x| x.0) != p0.map(|x| x.0) {
                return Err(format!("the same components assembled in two ways end in different archetypes: {:?}, {:?}", p0, p));
            }
            rows.insert(p.map(|x| x.1));
        }
        if rows.len() != made.len() {
            return Err("two entities with the same components share a row".into());
        }
        Ok(())
    }

    /// `spawn!` for the component sets it is compiled for.
    fn spawn_macro(&mut self, v: &[(CRef, u64)]) -> R<Option<usize>> {
        use types::*;
        let ts: Vec<usize> = v.iter().filter_map(|(c, _)| if let CRef::S(t) = c { Some(*t) } else { None }).collect();
        if ts.len() != v.len() {
            return Ok(None);
        }
        let val: HashMap<usize, u64> = v.iter().map(|(c, x)| if let CRef::S(t) = c { (*t, *x) } else { unreachable!() }).collect();
        let mut sorted = ts.clone();
        sorted.sort_unstable();
        let mut obs: Vec<(usize, Obs)> = Vec::new();
        let w = self.w.as_mut().unwrap();
        macro_rules! mk {
            ($t:ident, $i:expr) => {{
                let t = <$t as Tc>::make(val[&$i]);
                obs.push(($i, Tc::obs(&t)));
                t
            }};
        }
        let id = legit("spawn!", || {
            Some(match sorted.as_slice() {
                [] => arche_tape::spawn!(&mut w),
                [0] => arche_tape::spawn!(&mut w, mk!(T0, 0)),
                [2] => arche_tape::spawn!(&mut w, mk!(T2, 2)),
                [3] => arche_tape::spawn!(&mut w, mk!(T3, 3),),
                [0, 1] => arche_tape::spawn!(&mut w, mk!(T1, 1), mk!(T0, 0)),
                [0, 2] => arche_tape::spawn!(&mut w, mk!(T0, 0), mk!(T2, 2)),
                [3, 5] => arche_tape::spawn!(&mut w, mk!(T5, 5), mk!(T3, 3)),
                [1, 2, 3] => arche_tape::spawn!(&mut w, mk!(T3, 3), mk!(T1, 1), mk!(T2, 2)),
                _ => return None,
            })
        })?;
        let Some(id) = id else { return Ok(None) };
        for t in &ts {
            self.learn(*t)?;
        }
        let comps: Vec<(CRef, u64)> = obs.iter().map(|(t, _)| (CRef::S(*t), 0)).collect();
        let os: Vec<Obs> = obs.iter().map(|(_, o)| *o).collect();
        self.spawn_model(id, Role::Tag, &comps, &os).map(Some)
    }

    fn abandon(&mut self, vals: Vec<(CRef, u64)>, how: u32) -> R {
        let cap = if how & 0x100 != 0 { Some(how as usize % 64) } else { None };
        let meta = if how & 0x600 == 0x600 { Some(dynval::meta(how as usize % NSLOT)) } else { None };
        self.build(&vals, cap, meta, how, false)?;
        if self.f.meta && self.f.data {
            self.check_strays()?;
        }
        self.st.abandoned += 1;
        if vals.iter().any(|(c, _)| self.role_of(*c).layout().0 > 0) {
            self.st.abandoned_with_values += 1;
        }
        Ok(())
    }

    /// A builder is dropped unbuilt and one of its values panics.
    fn armed_abandon(&mut self, comps: Vec<(CRef, u64)>, how: u32) -> R {
        let ids: Vec<(Role, Option<EcsId>)> =
            comps.iter().map(|(c, _)| (self.role_of(*c), self.comp_ix(*c).map(|i| self.ents[i].id))).collect();
        let mut obs = vec![Obs { v: 0, tok: 0 }; comps.len()];
        let w = self.w.as_mut().unwrap();
        let mut armed = false;
        let r = catch(|| {
            let mut b = w.spawn();
            for (i, (c, v)) in comps.iter().enumerate() {
                b = Self::with_value(b, *c, ids[i].0, ids[i].1, *v, how.rotate_right(2 * i as u32), &mut obs[i]);
            }
            armed = Self::arm_one(ids.iter().map(|x| x.0).zip(obs.iter().copied()), how >> 4);
            drop(b);
        });
        if armed {
            Self::fired(r)?;
            self.st.armed += 1;
            self.st.armed_builders += 1;
        } else {
            r.map_err(|_| format!("giving components to a builder failed: {}", last_panic()))?;
        }
        for (c, _) in &comps {
            if let CRef::S(t) = c {
                self.learn(*t)?;
            }
        }
        self.full_check()
    }

    fn armed(&mut self, op: Op) -> R {
        if op.c % 16 < 2 {
            let comps = self.select(op.a, op.a >> 16, op.c >> 8);
            let v = self.valued(comps, op.b, op.c >> 8);
            return self.armed_abandon(v, op.c);
        }
        let n = self.alive.len();
        if n == 0 {
            return Ok(());
        }
        let start = op.a as usize % n;
        let mut target = None;
        for i in 0..n {
            let e = self.alive[(start + i) % n];
            let ks: Vec<(usize, (u16, u64))> =
                self.ents[e].comps.iter().filter_map(|(c, o)| self.ents[*c].role.key(*o).map(|k| (*c, k))).collect();
            if !ks.is_empty() {
                let (c, k) = ks[op.b as usize % ks.len()];
                target = Some((e, c, k));
                break;
            }
        }
        let Some((e, c, k)) = target else { return Ok(()) };
        let (eid, cid, role) = (self.ents[e].id, self.ents[c].id, self.ents[c].role);
        let mode = (op.c % 8) / 2;
        ledger::arm(k.0, k.1);
        let w = self.w.as_mut().unwrap();
        let r = match (mode, role) {
            (0, Role::Static(t)) => catch(|| (types::table()[t].remove)(w, eid)),
            (0, _) | (1, _) => catch(|| w.remove_component_dynamic(eid, cid)),
            (2, _) => catch(|| {
                w.despawn(eid);
            }),
            _ => catch(|| {
                w.despawn(cid);
            }),
        };
        Self::fired(r)?;
        self.st.armed += 1;
        if mode >= 2 {
            self.despawn_model(if mode == 2 { e } else { c });
        } else {
            self.take(e, c);
        }
        self.touched.push(e);
        self.full_check()
    }

    // ---------------------------------------------------------------- interpreter

    pub fn step(&mut self, op: Op) -> R {
        self.step += 1;
        self.st.ops += 1;
        crate::aside::visit(&mut self.w, self.step as u64 ^ op.a as u64);
        let r = self.exec(op).and_then(|_| self.after_op());
        r.map_err(|m| format!("step {} ({} {} {} {}): {}", self.step, KIND_NAMES[(op.k % NKINDS) as usize], op.a, op.b, op.c, m))
    }

    fn exec(&mut self, op: Op) -> R {
        let Op { k, a, b, c } = op;
        match k % NKINDS {
            K_SPAWN => {
                let comps = self.select(a, a >> 16, c);
                let v = self.valued(comps, b, c >> 16);
                self.spawn(v, c)?;
            }
            K_SPAWN_SHAPE => {
                let sh = &SHAPES[a as usize % SHAPES.len()];
                let mut m = 0u32;
                for p in sh.params {
                    if let Some(t) = p.ty() {
                        m |= 1 << t;
                    }
                }
                m |= 1 << (b % 16);
                if b & 0x100 != 0 {
                    m &= !(1 << ((b >> 4) % 16));
                }
                let comps = self.select(m, a >> 16, c);
                for i in 0..1 + (c >> 20) % 3 {
                    let v = self.valued(comps.clone(), b.wrapping_add(i), c);
                    self.spawn(v, c)?;
                }
            }
            K_BULK_SPAWN => {
                let n = 1 + b % 48;
                let stride = 1 + (b >> 8) % 5;
                for i in 0..n {
                    let m = if c & 1 == 0 { a.wrapping_add(i * stride) } else { a };
                    let comps = self.select(m, m >> 16, c);
                    let v = self.valued(comps, c.wrapping_add(i), c >> 3);
                    self.spawn(v, if c & 2 == 0 { 0 } else { c.wrapping_add(i) })?;
                }
            }
            K_SPAWN_COMP => {
                let role = match a % 8 {
                    0..=4 => Role::Dyn((a / 8) as usize % NSLOT),
                    5 => Role::Gen((a / 8) as usize % NT),
                    _ => Role::Tag,
                };
                if self.others.len() >= 160 {
                    return Ok(());
                }
                let n = if c & 15 == 15 { 1 + (c >> 4) % 24 } else { 1 };
                for i in 0..n {
                    let role = match role {
                        Role::Dyn(s) => Role::Dyn((s + i as usize) % NSLOT),
                        r => r,
                    };
                    let comps = if b & 7 == 0 { self.select(b >> 3, 0, 0) } else { vec![] };
                    let v = self.valued(comps, c, 0);
                    let meta = match role {
                        Role::Dyn(s) => Some(dynval::meta(s)),
                        Role::Gen(t) => Some((types::table()[t].meta)()),
                        _ => {
                            if b & 8 == 8 {
                                Some(ComponentMeta::unit())
                            } else {
                                None
                            }
                        }
                    };
                    let (id, obs) = self.build(&v, None, meta, c, true)?;
                    let e = self.spawn_model(id.unwrap(), role, &v, &obs)?;
                    self.others.push(e);
                }
            }
            K_ADD => {
                let Some(e) = self.pick(a) else { return self.skip() };
                let Some(cr) = self.cref_missing(e, b) else { return self.skip() };
                self.add(e, cr, expand(c), c & 1 == 1)?;
            }
            K_REMOVE => {
                let Some(e) = self.pick(a) else { return self.skip() };
                let Some(ci) = self.comp_present(e, b) else { return self.skip() };
                self.remove(e, ci, c & 1 == 1)?;
            }
            K_DESPAWN => {
                let Some(mut e) = self.pick(a) else { return self.skip() };
                for i in 0..4 {
                    if self.ents[e].role == Role::Tag && !self.ents[e].used && !self.others.contains(&e) {
                        break;
                    }
                    e = self.pick(a.wrapping_add(2 * i + 2)).unwrap();
                }
                if self.ents[e].role != Role::Tag || self.ents[e].used || self.others.contains(&e) {
                    return self.skip();
                }
                self.despawn(e)?;
            }
            K_DESPAWN_COMP => {
                let e = if a & 3 == 0 {
                    let s = (a >> 2) as usize % NT;
                    (0..NT).filter_map(|i| self.smap[(s + i) % NT]).next()
                } else {
                    let n = self.others.len();
                    if n == 0 {
                        None
                    } else {
                        Some(self.others[(a >> 2) as usize % n])
                    }
                };
                let Some(e) = e else { return self.skip() };
                self.despawn(e)?;
                if b & 3 == 0 {
                    // something new takes the slot
                    let v = self.valued(vec![], 0, 0);
                    self.spawn(v, 0)?;
                }
            }
            K_SET => {
                let Some(e) = self.pick(a) else { return self.skip() };
                if b & 3 == 3 {
                    // through the pointer
                    let Some(ci) = self.comp_present(e, b >> 2) else { return self.skip() };
                    let (eid, cid, role) = (self.ents[e].id, self.ents[ci].id, self.ents[ci].role);
                    let Some(p) = self.w().get_component_mut_dynamic(eid, cid) else {
                        return Err(format!("entity {:#x} lost component {}", eid.as_u64(), self.show(ci)));
                    };
                    let old = self.read_ptr(role, p)?;
                    if !Self::same(role, old, self.ents[e].comps[&ci]) {
                        return Err(format!("entity {:#x}: component {} has changed", eid.as_u64(), self.show(ci)));
                    }
                    let new = Self::write_ptr(role, old, expand(c), p);
                    self.ents[e].comps.insert(ci, new);
                    self.st.writes += 1;
                    self.touched.push(e);
                } else if b & 3 == 2 {
                    self.typed_get(b as usize >> 2, e, Some(c as u64))?;
                } else {
                    let t = (b >> 2) as usize % NT;
                    let id = self.ents[e].id;
                    let w = self.w.as_ref().unwrap();
                    let v = expand(c);
                    let g = legit("get", || (types::table()[t].get_w)(w, id, v))?;
                    let want = if self.has(e, CRef::S(t)) { Some(self.ents[e].comps[&self.smap[t].unwrap()]) } else { None };
                    if g != want {
                        return Err(format!("type {} of entity {:#x} reads {:?} instead of {:?}", t, id.as_u64(), g, want));
                    }
                    if want.is_some() {
                        let ci = self.smap[t].unwrap();
                        self.ents[e].comps.get_mut(&ci).unwrap().v = (types::table()[t].norm)(v);
                        self.st.writes += 1;
                        self.touched.push(e);
                    } else {
                        self.st.absent_reads += 1;
                    }
                }
            }
            K_QUERY_WRITE => {
                let si = self.shape(a, b);
                self.typed_query(si, Some(c as u64))?
            }
            K_QUERY => {
                let si = self.shape(a, b);
                self.typed_query(si, None)?;
                if c & 3 == 0 {
                    if let Some(e) = self.pick(c >> 2) {
                        self.typed_get(si, e, None)?;
                    }
                } else if c & 3 == 1 {
                    self.typed_get_many(si, c)?;
                }
            }
            K_PARTIAL => {
                let si = self.shape(a, b);
                self.partial_query(si, c as usize)?
            }
            K_DYN_WRITE => {
                let fs = self.fetch_list(a, b, c);
                self.dyn_query(&fs, Some(c as u64))?
            }
            K_DYN_QUERY => {
                let fs = self.fetch_list(a, b, c);
                self.dyn_query(&fs, None)?;
                if fs.iter().all(|f| matches!(f.x, Fx::C(_))) {
                    self.agree(&fs)?;
                }
            }
            K_STALE => {
                let v = expand(c);
                let Some(d) = self.pick_dead(a) else { return self.skip() };
                self.check_ent(d)?;
                self.refused_dead(Op { k, a, b, c }, v)?;
                self.st.dead_reads += 1;
            }
            K_REFUSED => {
                self.refused_op(op)?;
                if self.f.data || self.f.ledger {
                    self.full_check()?;
                }
            }
            K_ABANDON => {
                let comps = self.select(a, a >> 16, c);
                let v = self.valued(comps, b, c);
                self.abandon(v, c)?;
            }
            K_CHURN => {
                let n = 1 + b % 24;
                for i in 0..n {
                    let comps = self.select(a & if c & 1 == 0 { 0 } else { u32::MAX }, 0, 0);
                    let v = self.valued(comps, i, 0);
                    let e = self.spawn(v, 0)?;
                    if c >> 1 & 3 != 3 || i % 3 != 0 {
                        self.despawn(e)?;
                    }
                }
            }
            K_TWINS => self.twins(op)?,
            K_TAG => {
                // any live entity as a dataless component of any
                let (Some(e), Some(mut x)) = (self.pick(a), self.pick(if c & 7 == 0 { a } else { b })) else { return self.skip() };
                if c >> 3 & 3 == 1 && !self.others.is_empty() {
                    // one whose slot differs in a single bit from that of another component
                    let o = self.others[(b >> 4) as usize % self.others.len()];
                    x = self.far_twin(o, c >> 5).unwrap_or(x);
                }
                let role = self.ents[x].role;
                if role.layout().0 != 0 || matches!(role, Role::Static(_)) {
                    return self.skip();
                }
                if self.has(e, CRef::E(x)) {
                    return self.skip();
                }
                if !self.others.contains(&x) {
                    if self.others.len() >= 160 {
                        return self.skip();
                    }
                    self.others.push(x);
                }
                self.add(e, CRef::E(x), 0, true)?;
                self.st.tags_attached += 1;
                if e == x {
                    self.st.self_tags += 1;
                }
            }
            K_UNTAG => {
                let Some(e) = self.pick(a) else { return self.skip() };
                let Some(ci) = self.ents[e].comps.keys().copied().filter(|c| self.ents[*c].role == Role::Tag).nth(b as usize % 3) else {
                    return self.skip();
                };
                self.remove(e, ci, true)?;
            }
            K_BULK_ADD => {
                // a component to, or away from, every entity in turn
                let cr = self.cref(b);
                let list: Vec<usize> = self.alive.clone();
                let m = 1 + (a % 4) as usize;
                let mut done = 0;
                for (i, e) in list.into_iter().enumerate() {
                    if i % m != 0 || done > 40 {
                        continue;
                    }
                    if self.has(e, cr) {
                        if c & 2 == 0 {
                            let ci = self.comp_ix(cr).unwrap();
                            self.remove(e, ci, c & 1 == 1)?;
                            done += 1;
                        }
                    } else if c & 4 == 0 {
                        self.add(e, cr, expand(c.wrapping_add(i as u32)), c & 1 == 1)?;
                        done += 1;
                    }
                }
            }
            K_BULK_DESPAWN => {
                let m = 2 + (b % 3) as usize;
                let mut list: Vec<usize> = self.alive.iter().copied().filter(|&e| self.ents[e].role == Role::Tag && !self.ents[e].used && !self.others.contains(&e)).collect();
                if c & 1 == 1 {
                    list.reverse();
                }
                for e in list.into_iter().skip(a as usize % m).step_by(m).take(40) {
                    self.despawn(e)?;
                }
            }
            K_ARMED => self.armed(op)?,
            K_VERIFY => self.full_check()?,
            K_REGISTER => {
                let t = a as usize % NT;
                let was = self.smap[t].is_some();
                let c1 = self.learn(t)?;
                if !was {
                    self.st.rebuilt_types += 1;
                }
                for t in 0..NT {
                    if let Some(x) = self.smap[t] {
                        if x != c1 && self.ents[x].id == self.ents[c1].id {
                            return Err("two types have one id".into());
                        }
                    }
                }
                self.check_ent(c1)?;
            }
            K_ABSENT => {
                // a type that may never have been used
                let t = a as usize % NT;
                let Some(e) = self.pick(b) else { return self.skip() };
                self.check_ent(e)?;
                let unused: Vec<usize> = (0..SHAPES.len())
                    .filter(|i| SHAPES[*i].params.iter().any(|p| p.ty() == Some(t)))
                    .collect();
                let si = unused[c as usize % unused.len()];
                self.typed_query(si, None)?;
                self.typed_get(si, e, None)?;
                self.partial_query(si, 1)?;
            }
            K_ZIGZAG => {
                // one entity through a cycle of component sets and back
                let Some(e) = self.pick(a) else { return self.skip() };
                let mut path = Vec::new();
                for i in 0..1 + c % 4 {
                    if let Some(cr) = self.cref_missing(e, b.wrapping_add(i * 5)) {
                        self.add(e, cr, expand(c ^ i), (b >> i) & 1 == 1)?;
                        path.push(self.comp_ix(cr).unwrap());
                    }
                }
                if c & 8 == 0 {
                    path.reverse();
                }
                for ci in path {
                    self.remove(e, ci, c & 16 == 0)?;
                }
            }
            K_BROAD => {
                // an entity with a great many components
                let n = match b & 7 {
                    0..=3 => 20 + (b >> 3) as usize % 50,
                    4..=6 => 60 + (b >> 3) as usize % 80,
                    _ => 200 + (b >> 3) as usize % 110,
                };
                while self.others.len() < n {
                    let i = self.others.len();
                    let (role, meta) = match mix(b as u64 ^ i as u64) % 8 {
                        0 => (Role::Dyn(i % NSLOT), Some(dynval::meta(i % NSLOT))),
                        1 => (Role::Gen(i % NT), Some((types::table()[i % NT].meta)())),
                        _ => (Role::Tag, None),
                    };
                    let (id, obs) = self.build(&[], None, meta, 0, true)?;
                    let e = self.spawn_model(id.unwrap(), role, &[], &obs)?;
                    self.others.push(e);
                }
                let mut comps: Vec<CRef> = (0..NT).filter(|t| a >> t & 1 == 1).map(CRef::S).collect();
                comps.extend(self.others.iter().take(n).map(|&o| CRef::E(o)));
                let v = self.valued(comps.clone(), c, c >> 8);
                let at_once = match c & 3 {
                    0 => 0,
                    1 => v.len() / 2,
                    _ => v.len(),
                };
                let e = self.spawn(v[..at_once].to_vec(), c)?;
                for (i, (cr, v)) in v[at_once..].iter().enumerate() {
                    self.add(e, *cr, *v, (c >> (i % 32)) & 1 == 1)?;
                }
                for i in 0..(c >> 4) % 12 {
                    if let Some(ci) = self.comp_present(e, mix((c ^ i) as u64) as u32) {
                        self.remove(e, ci, i & 1 == 1)?;
                    }
                }
                // others that are to end up beside it, or almost
                comps.retain(|cr| self.has(e, *cr));
                for j in 0..[0, 1, 1, 3][(c >> 2) as usize % 4] {
                    let r = mix((c as u64) << 8 | j) as u32;
                    let mut these = comps.clone();
                    let mut replaced = None;
                    if r & 3 != 0 && !these.is_empty() {
                        let i = (r >> 8) as usize % these.len();
                        match self.cref_missing(e, r >> 4) {
                            Some(o) => {
                                if r & 4 == 4 {
                                    // (once there already was one with it as well)
                                    self.add(e, o, c as u64, r & 8 == 8)?;
                                    let ci = self.comp_ix(o).unwrap();
                                    self.remove(e, ci, r & 16 == 16)?;
                                }
                                replaced = Some(std::mem::replace(&mut these[i], o));
                            }
                            None => drop(these.remove(i)),
                        }
                    }
                    let v = self.valued(these, r.wrapping_add(1), c >> 10);
                    let f = self.spawn(v, r >> 3)?;
                    if let (Some(cr), true) = (replaced, r & 32 == 32) {
                        self.add(f, cr, r as u64, r & 64 == 64)?;
                    }
                }
            }
            K_AGE => self.age(a, b, c)?,
            K_REPLACE => self.replace(a, b, c)?,
            K_MASS => {
                // a great many entities with the same components, some of which move on
                // (rarely more than sixteen bits count)
                if c % 21 == 10 {
                    // a great many combinations of components
                    let n = if (c >> 7) % 64 == 63 && !cfg!(miri) { 65540 } else { 300 + b % 2000 };
                    while self.others.iter().filter(|&&o| self.ents[o].role == Role::Tag).count() < 17 {
                        let (id, obs) = self.build(&[], None, None, 0, true)?;
                        let e = self.spawn_model(id.unwrap(), Role::Tag, &[], &obs)?;
                        self.others.push(e);
                    }
                    let tags: Vec<CRef> = self.others.iter().filter(|&&o| self.ents[o].role == Role::Tag).take(17).map(|&o| CRef::E(o)).collect();
                    let more: Vec<CRef> = self.select(a & 0xff, 0, c).into_iter().take(2).collect();
                    for i in 0..n {
                        let bits = i ^ i >> 1;
                        let mut comps: Vec<CRef> = (0..17).filter(|t| bits >> t & 1 == 1).map(|t| tags[t]).collect();
                        comps.extend(more.iter().copied());
                        let v = self.valued(comps, c.wrapping_add(i), 0);
                        let e = self.spawn(v, 0)?;
                        if i % 32 == 31 {
                            let cr = tags[i as usize / 32 % 17];
                            match self.has(e, cr) {
                                true => self.remove(e, self.comp_ix(cr).unwrap(), true)?,
                                false => self.add(e, cr, 0, true)?,
                            }
                        }
                    }
                    return Ok(());
                }
                let giant = c % 21 == 20;
                let n = match c >> 17 & 7 {
                    _ if giant => 65530 + b % 700,
                    6 | 7 if !cfg!(miri) => 2000 + b % 9000,
                    _ => 200 + b % 1300,
                };
                let mut comps = self.select(a, a >> 16, c);
                if giant {
                    comps.retain(|c| self.role_of(*c).layout().0 <= 64);
                    comps.truncate(3);
                }
                let mut made = Vec::new();
                for i in 0..n {
                    let v = self.valued(comps.clone(), c.wrapping_add(i), 0);
                    made.push(self.spawn(v, 0)?);
                }
                let step = if giant && b % 2 == 0 { 1 } else { 2 + (c >> 4) as usize % 40 };
                let mut cr = self.cref(c >> 9);
                if giant && self.role_of(cr).layout().0 > 64 {
                    cr = CRef::S(0);
                }
                for &e in made.iter().skip((c >> 4) as usize % step).step_by(step) {
                    match c & 3 {
                        0 => self.despawn(e)?,
                        1 if self.has(e, cr) => {
                            let ci = self.comp_ix(cr).unwrap();
                            self.remove(e, ci, c & 4 == 4)?;
                        }
                        1 | 2 if !self.has(e, cr) => self.add(e, cr, e as u64, c & 4 == 4)?,
                        _ => {}
                    }
                }
                if c >> 15 & 3 == 3 {
                    // most of them leave, from either end or from all over
                    made.retain(|&e| self.ents[e].alive);
                    let keep = match (a ^ b) % 4 {
                        0 => b as usize % 40,
                        1 => made.len() / 64 + b as usize % 70,
                        _ => made.len() / (5 + b as usize % 9) + b as usize % 70,
                    };
                    let stride = made.len() / keep.max(1);
                    for (i, &e) in made.iter().enumerate() {
                        let stays = match a >> 3 & 3 {
                            0 => i < keep,
                            1 => i + keep >= made.len(),
                            _ => i % stride.max(1) == 0,
                        };
                        if stays || self.ents[e].used {
                            continue;
                        }
                        match a >> 5 & 1 == 1 && !self.has(e, cr) {
                            true => self.add(e, cr, e as u64, c & 4 == 4)?,
                            false => self.despawn(e)?,
                        }
                    }
                    self.st.shrunk += 1;
                }
                made.retain(|&e| self.ents[e].alive);
                let Some(&first) = made.get(b as usize % made.len().max(1)) else { return Ok(()) };
                // components whose slots are as far apart as can be, of an entity each
                if c & 8 == 8 {
                    for k in 0..2 {
                        let Some(o) = self.far_twin(first, 0) else { break };
                        for (x, y) in [(first, self.pick(c)), (o, self.pick(b.wrapping_mul(31) + k))] {
                            let Some(y) = y else { continue };
                            if self.ents[x].role != Role::Tag || self.has(y, CRef::E(x)) {
                                continue;
                            }
                            if !self.others.contains(&x) {
                                self.others.push(x);
                            }
                            self.add(y, CRef::E(x), 0, true)?;
                        }
                        for x in [first, o] {
                            if self.ents[x].role == Role::Tag {
                                self.dyn_query(&[F { m: false, x: Fx::C(x) }, F { m: false, x: Fx::Id }], None)?;
                            }
                        }
                    }
                }
                let si = (0..SHAPES.len())
                    .map(|i| (i + a as usize) % SHAPES.len())
                    .find(|&i| SHAPES[i].params.len() > 1 && SHAPES[i].params.iter().all(|p| p.ty().map_or(true, |t| self.has(first, CRef::S(t)))));
                if let Some(si) = si {
                    self.typed_query(si, None)?;
                }
            }
            _ => {}
        }
        Ok(())
    }

    /// A live entity whose slot differs in a single bit (of those beyond the first eight, the
    /// highest first, or the `k`th highest) from that of `o`.
    fn far_twin(&self, o: usize, k: u32) -> Option<usize> {
        let s = self.ents[o].id.uindex();
        let mut by: Vec<(usize, usize)> = self
            .alive
            .iter()
            .map(|&e| (self.ents[e].id.uindex() ^ s, e))
            .filter(|(d, _)| *d >= 256 && d.is_power_of_two())
            .collect();
        by.sort_unstable_by(|x, y| y.cmp(x));
        if by.is_empty() {
            return None;
        }
        Some(by[k as usize % by.len()].1)
    }

    /// A component is despawned and its slot used over and over; the next to have the slot, 2^k
    /// generations later, is used as a component, too.
    fn age(&mut self, a: u32, b: u32, c: u32) -> R {
        let k = match c % 64 {
            _ if cfg!(miri) => 1 + c % 3,
            63 => 16,
            62 => 12 + (c >> 6) % 4,
            0..=15 => c % 8,
            _ => 8,
        };
        let n = self.others.len();
        let x = match n > 0 && a & 3 != 0 {
            true => self.others[(a >> 2) as usize % n],
            false => {
                let v = self.valued(vec![], 0, 0);
                let x = self.spawn(v, 0)?;
                self.others.push(x);
                x
            }
        };
        // (most remove it from something)
        let Some(e) = self.pick(b) else { return Ok(()) };
        if c & 64 == 0 && !self.has(e, CRef::E(x)) {
            self.add(e, CRef::E(x), b as u64, true)?;
        }
        self.despawn(x)?;
        for i in 1..1u32 << k {
            let w = self.w.as_mut().unwrap();
            let id = legit("spawning", || w.spawn().build())?;
            if !self.by_u64.insert(id.as_u64()) {
                return Err(format!("id {:#x} was issued before", id.as_u64()));
            }
            if i.is_power_of_two() && self.by_hash.contains_key(&id) {
                return Err(format!("id {:#x} equals (as a hash key) one issued before", id.as_u64()));
            }
            let w = self.w.as_mut().unwrap();
            if !legit("despawning", || w.despawn(id))? {
                return Err(format!("despawning the live id {:#x} reported that nothing was despawned", id.as_u64()));
            }
        }
        let v = self.valued(vec![], 0, 0);
        let y = self.spawn(v, 0)?;
        self.st.aged += 1;
        self.others.push(y);
        for at in 0..2 {
            for z in [x, y] {
                self.check_ent(z)?;
                if c & 128 == 0 || at == 1 {
                    self.dyn_query(&[F { m: false, x: Fx::C(z) }, F { m: false, x: Fx::Id }], None)?;
                }
            }
            if at == 0 {
                let f = match self.pick(c >> 8) {
                    Some(f) if f != y => f,
                    _ => return Ok(()),
                };
                self.add(f, CRef::E(y), 0, true)?;
                self.check_ent(f)?;
            }
        }
        Ok(())
    }

    /// An entity, most likely one whose values are the last of their columns.
    fn pick_last(&self, a: u32) -> Option<usize> {
        let e = self.pick(a)?;
        if a % 4 == 0 {
            return Some(e);
        }
        let w = self.w.as_ref()?;
        let at = |x: usize| w.get_entity_meta(self.ents[x].id).map(|m| (m.instance_meta.archetype.0, m.instance_meta.index));
        let n = self.alive.len();
        let arch = at(e)?.0;
        (0..n.min(64))
            .map(|i| self.alive[n - 1 - i])
            .filter_map(|x| at(x).filter(|y| y.0 == arch).map(|y| (y.1, x)))
            .max()
            .map(|x| x.1)
            .or(Some(e))
    }

    /// Reads one entity by one interface and nothing else.
    fn check_watched(&mut self, x: usize, how: u32) -> R {
        match how % 4 {
            3 => {
                let n = SHAPES.len();
                let s = how as usize * 7 % n;
                let si = (0..n)
                    .map(|i| (s + i) % n)
                    .find(|&i| SHAPES[i].params.len() > 1 && SHAPES[i].params.iter().all(|p| p.ty().map_or(true, |t| self.has(x, CRef::S(t)))));
                match si {
                    Some(si) => self.typed_get(si, x, None),
                    None => self.check_ent(x),
                }
            }
            _ => {
                let cs: Vec<usize> = self.ents[x].comps.keys().copied().collect();
                let n = cs.len();
                if n == 0 {
                    return self.check_ent(x);
                }
                for i in 0..n.min(if how & 4 == 0 { 1 } else { 16 }) {
                    self.check_comp(x, cs[(how as usize + i) % n])?;
                }
                Ok(())
            }
        }
    }

    /// Entities make way for others with the same components while nothing is read; an entity
    /// that may have been moved is the last one read before and the first one read afterwards.
    fn replace(&mut self, a: u32, b: u32, c: u32) -> R {
        let Some(x) = self.pick_last(a) else { return self.skip() };
        let set: Vec<usize> = self.ents[x].comps.keys().copied().collect();
        let refs: Vec<CRef> = set
            .iter()
            .map(|&ci| match self.ents[ci].role {
                Role::Static(t) => CRef::S(t),
                _ => CRef::E(ci),
            })
            .collect();
        let n = self.alive.len();
        let free = |s: &Eng, e: usize| e != x && s.ents[e].role == Role::Tag && !s.ents[e].used && !s.others.contains(&e);
        let mut out: Vec<usize> = (0..n.min(256))
            .map(|i| self.alive[(b as usize + i) % n])
            .filter(|&e| free(self, e) && self.ents[e].comps.keys().eq(set.iter()))
            .collect();
        let gone = 1 + (c & 3) as usize;
        while out.len() < gone {
            let v = self.valued(refs.clone(), b.wrapping_add(out.len() as u32), c);
            let e = self.spawn(v, 0)?;
            out.push(e);
        }
        out.truncate(gone);
        // (the newcomers may have taken the last places)
        let x = if c & 4 == 0 { x } else { self.pick_last(a | 1).unwrap_or(x) };
        out.retain(|&e| e != x);
        self.check_watched(x, c >> 4)?;
        for (i, &e) in out.iter().enumerate() {
            match c >> 8 & 7 {
                // leaves for another set of components instead
                0 if !set.is_empty() => {
                    let ci = set[c as usize % set.len()];
                    self.remove(e, ci, c & 1 == 1)?
                }
                1 => match self.cref_missing(e, c >> 11) {
                    Some(cr) => self.add(e, cr, b as u64, c & 1 == 1)?,
                    None => self.despawn(e)?,
                },
                _ => self.despawn(e)?,
            }
            if c & 8 == 0 || i + 1 == out.len() {
                let v = self.valued(refs.clone(), c.wrapping_add(i as u32), b);
                self.spawn(v, 0)?;
            }
        }
        self.check_watched(x, c >> 4)?;
        self.check_ent(x)
    }

    fn skip(&mut self) -> R {
        self.st.skipped += 1;
        Ok(())
    }

    /// A shape: any, or one whose types some entity has.
    fn shape(&self, a: u32, b: u32) -> usize {
        if b & 3 == 0 {
            return a as usize % SHAPES.len();
        }
        let Some(e) = self.pick(b >> 2) else { return a as usize % SHAPES.len() };
        let n = SHAPES.len();
        let s = a as usize % n;
        (0..n)
            .map(|i| (s + i) % n)
            .find(|&i| SHAPES[i].params.len() > 1 && SHAPES[i].params.iter().all(|p| p.ty().map_or(true, |t| self.has(e, CRef::S(t)))))
            .unwrap_or(s)
    }

    /// A dynamic query on components of types agrees with the typed one.
    fn agree(&mut self, fs: &[F]) -> R {
        let mut ts = Vec::new();
        for f in fs {
            let Fx::C(c) = f.x else { return Ok(()) };
            if !self.ents[c].alive {
                return Ok(());
            }
            let Role::Static(t) = self.ents[c].role else { return Ok(()) };
            ts.push(t);
        }
        if let Some(si) = SHAPES.iter().position(|s| s.params.iter().filter_map(|p| p.ty()).eq(ts.iter().copied()) && s.params.len() == ts.len()) {
            self.typed_query(si, None)?;
        }
        Ok(())
    }

    /// Drops the world and checks that nothing of it is left.
    pub fn finish(&mut self) -> R {
        let d = self.f.data;
        self.f.data |= cfg!(miri);
        self.full_check()?;
        self.f.data = d;
        // a destructor may panic then, too, if some did before
        let armed = self.st.armed % 4 >= 2 && {
            let held = self.alive.iter().flat_map(|e| self.ents[*e].comps.iter()).map(|(c, o)| (self.ents[*c].role, *o));
            Self::arm_one(held, self.st.ops as u32)
        };
        let w = self.w.take().unwrap();
        if armed {
            Self::fired(catch(|| drop(w))).map_err(|m| format!("dropping the world: {}", m))?;
            self.st.armed_worlds += 1;
        } else {
            legit("dropping the world", || drop(w))?;
        }
        self.expect_total = 0;
        for e in &mut self.ents {
            e.alive = false;
        }
        self.alive.clear();
        if self.f.ledger {
            self.check_errors()?;
            self.check_ledger_full().map_err(|m| format!("after the world was dropped: {}", m))?;
        } else {
            self.check_errors_if()?;
        }
        Ok(())
    }

    /// After a violation the world may be broken: it is not dropped.
    pub fn poison(&mut self) {
        std::mem::forget(self.w.take());
    }

}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Fx {
    Id,
    C(usize),
    Foreign(usize),
}
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct F {
    pub x: Fx,
    pub m: bool,
}

thread_local! { static FOREIGN: std::cell::RefCell<Vec<EcsId>> = const { std::cell::RefCell::new(Vec::new()) }; }
/// An id that no world under test has issued yet.
pub fn foreign(i: usize) -> EcsId {
    FOREIGN.with(|f| {
        let mut f = f.borrow_mut();
        if f.is_empty() {
            let mut e = arche_tape::entities::Entities::new();
            *f = (0..if cfg!(miri) { 200 } else { 20000 }).map(|_| e.spawn()).collect();
        }
        f[i.min(f.len() - 1)]
    })
}

const NEAR: usize = if cfg!(miri) { 8 } else { 200 };
const NEAR_GENS: usize = 3;
thread_local! { static NEARBY: std::cell::RefCell<Vec<EcsId>> = const { std::cell::RefCell::new(Vec::new()) }; }
/// The ids of the first slots in their first generations, obtained from an `Entities` of its own.
pub fn nearby(i: usize) -> EcsId {
    NEARBY.with(|f| {
        let mut f = f.borrow_mut();
        if f.is_empty() {
            let mut e = arche_tape::entities::Entities::new();
            for _ in 0..NEAR_GENS {
                let ids: Vec<EcsId> = (0..NEAR).map(|_| e.spawn()).collect();
                for id in &ids {
                    e.despawn(*id);
                }
                f.extend(ids);
            }
            f.sort_by_key(|x| x.uindex());
        }
        f[i]
    })
}
fn nearby_len(top: usize) -> usize {
    top.min(NEAR) * NEAR_GENS
}

pub struct DynGot {
    pub rows: Vec<Vec<*mut u8>>,
    pub cols: Vec<Vec<[usize; 2]>>,
    pub again: usize,
    /// (counted, rows after the first k, estimate, columns counted)
    pub other: (usize, usize, Vec<Vec<*mut u8>>, (usize, Option<usize>), usize),
}

/// Which word of a column is its length (the type is opaque).
fn column_len_at() -> usize {
    static AT: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    *AT.get_or_init(|| {
        catch(|| {
            let mut w = World::new();
            let id = w.get_or_create_type_id_ecsid::<[u64; 5]>();
            for _ in 0..3 {
                w.spawn().with([7u64; 5]).build();
            }
            let mut q = w.query_dynamic([FetchType::Immut(id)]);
            let c = q.column_iter().next().unwrap();
            let c: [usize; 2] = unsafe { std::mem::transmute_copy(&c[0]) };
            (c[0] == 3) as usize ^ 1
        })
        .unwrap_or(1)
    })
}

fn dyn_n<const N: usize>(w: &World, ids: Vec<FetchType>, lim: usize) -> DynGot {
    let len_at = column_len_at();
    let col = |p: &_| {
        let c: [usize; 2] = unsafe { std::mem::transmute_copy(p) };
        [c[1 - len_at], c[len_at]]
    };
    let arr: [FetchType; N] = ids.try_into().ok().unwrap();
    let mut q = w.query_dynamic(arr);
    let mut rows = Vec::new();
    let mut again = 0;
    {
        // iterations that are given up
        let mut it = q.column_iter();
        (0..lim % 3).for_each(|_| drop(it.next()));
        drop(it);
        let mut it = q.iter();
        (0..lim % 13).for_each(|_| drop(it.next()));
    }
    {
        let mut it = q.iter();
        while let Some(r) = it.next() {
            rows.push(r.to_vec());
            if rows.len() > lim {
                break;
            }
        }
        if rows.len() <= lim {
            again += (0..3).filter(|_| it.next().is_some()).count();
        }
    }
    let mut cols = Vec::new();
    {
        let mut it = q.column_iter();
        while let Some(c) = it.next() {
            cols.push(c.iter().map(&col).collect::<Vec<_>>());
            if cols.len() > 100_000 {
                break;
            }
        }
        again += (0..3).filter(|_| it.next().is_some()).count();
    }
    let k = lim % 5;
    let other = (q.iter().count(), k, q.iter().skip(k).take(lim).map(|r| r.to_vec()).collect(), q.iter().size_hint(), q.column_iter().count());
    DynGot { rows, cols, again, other }
}

pub fn dyn_collect(w: &World, ids: Vec<FetchType>, lim: usize) -> DynGot {
    match ids.len() {
        1 => dyn_n::<1>(w, ids, lim),
        2 => dyn_n::<2>(w, ids, lim),
        3 => dyn_n::<3>(w, ids, lim),
        4 => dyn_n::<4>(w, ids, lim),
        5 => dyn_n::<5>(w, ids, lim),
        6 => dyn_n::<6>(w, ids, lim),
        7 => dyn_n::<7>(w, ids, lim),
        8 => dyn_n::<8>(w, ids, lim),
        9 => dyn_n::<9>(w, ids, lim),
        10 => dyn_n::<10>(w, ids, lim),
        12 => dyn_n::<12>(w, ids, lim),
        16 => dyn_n::<16>(w, ids, lim),
        20 => dyn_n::<20>(w, ids, lim),
        _ => unreachable!(),
    }
}
