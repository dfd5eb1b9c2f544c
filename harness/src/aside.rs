//! A second world on the side. Something happens in it whenever the code under test calls back: while
//! a builder is half filled, between two rows of a query, inside a destructor. Nothing of that may be
//! noticed in either world.
use crate::case::mix;
use crate::ledger;
use crate::types::{Tc, T0, T13, T2, T4};
use arche_tape::{EcsId, EcsIds, World};
use std::cell::{Cell, RefCell};

/// what an entity of this world has: T0, T2, T13, T4
type Has = [Option<u64>; 4];

pub struct Aside {
    w: Option<World>,
    n: u64,
    ents: Vec<(EcsId, Has)>,
    /// of everything that was observed
    pub digest: u64,
}

thread_local! {
    static ASIDE: RefCell<Option<Aside>> = const { RefCell::new(None) };
    static ON: Cell<bool> = const { Cell::new(false) };
    static FIRST: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static POKES: Cell<u64> = const { Cell::new(0) };
}

/// From now on calls back do something in the world on the side.
pub fn begin(salt: u64) {
    if ON.with(|o| o.replace(true)) {
        return;
    }
    CALLS.with(|c| c.set(salt));
    FIRST.with(|f| f.set(salt));
    let a = Aside::new(salt);
    ASIDE.with(|s| *s.borrow_mut() = Some(a));
}

pub fn end() {
    ON.with(|o| o.set(false));
    let _ = ASIDE.try_with(|s| drop(s.borrow_mut().take()));
}

/// Called whenever the code under test calls back.
#[inline]
pub fn poke() {
    if ON.try_with(|o| o.get()).unwrap_or(false) {
        really()
    }
}

/// The world on the side has the place of this one for a while.
pub fn visit(place: &mut Option<World>, n: u64) {
    if mix(n) % 16 != 0 || !ON.with(|o| o.replace(false)) {
        return;
    }
    ASIDE.with(|s| {
        if let Some(a) = s.borrow_mut().as_mut() {
            if let Some(w) = a.w.take() {
                let theirs = place.replace(w);
                let w = place.as_mut().unwrap();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.step_in(w)));
                a.w = std::mem::replace(place, theirs);
                said(r);
            }
        }
    });
    ON.with(|o| o.set(true));
}

fn said(r: std::thread::Result<Result<(), String>>) {
    match r {
        Ok(Ok(())) => POKES.with(|p| p.set(p.get() + 1)),
        Ok(Err(m)) => ledger::error(format!("in another world, in between: {}", m)),
        Err(_) => ledger::error("in another world, in between: a call that has to succeed failed".into()),
    }
}

fn really() {
    let n = CALLS.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    if mix(n) % 16 != 0 || n - FIRST.with(|f| f.get()) > 1 << 16 {
        return;
    }
    ON.with(|o| o.set(false));
    ASIDE.with(|s| {
        if let Ok(mut s) = s.try_borrow_mut() {
            if let Some(a) = s.as_mut() {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.step()));
                said(r);
            }
        }
    });
    ON.with(|o| o.set(true));
}

/// How often something was done since the last time.
pub fn pokes() -> u64 {
    POKES.with(|p| p.replace(0))
}

impl Aside {
    pub fn new(salt: u64) -> Aside {
        Aside { w: Some(World::new()), n: mix(salt), ents: Vec::new(), digest: 0 }
    }

    fn see(&mut self, x: u64) {
        self.digest = mix(self.digest ^ x);
    }

    fn norm(i: usize, v: u64) -> u64 {
        match i {
            0 => T0::norm(v),
            1 => T2::norm(v),
            2 => T13::norm(v),
            _ => T4::norm(v),
        }
    }

    fn build(&mut self, w: &mut World, x: u64, build: bool) {
        let mut has: Has = [None; 4];
        let cap = (x >> 20) as usize % 90;
        let mut b = if x >> 18 & 1 == 0 { w.spawn() } else { w.spawn_with_capacity(cap) };
        for j in 0..4 {
            let i = (j + (x >> 16) as usize) % 4;
            if x >> (8 + i) & 1 == 0 {
                continue;
            }
            let v = mix(x ^ i as u64);
            b = match i {
                0 => b.with(T0::make(v)),
                1 => b.with(T2::make(v)),
                2 => b.with(T13::make(v)),
                _ => b.with(T4::make(v)),
            };
            has[i] = Some(Self::norm(i, v));
        }
        let id = if build { Some(b.build()) } else { None };
        drop(b);
        if let Some(id) = id {
            self.see(id.as_u64());
            self.ents.push((id, has));
        }
    }

    fn read(w: &World, id: EcsId) -> Has {
        [
            w.query::<(&T0,)>().get(id).map(|(t,)| t.obs_raw().v),
            w.query::<(&T2,)>().get(id).map(|(t,)| t.obs_raw().v),
            w.query::<(&T13,)>().get(id).map(|(t,)| t.obs_raw().v),
            w.query::<(&T4,)>().get(id).map(|(t,)| t.obs_raw().v),
        ]
    }

    pub fn step(&mut self) -> Result<(), String> {
        let mut w = self.w.take().unwrap();
        let r = self.step_in(&mut w);
        self.w = Some(w);
        r
    }

    fn step_in(&mut self, w: &mut World) -> Result<(), String> {
        self.n += 1;
        if self.n % 512 == 0 {
            // (every entity that was a component has left an archetype behind)
            self.ents.clear();
            *w = World::new();
        }
        let x = mix(self.n);
        let len = self.ents.len();
        let at = (x >> 40) as usize % len.max(1);
        match x % 8 {
            _ if len == 0 => self.build(w, x, true),
            0 | 1 if len < 12 => self.build(w, x, true),
            2 | 3 => {
                let (id, mut has) = self.ents[at];
                let i = (x >> 8) as usize % 4;
                let v = mix(x);
                let gone = has[i].is_some();
                match (i, gone) {
                    (0, true) => w.remove_component::<T0>(id),
                    (1, true) => w.remove_component::<T2>(id),
                    (2, true) => w.remove_component::<T13>(id),
                    (_, true) => w.remove_component::<T4>(id),
                    (0, _) => w.add_component(id, T0::make(v)),
                    (1, _) => w.add_component(id, T2::make(v)),
                    (2, _) => w.add_component(id, T13::make(v)),
                    _ => w.add_component(id, T4::make(v)),
                }
                has[i] = if gone { None } else { Some(Self::norm(i, v)) };
                self.ents[at].1 = has;
            }
            4 => self.build(w, x, false),
            5 => {
                let mut rows: Vec<(u64, u64, u64)> = Vec::new();
                for (id, t, u) in w.query::<(EcsIds, &mut T2, &T0)>().iter().take(40) {
                    rows.push((id.as_u64(), t.obs_raw().v, u.obs_raw().v));
                }
                for r in &rows {
                    self.see(r.0 ^ r.1.rotate_left(9) ^ r.2.rotate_left(40));
                }
                rows.sort();
                let mut want: Vec<(u64, u64, u64)> =
                    self.ents.iter().filter_map(|(e, h)| Some((e.as_u64(), h[1]?, h[0]?))).collect();
                want.sort();
                if rows != want {
                    return Err(format!("a query gave {:x?} instead of {:x?}", rows, want));
                }
            }
            6 => {
                let (id, _) = self.ents.swap_remove(at);
                if !w.despawn(id) || w.is_alive(id) {
                    return Err("an entity is alive after its despawn".into());
                }
            }
            _ => {
                // an entity as a component, for a while
                let tag = w.spawn().build();
                self.see(tag.as_u64());
                let id = self.ents[at].0;
                w.add_component_dynamic(id, tag);
                if w.get_component_mut_dynamic(id, tag).is_none() {
                    return Err("an entity does not have the component it was given".into());
                }
                w.despawn(tag);
            }
        }
        for k in 0..self.ents.len().min(3) {
            let (id, has) = self.ents[(at + k) % self.ents.len()];
            let got = Self::read(w, id);
            if let Some(m) = w.get_entity_meta(id) {
                let (a, b) = (m.instance_meta.archetype.0 as u64, m.instance_meta.index as u64);
                self.see(a << 32 | b);
            }
            if got != has {
                return Err(format!("entity {:#x} reads {:x?} instead of {:x?}", id.as_u64(), got, has));
            }
        }
        Ok(())
    }
}
