//! UntypedVec against Vec.
use crate::case::{mix, Case, Op};
use crate::dynval::{self, Buf, NSLOT};
use crate::engine::{catch, Eng, last_panic, legit, set_slots, Role, Stats, R};
use crate::ledger;
use crate::types::{self, Obs, NT};
use std::alloc::Layout;
use untyped_vec::{TypeInfo, UntypedVec};

const NV: usize = 3;

fn make(role: Role, v: u64) -> (Buf, Obs) {
    let (s, a) = role.layout();
    let b = Buf::new(s, a);
    let o = match role {
        Role::Static(t) => (types::table()[t].make_raw)(v, b.ptr()),
        Role::Dyn(d) => {
            let l = dynval::slot(d);
            let v = dynval::norm(l.size, v);
            unsafe { dynval::write(l.size, v, b.ptr()) };
            if l.drop {
                ledger::create(ledger::K_DYN + d as u16, v);
            }
            Obs { v, tok: 0 }
        }
        _ => unreachable!(),
    };
    (b, o)
}

struct Sut {
    role: Role,
    v: Vec<Option<UntypedVec>>,
    m: Vec<Vec<Obs>>,
    st: Stats,
    grown: u32,
}

impl Sut {
    fn info(role: Role) -> TypeInfo {
        match role {
            Role::Static(t) => {
                let m = (types::table()[t].meta)();
                TypeInfo::new(m.layout, m.drop_fn)
            }
            Role::Dyn(s) => {
                let m = dynval::meta(s);
                TypeInfo::new(m.layout, m.drop_fn)
            }
            _ => unreachable!(),
        }
    }

    fn read(&self, p: *const u8) -> R<Obs> {
        let (_, align) = self.role.layout();
        if p.is_null() || p as usize % align != 0 {
            return Err(format!("a pointer to an element of {:?} is not aligned to {}", self.role, align));
        }
        match self.role {
            Role::Static(t) => Ok(unsafe { (types::table()[t].read)(p) }),
            Role::Dyn(s) => unsafe { dynval::read(dynval::slot(s).size, p) }
                .map(|v| Obs { v, tok: 0 })
                .ok_or_else(|| "the bytes of an element are not any that were stored".into()),
            _ => unreachable!(),
        }
    }

    fn check(&mut self, i: usize) -> R {
        let m = self.m[i].clone();
        let (size, align) = self.role.layout();
        let role = self.role;
        let Some(v) = self.v[i].as_mut() else { return Ok(()) };
        if v.len() != m.len() {
            return Err(format!("{:?}: length {} instead of {}", role, v.len(), m.len()));
        }
        if v.is_empty() != m.is_empty() {
            return Err(format!("{:?}: is_empty is {} with {} elements", role, v.is_empty(), m.len()));
        }
        if size > 0 && v.raw_len() != m.len() * size {
            return Err(format!("{:?}: raw_len {} with {} elements of size {}", role, v.raw_len(), m.len(), size));
        }
        let info = v.get_type_info();
        if info.layout != Layout::from_size_align(size, align).unwrap() {
            return Err(format!("{:?}: layout {:?}", role, info.layout));
        }
        let (base, mbase) = unsafe { (v.as_immut_ptr() as usize, v.as_mut_ptr() as usize) };
        if base % align != 0 || base != mbase || base == 0 {
            return Err(format!("{:?}: the vector hands out the base pointer {:#x} / {:#x}, alignment {}", role, base, mbase, align));
        }
        for n in 0..m.len() + 3 {
            let (p, q) = (v.get_raw(n), v.get_mut_raw(n));
            if p.is_some() != (n < m.len()) || p.map(|p| p as usize) != q.map(|q| q as usize) {
                return Err(format!("{:?}: element {} of {} is {:?} / {:?}", role, n, m.len(), p, q));
            }
            if let Some(p) = p {
                if p as usize != base + n * size {
                    return Err(format!("{:?}: element {} is at offset {} of the data", role, n, (p as usize).wrapping_sub(base)));
                }
            }
        }
        if let Role::Static(t) = role {
            let s = unsafe { (types::table()[t].slice)(v) };
            if s != m {
                return Err(format!("{:?}: the slice is {:?} instead of {:?}", role, s, m));
            }
        }
        for n in 0..m.len() {
            let p = self.v[i].as_ref().unwrap().get_raw(n).unwrap();
            let o = self.read(p)?;
            if o != m[n] {
                return Err(format!("{:?}: element {} is {:?} instead of {:?}", role, n, o, m[n]));
            }
        }
        Ok(())
    }

    fn check_ledger(&self) -> R {
        if let Some(e) = ledger::take_errors().into_iter().next() {
            return Err(e);
        }
        let mut want = std::collections::BTreeMap::new();
        for o in self.m.iter().flatten() {
            if let Some(k) = self.role.key(*o) {
                *want.entry(k).or_insert(0i64) += 1;
            }
        }
        let got = ledger::snapshot(|_| true);
        if got != want {
            let bad = want.iter().find(|(k, n)| got.get(*k).copied().unwrap_or(0) < **n);
            return Err(match bad {
                Some((k, _)) => format!("{:?}: the destructor of an element (content {:#x}) ran although a vector still holds it", self.role, k.1),
                None => format!("{:?}: {} elements were not destroyed", self.role, got.values().sum::<i64>() - want.values().sum::<i64>()),
            });
        }
        Ok(())
    }

    fn push(&mut self, i: usize, v: u64) -> R {
        let (b, o) = make(self.role, v);
        let u = self.v[i].as_mut().unwrap();
        legit("push_raw", || unsafe { u.push_raw(b.ptr().cast()) })?;
        self.m[i].push(o);
        self.st.vec_elems += 1;
        if self.m[i].len() > 4 {
            self.st.vec_grown += 1;
        }
        Ok(())
    }

    fn step(&mut self, op: Op) -> R {
        let i = op.a as usize % NV;
        let n = self.m[i].len();
        let j = (i + 1 + (op.a as usize / NV) % (NV - 1)) % NV;
        self.st.vec_ops += 1;
        let at = if n == 0 { 0 } else { op.b as usize % n };
        let u = self.v[i].as_mut().unwrap();
        match op.k % 14 {
            0 | 1 => self.push(i, mix(op.c as u64))?,
            2 => {
                // rarely a great many
                let size = self.role.layout().0.max(1);
                let count = match (op.c >> 7) % 400 {
                    399 if !cfg!(miri) && self.grown < 8 && size <= 64 => {
                        self.grown = 8;
                        65_500 + op.b % 600
                    }
                    390..=398 if !cfg!(miri) && self.grown < 8 && size <= 4096 => {
                        self.grown += 4;
                        40 + op.b % 2000
                    }
                    _ => 1 + op.b % 40,
                };
                for k in 0..count {
                    self.push(i, mix(op.c as u64 ^ (k as u64) << 33))?;
                }
                self.st.max_elements = self.st.max_elements.max(self.m[i].len() as u64);
            }
            3 if op.c % 6 == 0 && n > 0 && self.role.key(self.m[i][n - 1]).is_some() => {
                // a destructor that panics
                Eng::arm_one([(self.role, self.m[i][n - 1])].into_iter(), 0);
                let r = catch(|| u.pop());
                Eng::fired(r)?;
                self.m[i].pop();
                self.st.armed_vecs += 1;
            }
            4 if op.c % 6 == 0 && n > 0 && self.role.key(self.m[i][at]).is_some() => {
                Eng::arm_one([(self.role, self.m[i][at])].into_iter(), 0);
                let r = catch(|| u.swap_remove(at));
                Eng::fired(r)?;
                self.m[i].swap_remove(at);
                self.st.armed_vecs += 1;
            }
            3 => {
                let r = legit("pop", || u.pop())?;
                let want = self.m[i].pop().is_some();
                if r != want {
                    return Err(format!("{:?}: pop reported {} on {} elements", self.role, r, n));
                }
            }
            4 | 5 => {
                if n > 0 {
                    legit("swap_remove", || u.swap_remove(at))?;
                    self.m[i].swap_remove(at);
                }
            }
            6 | 7 => {
                if n > 0 {
                    let mut other = self.v[j].take().unwrap();
                    let u = self.v[i].as_mut().unwrap();
                    let r = legit("swap_move_element_to_other_vec", || unsafe { u.swap_move_element_to_other_vec(&mut other, at) });
                    self.v[j] = Some(other);
                    r?;
                    let o = self.m[i].swap_remove(at);
                    self.m[j].push(o);
                    self.st.vec_moves += 1;
                }
            }
            8 => {
                // growth asked for
                if self.role.layout().0 > 0 && n < 4096 && op.c % 3 == 0 && (self.role.layout().0 <= 1024 || self.grown < 4) {
                    self.grown += 1;
                    legit("realloc", || u.realloc())?;
                }
            }
            9 => {
                // refused: one past the end
                let r = catch(|| u.swap_remove(n + (op.b % 3) as usize));
                if r.is_ok() {
                    return Err(format!("{:?}: swap_remove past the end was accepted", self.role));
                }
                last_panic();
            }
            10 => {
                // written through a slice or a pointer
                if let (Role::Static(t), true) = (self.role, op.c & 1 == 0) {
                    let mut new = Vec::new();
                    let salt = op.c as u64;
                    let len = unsafe {
                        (types::table()[t].slice_mut)(u, &mut |k, e| {
                            if k % 2 == 0 {
                                e.set(mix(salt + k as u64));
                            }
                            new.push(e.obs());
                        })
                    };
                    if len != n {
                        return Err(format!("{:?}: the mutable slice has {} of {} elements", self.role, len, n));
                    }
                    for (k, o) in new.iter().enumerate() {
                        let want = if k % 2 == 0 { (types::table()[t].norm)(mix(salt + k as u64)) } else { self.m[i][k].v };
                        if (o.v, o.tok) != (want, self.m[i][k].tok) {
                            return Err(format!("{:?}: element {} of the mutable slice is {:?}", self.role, k, o));
                        }
                    }
                    self.m[i] = new;
                } else if n > 0 {
                    let p = u.get_mut_raw(at).ok_or("no pointer to an element")?;
                    match self.role {
                        Role::Static(t) => {
                            unsafe { (types::table()[t].write)(p, mix(op.c as u64)) };
                            self.m[i][at].v = (types::table()[t].norm)(mix(op.c as u64));
                        }
                        Role::Dyn(s) => {
                            let l = dynval::slot(s);
                            let v = dynval::norm(l.size, mix(op.c as u64));
                            unsafe { dynval::write(l.size, v, p) };
                            if l.drop {
                                ledger::recontent(ledger::K_DYN + s as u16, self.m[i][at].v, v);
                            }
                            self.m[i][at].v = v;
                        }
                        _ => unreachable!(),
                    }
                }
            }
            11 => {
                // dropped and made anew
                let other = self.v[i].take().unwrap();
                let role = self.role;
                if op.c % 3 == 0 && Eng::arm_one(self.m[i].iter().map(|o| (role, *o)), op.c >> 4) {
                    Eng::fired(catch(|| drop(other))).map_err(|m| format!("dropping a vector: {}", m))?;
                    self.st.armed_vecs += 1;
                } else {
                    legit("dropping a vector", || drop(other))?;
                }
                self.m[i].clear();
                let from = self.v[j].as_mut().unwrap();
                self.v[i] = Some(if op.b & 1 == 0 {
                    UntypedVec::new_from_untyped_vec(from)
                } else {
                    unsafe { UntypedVec::new_from_raw(Self::info(self.role)) }
                });
            }
            12 => {
                // emptied
                for _ in 0..op.b % 16 {
                    let u = self.v[i].as_mut().unwrap();
                    let r = legit("pop", || u.pop())?;
                    if r != self.m[i].pop().is_some() {
                        return Err(format!("{:?}: pop reported {}", self.role, r));
                    }
                }
            }
            _ => {
                // all of it moved over, from the front or the back
                let mut other = self.v[j].take().unwrap();
                let mut err = Ok(());
                for _ in 0..n.min(40) {
                    let k = if op.b & 1 == 0 { 0 } else { self.m[i].len() - 1 };
                    let u = self.v[i].as_mut().unwrap();
                    err = legit("swap_move_element_to_other_vec", || unsafe { u.swap_move_element_to_other_vec(&mut other, k) });
                    if err.is_err() {
                        break;
                    }
                    let o = self.m[i].swap_remove(k);
                    self.m[j].push(o);
                    self.st.vec_moves += 1;
                }
                self.v[j] = Some(other);
                err?;
            }
        }
        self.check(i)?;
        self.check(j)?;
        self.check_ledger()
    }
}

pub fn run(case: &Case) -> (R, Stats) {
    ledger::reset();
    set_slots(case);
    let r = case.cfg(1) as usize % (NT + NSLOT);
    let big = (0..NSLOT).find(|s| dynval::slot(*s).size > 1024);
    let role = if let Some(s) = big { Role::Dyn(s) } else if r < NT { Role::Static(r) } else { Role::Dyn(r - NT) };
    let mut s = Sut {
        role,
        v: (0..NV).map(|_| Some(unsafe { UntypedVec::new_from_raw(Sut::info(role)) })).collect(),
        m: vec![Vec::new(); NV],
        st: Stats::default(),
        grown: 0,
    };
    let mut res = Ok(());
    for (n, op) in case.ops.iter().enumerate() {
        res = s.step(*op).map_err(|m| format!("step {}: {}", n + 1, m));
        if res.is_err() {
            break;
        }
    }
    if res.is_ok() {
        res = (|| {
            for i in 0..NV {
                s.check(i)?;
            }
            for i in 0..NV {
                let v = s.v[i].take();
                legit("dropping a vector", || drop(v))?;
                s.m[i].clear();
                s.check_ledger().map_err(|m| format!("after a vector was dropped: {}", m))?;
            }
            Ok(())
        })();
    }
    if res.is_err() {
        std::mem::forget(std::mem::take(&mut s.v));
    }
    (res, s.st)
}
