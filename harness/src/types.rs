//! Component types of many sizes, alignments and destructor behaviours.
use crate::ledger;
use arche_tape::{entity_builder::EntityBuilder, EcsId, World};
use std::mem::ManuallyDrop;
use untyped_vec::UntypedVec;

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Obs {
    pub v: u64,
    pub tok: u64,
}

pub trait Tc: 'static + Sized {
    const IDX: usize;
    /// has a destructor that the ledger sees
    const TRACKED: bool;
    fn norm(v: u64) -> u64;
    fn make(v: u64) -> Self;
    fn obs_raw(&self) -> Obs;
    fn set(&mut self, v: u64);

    fn obs(&self) -> Obs {
        crate::aside::poke();
        let p = self as *const Self as usize;
        if p % std::mem::align_of::<Self>() != 0 {
            ledger::error(format!("misaligned reference to type {}", Self::IDX));
            return Obs { v: u64::MAX, tok: 0 };
        }
        self.obs_raw()
    }
}

pub trait TcDyn {
    fn obs(&self) -> Obs;
    fn set(&mut self, v: u64);
}
impl<T: Tc> TcDyn for T {
    fn obs(&self) -> Obs {
        Tc::obs(self)
    }
    fn set(&mut self, v: u64) {
        Tc::set(self, v)
    }
}

pub const MAGIC: u64 = 0x5ca1_ab1e_d00d_feed;

macro_rules! plain {
    ($name:ident($t:ty), $idx:expr, norm |$n:ident| $norm:expr, from |$f:ident| $from:expr, to |$s:ident| $to:expr) => {
        pub struct $name(pub $t);
        impl Tc for $name {
            const IDX: usize = $idx;
            const TRACKED: bool = false;
            fn norm($n: u64) -> u64 {
                $norm
            }
            fn make(v: u64) -> Self {
                let $f = Self::norm(v);
                $name($from)
            }
            fn obs_raw(&self) -> Obs {
                let $s = &self.0;
                Obs { v: $to, tok: 0 }
            }
            fn set(&mut self, v: u64) {
                let $f = Self::norm(v);
                self.0 = $from;
            }
        }
    };
}

/// Different types of the same name (and some of the same layout).
pub trait Named {
    type It;
}
pub struct As<const N: usize>;
macro_rules! same {
    ($name:ident, Same($t:ty), $idx:expr, $($rest:tt)*) => {
        const _: () = {
            plain!(Same($t), $idx, $($rest)*);
            impl Named for As<$idx> {
                type It = Same;
            }
        };
        pub type $name = <As<$idx> as Named>::It;
    };
}

plain!(T0(u32), 0, norm |v| v & 0xffff_ffff, from |v| v as u32, to |s| *s as u64);
same!(T1, Same(u64), 1, norm |v| v, from |v| v, to |s| *s);
same!(T2, Same(String), 2, norm |v| v, from |v| format!("n{}", v), to |s| s.strip_prefix('n').and_then(|x| x.parse().ok()).unwrap_or_else(|| { ledger::error("corrupt string".into()); u64::MAX }));
plain!(T8(u8), 8, norm |v| v & 0xff, from |v| v as u8, to |s| *s as u64);
plain!(T9([u8; 3]), 9, norm |v| v & 0xff_ffff, from |v| [v as u8, (v >> 8) as u8, (v >> 16) as u8], to |s| s[0] as u64 | (s[1] as u64) << 8 | (s[2] as u64) << 16);
same!(T11, Same(Option<Box<u64>>), 11, norm |v| if v % 4 == 0 { 0 } else { v }, from |v| if v == 0 { None } else { Some(Box::new(v)) }, to |s| s.as_ref().map_or(0, |b| **b));
plain!(T12((u16, u32)), 12, norm |v| v & 0xffff_ffff_ffff, from |v| (v as u16, (v >> 16) as u32), to |s| s.0 as u64 | (s.1 as u64) << 16);
plain!(T13(u128), 13, norm |v| v, from |v| (v as u128) << 64 | (v ^ MAGIC) as u128, to |s| { let v = (*s >> 64) as u64; if (*s as u64) ^ MAGIC != v { ledger::error("corrupt u128".into()) } v });
same!(T15, Same(Vec<u64>), 15, norm |v| v & 0xffff_ffff, from |v| (0..=(v % 7)).map(|i| v.wrapping_mul(i + 1)).collect(), to |s| { let v = s.first().copied().unwrap_or(u64::MAX); if s.len() as u64 != v % 7 + 1 || s.iter().enumerate().any(|(i, x)| *x != v.wrapping_mul(i as u64 + 1)) { ledger::error("corrupt vec".into()) } v });

macro_rules! zst {
    ($(#[$a:meta])* $name:ident, $idx:expr, tracked $tr:expr) => {
        $(#[$a])*
        pub struct $name;
        impl Tc for $name {
            const IDX: usize = $idx;
            const TRACKED: bool = $tr;
            fn norm(_: u64) -> u64 { 0 }
            fn make(_: u64) -> Self {
                if $tr { ledger::create($idx, 0) }
                $name
            }
            fn obs_raw(&self) -> Obs { Obs { v: 0, tok: 0 } }
            fn set(&mut self, _: u64) {}
        }
    };
}
zst!(T4, 4, tracked false);
zst!(T5, 5, tracked true);
zst!(
    #[repr(align(16))]
    T6, 6, tracked false);
zst!(
    #[repr(align(32))]
    T14, 14, tracked true);

fn zst_drop(kind: u16, addr: usize, align: usize) {
    if addr % align != 0 {
        ledger::error(format!("destructor of zero-sized type {} called with a misaligned pointer", kind));
    }
    ledger::destroy(kind, 0);
}
impl Drop for T5 {
    fn drop(&mut self) {
        zst_drop(5, self as *const _ as usize, 1);
    }
}
impl Drop for T14 {
    fn drop(&mut self) {
        zst_drop(14, self as *const _ as usize, 32);
    }
}

macro_rules! tracked {
    ($(#[$a:meta])* $name:ident, $idx:expr, pad $pad:expr) => {
        $(#[$a])*
        pub struct $name {
            tok: u64,
            v: u64,
            chk: u64,
            pad: [u64; $pad],
        }
        impl $name {
            fn check(&self, what: &str) -> bool {
                let ok = self.chk == self.tok.wrapping_mul(3) ^ self.v ^ MAGIC
                    && self.pad.iter().enumerate().all(|(i, p)| *p == self.tok.wrapping_add(i as u64));
                if !ok {
                    ledger::error(format!("{}: type {} holds bytes that are not a value of it", what, $idx));
                }
                ok
            }
        }
        impl Tc for $name {
            const IDX: usize = $idx;
            const TRACKED: bool = true;
            fn norm(v: u64) -> u64 { v }
            fn make(v: u64) -> Self {
                let tok = ledger::fresh();
                ledger::create($idx, tok);
                let mut pad = [0; $pad];
                for i in 0..$pad { pad[i] = tok.wrapping_add(i as u64); }
                $name { tok, v, chk: tok.wrapping_mul(3) ^ v ^ MAGIC, pad }
            }
            fn obs_raw(&self) -> Obs {
                if self.check("read") { Obs { v: self.v, tok: self.tok } } else { Obs { v: u64::MAX, tok: u64::MAX } }
            }
            fn set(&mut self, v: u64) {
                self.v = v;
                self.chk = self.tok.wrapping_mul(3) ^ v ^ MAGIC;
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                let p = self as *const Self as usize;
                if p % std::mem::align_of::<Self>() != 0 {
                    ledger::error(format!("destructor of type {} called with a misaligned pointer", $idx));
                    return;
                }
                if self.check("destructor") {
                    // so that a second destruction of the same memory is seen as such
                    ledger::destroy($idx, self.tok);
                }
            }
        }
    };
}
tracked!(T3, 3, pad 0);
tracked!(
    #[repr(align(64))]
    T7, 7, pad 1);
tracked!(T10, 10, pad 31);

pub const NT: usize = 16;
/// types whose values own memory
pub const HEAP: [usize; 3] = [2, 11, 15];

pub struct TypeOps {
    pub size: usize,
    pub align: usize,
    pub needs_drop: bool,
    pub tracked: bool,
    pub norm: fn(u64) -> u64,
    pub add: fn(&mut World, EcsId, u64) -> Obs,
    pub remove: fn(&mut World, EcsId),
    pub has: fn(&World, EcsId) -> bool,
    pub get_id: fn(&mut World) -> EcsId,
    pub with: for<'a> fn(EntityBuilder<'a>, u64, &mut Obs) -> EntityBuilder<'a>,
    pub get_r: fn(&World, EcsId) -> Option<Obs>,
    pub get_w: fn(&World, EcsId, u64) -> Option<Obs>,
    pub make_raw: fn(u64, *mut u8) -> Obs,
    pub read: unsafe fn(*const u8) -> Obs,
    pub write: unsafe fn(*mut u8, u64),
    pub meta: fn() -> arche_tape::world::ComponentMeta,
    pub slice: unsafe fn(&UntypedVec) -> Vec<Obs>,
    pub slice_mut: unsafe fn(&mut UntypedVec, &mut dyn FnMut(usize, &mut dyn TcDyn)) -> usize,
}

fn ops<T: Tc>() -> TypeOps {
    TypeOps {
        size: std::mem::size_of::<T>(),
        align: std::mem::align_of::<T>(),
        needs_drop: std::mem::needs_drop::<T>(),
        tracked: T::TRACKED,
        norm: T::norm,
        add: |w, e, v| {
            let t = T::make(v);
            let o = t.obs();
            w.add_component(e, t);
            o
        },
        remove: |w, e| w.remove_component::<T>(e),
        has: |w, e| w.has_component::<T>(e),
        get_id: |w| w.get_or_create_type_id_ecsid::<T>(),
        with: |b, v, o| {
            let t = T::make(v);
            *o = t.obs();
            b.with(t)
        },
        get_r: |w, e| {
            let mut q = w.query::<(&T,)>();
            let r = q.get(e).map(|(t,)| t.obs());
            r
        },
        get_w: |w, e, v| {
            let mut q = w.query::<(&mut T,)>();
            let r = q.get(e).map(|(t,)| {
                let o = t.obs();
                t.set(v);
                o
            });
            r
        },
        make_raw: |v, p| {
            let t = ManuallyDrop::new(T::make(v));
            let o = t.obs();
            unsafe { std::ptr::copy_nonoverlapping(&t as *const _ as *const u8, p, std::mem::size_of::<T>()) };
            o
        },
        read: |p| {
            if p as usize % std::mem::align_of::<T>() != 0 || p.is_null() {
                ledger::error(format!("misaligned pointer to type {}", T::IDX));
                return Obs { v: u64::MAX, tok: 0 };
            }
            unsafe { (*(p as *const T)).obs() }
        },
        write: |p, v| {
            if p as usize % std::mem::align_of::<T>() != 0 || p.is_null() {
                return;
            }
            unsafe { (*(p as *mut T)).set(v) }
        },
        meta: || arche_tape::world::ComponentMeta::from_generic::<T>(),
        slice: |u| unsafe { u.as_slice::<T>().iter().map(|t| t.obs()).collect() },
        slice_mut: |u, f| unsafe {
            let s = u.as_slice_mut::<T>();
            for (i, t) in s.iter_mut().enumerate() {
                f(i, t)
            }
            s.len()
        },
    }
}

pub fn table() -> &'static [TypeOps; NT] {
    use std::sync::OnceLock;
    static T: OnceLock<[TypeOps; NT]> = OnceLock::new();
    T.get_or_init(|| {
        [
            ops::<T0>(),
            ops::<T1>(),
            ops::<T2>(),
            ops::<T3>(),
            ops::<T4>(),
            ops::<T5>(),
            ops::<T6>(),
            ops::<T7>(),
            ops::<T8>(),
            ops::<T9>(),
            ops::<T10>(),
            ops::<T11>(),
            ops::<T12>(),
            ops::<T13>(),
            ops::<T14>(),
            ops::<T15>(),
        ]
    })
}

/// Key under which the ledger knows a value of static type `t`.
pub fn ledger_key(t: usize, o: Obs) -> (u16, u64) {
    (t as u16, o.tok)
}
