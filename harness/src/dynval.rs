//! Values of components that exist only as a declared layout: a byte pattern that spells a value,
//! and a destructor that reads it back.
use crate::ledger;
use arche_tape::world::ComponentMeta;
use std::alloc::Layout;
use std::cell::Cell;
use std::mem::MaybeUninit;

pub const NSLOT: usize = 12;

#[derive(Copy, Clone, Debug, PartialEq)]
pub struct DynLayout {
    pub size: usize,
    pub align: usize,
    pub drop: bool,
}

pub const LAYOUTS: [(usize, usize); 20] = [
    (0, 1), (1, 1), (2, 2), (4, 4), (8, 8), (5, 1), (12, 4), (16, 16), (24, 8), (64, 64), (32, 16),
    (256, 128), (0, 8), (3, 1), (100, 2), (128, 64), (7, 1), (16, 1), (40, 8), (0, 64),
];

/// Layouts of values of some size.
pub const MID: [(usize, usize); 12] =
    [(300, 4), (513, 1), (1000, 8), (1024, 512), (1025, 1), (2050, 2), (4096, 16), (4100, 4), (4104, 8), (6000, 16), (8200, 8), (12296, 8)];

/// Layouts of values that take up pages: rare, because they are slow.
pub const BIG: [(usize, usize); 5] = [(3000, 1), (4104, 8), (70000, 8), (100001, 1), (1 << 17, 4096)];

pub fn layout(n: usize) -> (usize, usize) {
    if n < LAYOUTS.len() {
        LAYOUTS[n]
    } else {
        let n = n - LAYOUTS.len();
        if n < BIG.len() {
            BIG[n]
        } else {
            MID[(n - BIG.len()) % MID.len()]
        }
    }
}

const NONE: DynLayout = DynLayout { size: 0, align: 1, drop: false };
thread_local! { static SLOTS: [Cell<DynLayout>; NSLOT] = const { [const { Cell::new(NONE) }; NSLOT] }; }

pub fn set_slot(i: usize, l: DynLayout) {
    SLOTS.with(|s| s[i].set(l))
}
pub fn slot(i: usize) -> DynLayout {
    SLOTS.with(|s| s[i].get())
}

pub fn norm(size: usize, v: u64) -> u64 {
    if size >= 8 {
        v
    } else {
        v & ((1u64 << (size * 8)) - 1)
    }
}

fn byte(v: u64, i: usize) -> u8 {
    if i < 8 {
        (v >> (8 * i)) as u8
    } else {
        (v.rotate_left((i * 11 % 64) as u32) as u8) ^ (i as u8)
    }
}

/// The bytes that spell the value: all of them, but of a big one only both ends and some between.
fn spelled(size: usize) -> impl Iterator<Item = usize> {
    let (head, tail) = if size <= 1024 { (size, size) } else { (64, size - 64) };
    (0..head).chain((head..tail).step_by(257)).chain(tail..size)
}

/// # Safety: `p` is valid for `size` bytes
pub unsafe fn write(size: usize, v: u64, p: *mut u8) {
    for i in spelled(size) {
        p.add(i).write(byte(v, i));
    }
}

/// The value spelled by the bytes, if they spell one.
/// # Safety: `p` is valid for `size` bytes
pub unsafe fn read(size: usize, p: *const u8) -> Option<u64> {
    let mut v = 0u64;
    for i in 0..size.min(8) {
        v |= (p.add(i).read() as u64) << (8 * i);
    }
    spelled(size).filter(|i| *i >= 8).all(|i| p.add(i).read() == byte(v, i)).then_some(v)
}

fn drop_slot<const S: usize>(p: *mut MaybeUninit<u8>) {
    let l = slot(S);
    if p as usize % l.align != 0 {
        ledger::error(format!("destructor of the {}-byte component with alignment {} called with a misaligned pointer", l.size, l.align));
        return;
    }
    match unsafe { read(l.size, p as *const u8) } {
        Some(v) => ledger::destroy(ledger::K_DYN + S as u16, v),
        None => ledger::error(format!("destructor of the {}-byte component called with bytes that were never stored", l.size)),
    }
}

const DROPS: [fn(*mut MaybeUninit<u8>); NSLOT] = [
    drop_slot::<0>, drop_slot::<1>, drop_slot::<2>, drop_slot::<3>, drop_slot::<4>, drop_slot::<5>,
    drop_slot::<6>, drop_slot::<7>, drop_slot::<8>, drop_slot::<9>, drop_slot::<10>, drop_slot::<11>,
];

pub fn meta(s: usize) -> ComponentMeta {
    let l = slot(s);
    let mut m = ComponentMeta::from_size_align(l.size, l.align);
    if l.drop {
        m.drop_fn = Some(DROPS[s]);
    }
    m
}

/// An aligned scratch buffer that values are handed over from.
pub struct Buf {
    p: *mut u8,
    l: Layout,
}
impl Buf {
    pub fn new(size: usize, align: usize) -> Buf {
        let l = Layout::from_size_align(size.max(1), align).unwrap();
        let p = unsafe { std::alloc::alloc(l) };
        assert!(!p.is_null());
        Buf { p, l }
    }
    pub fn ptr(&self) -> *mut u8 {
        self.p
    }
}
impl Drop for Buf {
    fn drop(&mut self) {
        // the value was moved away
        unsafe {
            std::ptr::write_bytes(self.p, 0xDB, self.l.size());
            std::alloc::dealloc(self.p, self.l)
        }
    }
}
