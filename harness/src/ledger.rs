//! Ledger of live component values: every value with an observable destructor is entered when it
//! is created and struck off when its destructor runs.
use std::cell::RefCell;
use std::collections::BTreeMap;

pub const K_DYN: u16 = 100;

#[derive(Default)]
pub struct Ledger {
    next: u64,
    pub live: BTreeMap<(u16, u64), i64>,
    pub maybe: BTreeMap<(u16, u64), i64>,
    pub total: i64,
    pub dropped: u64,
    pub errors: Vec<String>,
    pub armed: Option<(u16, u64)>,
    pub fired: u64,
}

impl Ledger {
    /// the identity given out last
    pub fn last_token(&self) -> u64 {
        self.next
    }
}

thread_local! { static L: RefCell<Ledger> = RefCell::new(Ledger::default()); }

pub fn with<R>(f: impl FnOnce(&mut Ledger) -> R) -> R {
    L.with(|l| f(&mut l.borrow_mut()))
}

pub fn reset() {
    crate::aside::end();
    with(|l| *l = Ledger::default());
}

pub fn fresh() -> u64 {
    with(|l| {
        l.next += 1;
        l.next
    })
}

pub fn error(msg: String) {
    with(|l| {
        if l.errors.len() < 8 {
            l.errors.push(msg)
        }
    });
}

pub fn create(kind: u16, content: u64) {
    with(|l| {
        *l.live.entry((kind, content)).or_insert(0) += 1;
        l.total += 1;
    });
    crate::aside::poke();
}

/// Strikes one value off; `Err` means that it was not live.
pub fn destroy(kind: u16, content: u64) {
    let fire = with(|l| {
        l.dropped += 1;
        match l.live.get_mut(&(kind, content)) {
            Some(n) => {
                *n -= 1;
                if *n == 0 {
                    l.live.remove(&(kind, content));
                }
                l.total -= 1;
            }
            None => match l.maybe.get_mut(&(kind, content)) {
                Some(n) => {
                    *n -= 1;
                    if *n == 0 {
                        l.maybe.remove(&(kind, content));
                    }
                }
                None => {
                    if l.errors.len() < 8 {
                        l.errors.push(format!(
                            "destructor ran for a value that is not live: kind {} content {:#x}",
                            kind, content
                        ));
                    }
                }
            },
        }
        if l.armed == Some((kind, content)) {
            l.armed = None;
            l.fired += 1;
            true
        } else {
            false
        }
    });
    crate::aside::poke();
    if fire {
        std::panic::panic_any(ArmedPanic);
    }
}

pub struct ArmedPanic;

/// The fate of this value is unspecified from now on (its call was refused): it may be destroyed
/// later, but at most once.
pub fn unspecified(kind: u16, content: u64) {
    with(|l| {
        if let Some(n) = l.live.get_mut(&(kind, content)) {
            *n -= 1;
            if *n == 0 {
                l.live.remove(&(kind, content));
            }
            l.total -= 1;
            *l.maybe.entry((kind, content)).or_insert(0) += 1;
        }
    });
}


pub fn recontent(kind: u16, old: u64, new: u64) {
    with(|l| {
        if let Some(n) = l.live.get_mut(&(kind, old)) {
            *n -= 1;
            if *n == 0 {
                l.live.remove(&(kind, old));
            }
        }
        *l.live.entry((kind, new)).or_insert(0) += 1;
    });
}

pub fn take_errors() -> Vec<String> {
    with(|l| std::mem::take(&mut l.errors))
}

/// The live values whose kind passes `f`.
pub fn snapshot(f: impl Fn(u16) -> bool) -> BTreeMap<(u16, u64), i64> {
    with(|l| l.live.iter().filter(|(k, _)| f(k.0)).map(|(k, n)| (*k, *n)).collect())
}

pub fn total() -> i64 {
    with(|l| l.total)
}

pub fn arm(kind: u16, content: u64) {
    with(|l| l.armed = Some((kind, content)))
}

pub fn disarm() -> bool {
    with(|l| l.armed.take().is_some())
}
