//! The same history on two worlds, with another world and other allocations in between.
use crate::case::{mix, Case, Op};
use crate::engine::{last_panic, Eng, Focus, Stats, K_BROAD, R};
use crate::aside::Aside;
use crate::ledger;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

/// A world in another thread, at work while the function runs. It must go there as it goes alone.
fn beside(salt: u64, f: impl FnOnce() -> (R, Stats)) -> (R, Stats) {
    fn go(salt: u64, most: u64, stop: &AtomicBool) -> (u64, u64) {
        let mut a = Aside::new(salt);
        let mut n = 0;
        while n < most && !stop.load(Ordering::Relaxed) {
            n += 1;
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.step())) {
                Ok(Ok(())) => {}
                // (what is wrong with it is for the other properties to say)
                Ok(Err(_)) => a.digest = mix(a.digest ^ 1),
                Err(_) => {
                    a.digest = mix(a.digest ^ 2);
                    std::mem::forget(a);
                    return (n, 2);
                }
            }
        }
        (n, a.digest)
    }
    let stop = Arc::new(AtomicBool::new(false));
    let stop2 = stop.clone();
    let t = std::thread::spawn(move || {
        let r = go(salt, 6000, &stop2);
        drop(last_panic());
        r
    });
    let (r, mut st) = f();
    stop.store(true, Ordering::Relaxed);
    let (n, digest) = t.join().unwrap_or((0, 3));
    st.beside += n;
    if r.is_ok() && n > 0 {
        let (n2, digest2) = go(salt, n, &AtomicBool::new(false));
        if (n, digest) != (n2, digest2) {
            return (Err("a world went differently while another one was at work in another thread".into()), st);
        }
    }
    (r, st)
}

pub fn run(case: &Case) -> (R, Stats) {
    match case.cfg(0) >> 16 & 7 {
        0 if !cfg!(miri) => beside(case.cfg(1) as u64, || run_here(case)),
        _ => run_here(case),
    }
}

fn run_here(case: &Case) -> (R, Stats) {
    ledger::reset();
    let f = Focus { meta: true, ..Focus::default() };
    let mut noise = Eng::new(case, Focus::default(), false);
    let mut junk: Vec<Vec<u8>> = Vec::new();
    let mut a = Eng::new(case, f, true);
    let pre = case.cfg(0) >> 8 & 3;
    let mut salt = case.cfg(0) as u64;
    let mut disturb = |noise: &mut Eng, op: Op| {
        salt = mix(salt ^ op.a as u64);
        junk.push(vec![1; salt as usize % 300 + 1]);
        if junk.len() > 20 {
            let i = (salt >> 20) as usize % junk.len();
            junk.swap_remove(i);
        }
        // (whatever is wrong with the noise world is for the other properties to say)
        let _ = noise.step(Op { k: ((salt >> 30) % K_BROAD as u64) as u8, a: salt as u32, b: op.b ^ (salt >> 32) as u32, c: op.c.wrapping_add(7) });
        let _ = ledger::take_errors();
    };
    if pre > 0 {
        for i in 0..pre * 8 {
            disturb(&mut noise, Op { k: 0, a: i, b: i * 77, c: i * 3 });
        }
    }
    let mut b = Eng::new(case, f, true);
    let mut res = Ok(());
    let mut pos = 0;
    for (n, op) in case.ops.iter().enumerate() {
        if mix(n as u64 ^ op.b as u64) % 8 == 0 {
            // (each has the place of the other from now on)
            std::mem::swap(&mut a, &mut b);
        }
        let (ra, rb);
        if mix(n as u64 ^ case.cfg(0) as u64) & 1 == 0 {
            ra = a.step(*op);
            disturb(&mut noise, *op);
            rb = b.step(*op);
        } else {
            rb = b.step(*op);
            disturb(&mut noise, *op);
            ra = a.step(*op);
        }
        let (la, lb) = (a.log.as_ref().unwrap(), b.log.as_ref().unwrap());
        if la[pos..] != lb[pos..] {
            let k = (pos..).find(|&k| la.get(k) != lb.get(k)).unwrap();
            res = Err(format!(
                "step {} ({:?}): the same operation gave different results in the two worlds ({:x?} and {:x?})",
                n + 1, op, la.get(k), lb.get(k)
            ));
            break;
        }
        match (ra, rb) {
            (Ok(()), Ok(())) => {}
            // deviating from the model in the same way in both worlds is for the other properties to say
            (Err(_), Err(_)) => {
                noise.poison();
                a.poison();
                b.poison();
                return (Ok(()), a.st.clone());
            }
            (Err(x), Ok(())) | (Ok(()), Err(x)) => {
                res = Err(format!("step {}: the same operation went differently in the two worlds: {}", n + 1, x));
                break;
            }
        }
        pos = la.len();
    }
    let mut st = a.st.clone();
    st.add(&b.st);
    if res.is_err() {
        noise.poison();
        a.poison();
        b.poison();
    }
    (res, st)
}
