//! Which queries may be alive at the same time. Every query lives in a thread of its own, so that
//! one that has to wait can be told from one that was granted; the main thread owns the schedule.
use crate::case::{Case, Op};
use crate::engine::{catch, last_panic, Eng, Focus, Fx, Stats, F, K_ADD, K_DESPAWN, K_DESPAWN_COMP, K_REGISTER, K_REMOVE, K_SPAWN, K_SPAWN_COMP, K_SPAWN_SHAPE, K_TAG, NKINDS, R};
use crate::ledger;
use crate::shapes::{P, SHAPES};
use arche_tape::{FetchType, World};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub const K_ACQUIRE: u8 = 100;
pub const K_RELEASE: u8 = 101;

const IDLE: u32 = 0;
const ACQUIRING: u32 = 1;
const HELD: u32 = 2;
const FAILED: u32 = 3;
const UNWINDING: u32 = 4;
const LET_GO: &str = "panicked while holding a query";

const AGENTS: usize = 4;
/// A thread that sleeps in the lock for this long while nothing can release it is blocked for good.
const STUCK: Duration = Duration::from_secs(5);
/// The same for one that does not sleep.
const SPINNING: Duration = Duration::from_secs(60);

enum Spec {
    Typed(usize),
    Dyn(Vec<FetchType>),
}
struct Cmd {
    w: *const World,
    s: Spec,
}
// the harness never touches the world mutably while an agent uses it
unsafe impl Send for Cmd {}

struct Shared {
    state: AtomicU32,
    tid: AtomicU64,
}

struct Agent {
    sh: Arc<Shared>,
    cmd: Sender<Cmd>,
    /// how to let go: by dropping the query, or by a panic that unwinds through it
    rel: Sender<bool>,
    holds: Option<Held>,
}

#[derive(Clone)]
struct Held {
    acc: Vec<(usize, bool)>,
    text: String,
}

fn dyn_hold(w: &World, ids: Vec<FetchType>, f: &mut dyn FnMut()) {
    fn go<const N: usize>(w: &World, ids: Vec<FetchType>, f: &mut dyn FnMut()) {
        let arr: [FetchType; N] = ids.try_into().ok().unwrap();
        let mut q = w.query_dynamic(arr);
        let _ = q.iter().next().is_some();
        f();
        drop(q);
    }
    match ids.len() {
        1 => go::<1>(w, ids, f),
        2 => go::<2>(w, ids, f),
        3 => go::<3>(w, ids, f),
        4 => go::<4>(w, ids, f),
        5 => go::<5>(w, ids, f),
        6 => go::<6>(w, ids, f),
        7 => go::<7>(w, ids, f),
        8 => go::<8>(w, ids, f),
        9 => go::<9>(w, ids, f),
        12 => go::<12>(w, ids, f),
        16 => go::<16>(w, ids, f),
        20 => go::<20>(w, ids, f),
        _ => go::<10>(w, ids, f),
    }
}

extern "C" {
    fn syscall(n: i64, ...) -> i64;
}

fn agent() -> Agent {
    let sh = Arc::new(Shared { state: AtomicU32::new(IDLE), tid: AtomicU64::new(0) });
    let (cmd, rx): (Sender<Cmd>, Receiver<Cmd>) = channel();
    let (rel, rel_rx) = channel::<bool>();
    let s2 = sh.clone();
    std::thread::spawn(move || {
        s2.tid.store(unsafe { syscall(186) } as u64, SeqCst);
        while let Ok(c) = rx.recv() {
            let w = unsafe { &*c.w };
            let mut hold = || {
                s2.state.store(HELD, SeqCst);
                if rel_rx.recv() == Ok(true) {
                    s2.state.store(UNWINDING, SeqCst);
                    panic!("{}", LET_GO);
                }
            };
            let r = catch(|| match c.s {
                Spec::Typed(i) => (SHAPES[i].hold)(w, &mut hold),
                Spec::Dyn(ids) => dyn_hold(w, ids, &mut hold),
            });
            let unwound = s2.state.load(SeqCst) == UNWINDING;
            s2.state.store(if r.is_ok() || unwound { IDLE } else { FAILED }, SeqCst);
        }
    });
    while sh.tid.load(SeqCst) == 0 {
        std::thread::yield_now()
    }
    Agent { sh, cmd, rel, holds: None }
}

thread_local! { static POOL: std::cell::RefCell<Vec<Agent>> = const { std::cell::RefCell::new(Vec::new()) }; }

impl Agent {
    fn state(&self) -> u32 {
        self.sh.state.load(SeqCst)
    }
    /// (is asleep, number of times it has gone to sleep)
    fn sleep(&self) -> (bool, u64) {
        let tid = self.sh.tid.load(SeqCst);
        let s = std::fs::read_to_string(format!("/proc/self/task/{}/status", tid)).unwrap_or_default();
        let mut asleep = false;
        let mut n = 0;
        for l in s.lines() {
            if let Some(x) = l.strip_prefix("State:") {
                asleep = x.trim_start().starts_with('S');
            }
            if let Some(x) = l.strip_prefix("voluntary_ctxt_switches:") {
                n = x.trim().parse().unwrap_or(0);
            }
        }
        (asleep, n)
    }
    /// Waits until the query is granted; false if it never will be.
    fn granted(&self) -> bool {
        let t0 = Instant::now();
        while t0.elapsed() < Duration::from_millis(2) {
            if self.state() != ACQUIRING {
                return true;
            }
            std::thread::yield_now();
        }
        let mut since = (Instant::now(), self.sleep());
        loop {
            if self.state() != ACQUIRING {
                return true;
            }
            std::thread::sleep(Duration::from_millis(1));
            let s = self.sleep();
            if !s.0 || s != since.1 {
                since = (Instant::now(), s);
            }
            if since.0.elapsed() > STUCK || t0.elapsed() > SPINNING {
                return self.state() != ACQUIRING;
            }
        }
    }
    /// Waits until it is asleep in the lock (or has had time to be) or granted; true if granted.
    fn settles(&self) -> bool {
        let mut seen = 0;
        let mut last = (false, u64::MAX);
        let t0 = Instant::now();
        loop {
            if self.state() != ACQUIRING {
                return true;
            }
            let s = self.sleep();
            if s.0 && s == last {
                seen += 1;
            } else {
                seen = 0;
            }
            last = s;
            if seen >= 4 || t0.elapsed() > Duration::from_millis(300) {
                return self.state() != ACQUIRING;
            }
            std::thread::sleep(Duration::from_micros(30));
        }
    }
    fn release(&mut self, panicking: bool) {
        if self.holds.take().is_some() {
            self.rel.send(panicking).unwrap();
            while matches!(self.state(), HELD | UNWINDING) {
                std::thread::yield_now()
            }
        }
    }
}

/// The same history twice: queries of one never have anything to do with the other's.
struct Sut<'a> {
    e: [Eng; 2],
    ag: &'a mut Vec<Agent>,
    /// the agent whose query has to wait
    blocked: Option<(usize, Held)>,
    st: Stats,
}

fn conflict(a: &Held, b: &Held) -> bool {
    a.acc.iter().any(|(c, m)| b.acc.iter().any(|(d, n)| c == d && (*m || *n)))
}

impl<'a> Sut<'a> {
    fn typed(&self, wi: usize, i: usize) -> Option<Held> {
        let sh = &SHAPES[i];
        let mut acc = Vec::new();
        for p in sh.params {
            if let Some(t) = p.ty() {
                let c = self.e[wi].smap[t]?;
                if !self.e[wi].ents[c].used {
                    return None;
                }
                acc.push((wi << 32 | c, matches!(p, P::W(_))));
            }
        }
        Some(Held { acc, text: format!("{}typed {:?}", ["", "other world: "][wi], sh.params) })
    }
    fn dynamic(&self, wi: usize, fs: &[F]) -> Option<Held> {
        let mut acc = Vec::new();
        let mut text = ["dynamic", "other world: dynamic"][wi].to_string();
        let e = &self.e[wi];
        for f in fs {
            match f.x {
                Fx::Id => text += " id",
                Fx::Foreign(_) => return None,
                Fx::C(c) => {
                    if !e.ents[c].alive || !e.ents[c].used {
                        return None;
                    }
                    acc.push((wi << 32 | c, f.m));
                    text += &format!(" {}{:#x}", if f.m { "mut " } else { "" }, e.ents[c].id.as_u64());
                }
            }
        }
        Some(Held { acc, text })
    }

    fn conflicting(&self, h: &Held) -> Vec<usize> {
        (0..AGENTS).filter(|&i| self.ag[i].holds.as_ref().map_or(false, |x| conflict(x, h))).collect()
    }

    /// The waiting query has not been granted while something conflicts with it.
    fn still_blocked(&mut self) -> R {
        let Some((i, h)) = &self.blocked else { return Ok(()) };
        let c = self.conflicting(h);
        if !c.is_empty() {
            match self.ag[*i].state() {
                ACQUIRING => return Ok(()),
                HELD => {
                    return Err(format!(
                        "query [{}] was obtained while the conflicting query [{}] is alive",
                        h.text,
                        self.ag[c[0]].holds.as_ref().unwrap().text
                    ))
                }
                _ => return Err("obtaining a query panicked".into()),
            }
        }
        let (i, h) = self.blocked.take().unwrap();
        if !self.ag[i].granted() {
            return Err(format!("query [{}] stays blocked although no conflicting query is alive any more", h.text));
        }
        if self.ag[i].state() != HELD {
            return Err("obtaining a query panicked".into());
        }
        self.ag[i].holds = Some(h);
        self.st.locks_granted += 1;
        Ok(())
    }

    fn release(&mut self, i: usize, panicking: bool) -> R {
        self.still_blocked()?;
        if panicking && self.ag[i].holds.is_some() {
            self.st.locks_unwound += 1;
        }
        self.ag[i].release(panicking);
        self.still_blocked()
    }

    fn release_all(&mut self) -> R {
        for i in 0..AGENTS {
            self.release(i, false)?;
        }
        for i in 0..AGENTS {
            self.release(i, false)?;
        }
        Ok(())
    }

    fn acquire(&mut self, i: usize, typed: bool, op: Op) -> R {
        if self.blocked.is_some() {
            // only releases can help it now
            let c = self.conflicting(&self.blocked.as_ref().unwrap().1);
            return self.release(c[op.b as usize % c.len()], op.c % 5 == 0);
        }
        if self.ag[i].holds.is_some() {
            if op.c & 3 == 0 {
                self.release(i, op.c % 20 == 0)?;
            } else {
                return Ok(());
            }
        }
        let wi = (op.a >> 3 & 3 == 0) as usize;
        let (held, spec, fs) = if typed {
            let n = SHAPES.len();
            let mut s = op.b as usize % n;
            if op.c & 12 != 0 {
                // one that touches something
                for k in 0..n {
                    if self.typed(wi, (s + k) % n).is_some() {
                        s = (s + k) % n;
                        break;
                    }
                }
            }
            (self.typed(wi, s), Spec::Typed(s), vec![])
        } else {
            let fs = self.e[wi].fetch_list_pub(op.b, op.c, op.a);
            (self.dynamic(wi, &fs), Spec::Dyn(self.e[wi].fetch_ids(&fs)), fs)
        };
        let w = self.e[wi].w.as_ref().unwrap() as *const World;
        let Some(h) = held else {
            // matches nothing, whatever it locks: only if nothing it names is in use, and briefly
            let mut named: Vec<usize> = fs.iter().filter_map(|f| if let Fx::C(c) = f.x { Some(wi << 32 | c) } else { None }).collect();
            if let Spec::Typed(s) = &spec {
                named.extend(SHAPES[*s].params.iter().filter_map(|p| p.ty()).filter_map(|t| self.e[wi].smap[t]).map(|c| wi << 32 | c));
            }
            if self.ag.iter().any(|a| a.holds.as_ref().map_or(false, |h| h.acc.iter().any(|(c, _)| named.contains(c)))) {
                return Ok(());
            }
            self.ag[i].sh.state.store(ACQUIRING, SeqCst);
            self.ag[i].cmd.send(Cmd { w, s: spec }).unwrap();
            if !self.ag[i].granted() {
                return Err("a query that matches nothing stays blocked although no query on its components is alive".into());
            }
            if self.ag[i].state() != HELD {
                return Err(format!("obtaining a query panicked: {}", last_panic()));
            }
            self.ag[i].holds = Some(Held { acc: vec![], text: String::new() });
            self.ag[i].release(op.c % 5 == 0);
            return Ok(());
        };
        let c = self.conflicting(&h);
        self.ag[i].sh.state.store(ACQUIRING, SeqCst);
        self.ag[i].cmd.send(Cmd { w, s: spec }).unwrap();
        if c.is_empty() {
            if !self.ag[i].granted() {
                let others: Vec<String> = self.ag.iter().filter_map(|a| a.holds.as_ref().map(|h| h.text.clone())).collect();
                return Err(format!("query [{}] stays blocked although the queries that are alive do not conflict with it: {:?}", h.text, others));
            }
            if self.ag[i].state() != HELD {
                return Err(format!("obtaining a query panicked: {}", last_panic()));
            }
            self.st.locks_held += 1;
            if self.ag.iter().any(|a| a.holds.as_ref().map_or(false, |x| x.acc.iter().any(|(d, _)| h.acc.iter().any(|(e, _)| d == e)))) {
                self.st.locks_shared += 1;
            }
            self.ag[i].holds = Some(h);
            return Ok(());
        }
        self.st.locks_blocked += 1;
        if self.ag[i].settles() {
            if self.ag[i].state() == FAILED {
                return Err(format!("obtaining a query panicked: {}", last_panic()));
            }
            return Err(format!(
                "query [{}] was obtained while the conflicting query [{}] is alive",
                h.text,
                self.ag[c[0]].holds.as_ref().unwrap().text
            ));
        }
        self.blocked = Some((i, h));
        Ok(())
    }

    fn step(&mut self, op: Op) -> R {
        match op.k {
            K_ACQUIRE => self.acquire((op.a % AGENTS as u32) as usize, (op.a >> 2) & 1 == 0, op),
            K_RELEASE => {
                self.st.ops += 1;
                self.release((op.a % AGENTS as u32) as usize, op.b % 4 == 0)
            }
            _ => {
                self.release_all()?;
                const KINDS: [u8; 12] = [
                    K_SPAWN, K_SPAWN_SHAPE, K_SPAWN_SHAPE, K_SPAWN_COMP, K_ADD, K_ADD, K_REMOVE, K_DESPAWN, K_DESPAWN_COMP, K_REGISTER, K_TAG, K_TAG,
                ];
                debug_assert!(KINDS.iter().all(|k| *k < NKINDS));
                let op = Op { k: KINDS[op.k as usize % KINDS.len()], ..op };
                self.e[0].step(op)?;
                self.e[1].step(op)
            }
        }
    }
}

pub fn run(case: &Case) -> (R, Stats) {
    ledger::reset();
    POOL.with(|p| {
        let mut pool = p.borrow_mut();
        while pool.len() < AGENTS {
            pool.push(agent());
        }
        let e = [Eng::new(case, Focus::default(), false), Eng::new(case, Focus::default(), false)];
        let mut s = Sut { e, ag: &mut pool, blocked: None, st: Stats::default() };
        let mut r = Ok(());
        for (n, op) in case.ops.iter().enumerate() {
            r = s.step(*op).and_then(|_| s.still_blocked()).map_err(|m| format!("step {}: {}", n + 1, m));
            if r.is_err() {
                break;
            }
        }
        if r.is_ok() {
            r = s.release_all();
        }
        if r.is_ok() {
            r = s.e[0].finish().and_then(|_| s.e[1].finish());
        }
        if r.is_err() {
            s.e[0].poison();
            s.e[1].poison();
        }
        let mut st = s.st.clone();
        st.max_lock_components = s.e[0].ents.iter().filter(|e| e.used).count() as u64;
        st.add(&s.e[0].st);
        st.add(&s.e[1].st);
        (r, st)
    })
}
