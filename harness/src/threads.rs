//! C14: thread-safe vectors used from several threads.
use crate::arc::*;
use crate::base::*;
use crate::profile::*;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};

pub type V<A> = librrb::ThreadSafeVector<A>;

fn spin(rng: &mut Rng) {
    match rng.below(12) {
        0 => std::thread::yield_now(),
        1 => {
            for _ in 0..rng.below(300) {
                std::hint::spin_loop()
            }
        }
        _ => {}
    }
}

const PROFILE: Profile = Profile {
    monitor: Monitor::Contents,
    owned: &[],
    weights: [20, 20, 12, 14, 4, 4, 10, 4, 0, 2],
    ops: (0, 0),
    max_len: 0,
    slots: 3,
};

/// What one thread does with its own copy. Returns the complaint, if any.
fn program<E: Elem>(seed: u64, start: V<E>, model: &[u64], ops: usize, tid: u64, log: &Log) -> Result<u64, String> {
    let mut p = PROFILE.clone();
    p.max_len = model.len() * 2 + 200;
    let mut w: World<E> = World::new(seed, p.max_len);
    w.full_every = 4;
    // Values made here differ from everyone else's.
    w.next = 1_000_000 * (tid + 1);
    w.slots[0] = Slot { v: start, m: std::rc::Rc::new(model.to_vec()) };
    let mut rng = Rng::new(seed ^ 77);
    for i in 0..ops {
        log.event(tid, i);
        spin(&mut rng);
        if let Err(b) = w.step(&p) {
            let m = format!("thread {} operation {}: {}; last: {}", tid, i, b.msg, w.trace.iter().rev().take(5).cloned().collect::<Vec<_>>().join(" <- "));
            std::mem::forget(w);
            return Err(m);
        }
    }
    for i in 0..w.slots.len() {
        if let Err(b) = w.check_deep(i) {
            let m = format!("thread {} at the end: {}", tid, b.msg);
            std::mem::forget(w);
            return Err(m);
        }
    }
    let fp = w.fp;
    Ok(fp)
}

/// The order in which threads took their steps.
struct Log {
    ticket: AtomicUsize,
    order: Vec<AtomicU64>,
}
impl Log {
    fn new(n: usize) -> Log {
        Log { ticket: AtomicUsize::new(0), order: (0..n).map(|_| AtomicU64::new(u64::MAX)).collect() }
    }
    fn event(&self, tid: u64, i: usize) {
        let t = self.ticket.fetch_add(1, Relaxed);
        if t < self.order.len() {
            self.order[t].store(tid << 32 | i as u64, Relaxed);
        }
    }
    fn hash(&self) -> (u64, u64) {
        let n = self.ticket.load(SeqCst).min(self.order.len());
        let mut h = 0;
        let mut switches = 0;
        let mut last = u64::MAX;
        for x in &self.order[..n] {
            let t = x.load(SeqCst) >> 32;
            h = mix(h, t);
            if t != last {
                switches += 1;
            }
            last = t;
        }
        (h, switches)
    }
}

fn start<E: Elem>(rng: &mut Rng, n: usize) -> Result<(V<E>, Vec<u64>), String> {
    let vals: Vec<u64> = (0..n as u64).map(|x| x + 1).collect();
    let v = shaped::<E>(rng, &vals)?;
    Ok((v, vals.iter().map(|x| E::norm(*x)).collect()))
}

/// Threads edit, read, clone and drop their own clones of one vector.
pub fn case_clones<E: Elem>(seed: u64, max: usize, ops: usize, threads: usize) -> Out {
    reset_monitors();
    let mut rng = Rng::new(seed);
    let n = size(&mut rng, max);
    let (v, m) = match start::<E>(&mut rng, n) {
        Ok(x) => x,
        Err(e) => return Out::Inconclusive(e),
    };
    let seeds: Vec<u64> = (0..threads).map(|_| rng.next()).collect();
    let log = Log::new(threads * ops + 64);
    let gate = AtomicBool::new(false);
    let head = format!("{} threads, each with a clone of {} elements of {}, seed {}", threads, n, E::NAME, seed);
    let errs: Mutex<Vec<String>> = Mutex::new(vec![]);
    let keep_base = rng.chance(1, 2);
    let base = Arc::new(v);
    multi();
    std::thread::scope(|s| {
        for (t, sd) in seeds.iter().enumerate() {
            let (log, gate, errs, m) = (&log, &gate, &errs, &m);
            // Half of the threads get their clone here, half clone the shared one themselves.
            let own = if t % 2 == 0 { Some((*base).clone()) } else { None };
            let shared = base.clone();
            s.spawn(move || {
                while !gate.load(Acquire) {
                    std::hint::spin_loop();
                }
                let r = guard(|| {
                    let start = match own {
                        Some(x) => {
                            drop(shared);
                            x
                        }
                        None => {
                            let c = (*shared).clone();
                            // Reads of the very same vector from several threads.
                            let mut rng = Rng::new(*sd ^ 5);
                            for _ in 0..20 {
                                let p = rng.position(m.len());
                                if shared.get(p).map(|x| x.val()) != m.get(p).copied() {
                                    return Err(format!("thread {}: shared get({})", t, p));
                                }
                            }
                            let mut f = shared.focus();
                            for _ in 0..20 {
                                let p = rng.position(m.len());
                                if f.get(p).map(|x| x.val()) != m.get(p).copied() {
                                    return Err(format!("thread {}: shared focus get({})", t, p));
                                }
                            }
                            if shared.iter().take(100).map(|x| x.val()).ne(m.iter().take(100).copied()) {
                                return Err(format!("thread {}: shared iteration", t));
                            }
                            drop(f);
                            drop(shared);
                            c
                        }
                    };
                    program::<E>(*sd, start, m, ops, t as u64, log)
                });
                match r {
                    Ok(Ok(_)) => {}
                    Ok(Err(e)) | Err(e) => errs.lock().unwrap().push(e),
                }
            });
        }
        let kept = if keep_base { Some(base) } else { drop(base); None };
        gate.store(true, Release);
        if let Some(b) = kept {
            let mut rng = Rng::new(seed ^ 9);
            let mut c: Vec<V<E>> = vec![];
            for i in 0..ops {
                log.event(99, i);
                spin(&mut rng);
                if rng.chance(1, 2) {
                    c.push((*b).clone());
                } else {
                    c.pop();
                }
            }
            if let Ok(d) = obs_drain(&b, false) {
                if d != m {
                    errs.lock().unwrap().push("the original vector changed".into());
                }
            }
        }
    });
    let errs = errs.into_inner().unwrap();
    if let Some(e) = errs.first() {
        // Would it fail alone?
        reset_monitors();
        let mut rng = Rng::new(seed);
        let n2 = size(&mut rng, max);
        if let Ok((v, m)) = start::<E>(&mut rng, n2) {
            for (t, sd) in seeds.iter().enumerate() {
                let log = Log::new(4);
                match guard(|| program::<E>(*sd, v.clone(), &m, ops, t as u64, &log)) {
                    Ok(Ok(_)) => {}
                    _ => return Out::Inconclusive(format!("{}: {} - fails single-threaded too", head, e)),
                }
            }
        }
        return Out::Violated(format!("{}: {} (each thread's program succeeds when run alone)", head, e));
    }
    finish::<E>(head, seed, n, &log, threads)
}

fn finish<E: Elem>(head: String, seed: u64, n: usize, log: &Log, threads: usize) -> Out {
    if let Some(e) = reported() {
        return Out::Violated(format!("{}: {}", head, e));
    }
    let (t, z) = (TR_LIVE.load(SeqCst), ZST_LIVE.load(SeqCst));
    if t != 0 || z != 0 {
        return Out::Violated(format!("{}: {} elements alive after every thread dropped everything", head, t + z));
    }
    let (h, sw) = log.hash();
    let mut info = Info { fp: mix(h, seed), ..Info::default() };
    info.trivial = sw < 2 * threads as u64;
    info.add("thread switches between steps", sw);
    info.add("steps", log.ticket.load(SeqCst) as u64);
    info.max("length", n as u64);
    info.max("threads", threads as u64);
    info.sample = format!("{}; {} steps, {} switches", head, log.ticket.load(SeqCst), sw);
    Out::Held(info)
}

/// The parts of a split mutable focus are used in different threads, over shared structure.
pub fn case_focus<E: Elem>(seed: u64, max: usize, budget: usize) -> Out {
    reset_monitors();
    let mut rng = Rng::new(seed);
    let n = size(&mut rng, max);
    let (v, m) = match start::<E>(&mut rng, n) {
        Ok(x) => x,
        Err(e) => return Out::Inconclusive(e),
    };
    let mut v = v;
    let head = format!("a mutable focus over {} elements of {} split over 4 threads, seed {}", n, E::NAME, seed);
    let clone = if rng.chance(2, 3) { Some(v.clone()) } else { None };
    let mut nm = m.clone();
    let log = Log::new(64);
    let (a, b, c) = { let b = rng.position(n); (rng.position(b), b, rng.position(n - b)) };
    let pre = rng.chance(1, 2);
    let errs: Mutex<Vec<String>> = Mutex::new(vec![]);
    multi();
    let r = guard(|| {
        let mut f = v.focus_mut();
        if pre && n > 0 {
            let _ = f.get(rng.position(n - 1)).map(|x| x.val());
        }
        let (mut l, mut r) = f.split_at(b);
        let (ml, mr) = nm.split_at_mut(b);
        let (l1, l2) = l.split_at(a);
        let (r1, r2) = r.split_at(c);
        let (m1, m2) = ml.split_at_mut(a);
        let (m3, m4) = mr.split_at_mut(c);
        std::thread::scope(|s| {
            for (t, (mut f, m)) in [(l1, m1), (l2, m2), (r1, m3), (r2, m4)].into_iter().enumerate() {
                let sd = rng.next();
                let (errs, log) = (&errs, &log);
                s.spawn(move || {
                    let mut rng = Rng::new(sd);
                    let mut next = 1_000_000 * (t as u64 + 1);
                    let mut steps = 0;
                    for i in 0..4 {
                        log.event(t as u64, i);
                        spin(&mut rng);
                        match guard(|| drive_focus_mut::<E>(&mut f, m, &mut rng, 2, budget / 4, &mut next, &mut steps)) {
                            Ok(Ok(())) => {}
                            Ok(Err(e)) | Err(e) => {
                                errs.lock().unwrap().push(format!("part {}: {}", t, e));
                                return;
                            }
                        }
                    }
                    drop(f);
                });
            }
            if let Some(c) = clone {
                // Meanwhile the other owner reads and lets go of the shared nodes.
                for (i, x) in c.iter().enumerate().take(2000) {
                    if x.val() != m[i] {
                        errs.lock().unwrap().push(format!("the clone shows a foreign write at {}", i));
                        break;
                    }
                }
                drop(c);
            }
        });
    });
    if let Err(e) = r {
        return Out::Inconclusive(format!("{}: {}", head, e));
    }
    if let Some(e) = errs.into_inner().unwrap().first() {
        // Deterministic failures are the business of the single-threaded check.
        let p = Profile { monitor: Monitor::Contents, owned: &[Class::FocusMut], weights: [0, 10, 0, 0, 0, 0, 10, 0, 10, 0], ops: (30, 60), max_len: max, slots: 3 };
        for k in 0..10 {
            match run_world::<E>(seed.wrapping_add(k), &p) {
                Out::Held(_) => {}
                _ => return Out::Inconclusive(format!("{}: {} - foci fail single-threaded too", head, e)),
            }
        }
        return Out::Violated(format!("{}: {}", head, e));
    }
    match obs_drain(&v, false) {
        Ok(d) => {
            if let Some(e) = diff(&d, &nm) {
                return Out::Violated(format!("{}: afterwards {}", head, e));
            }
        }
        Err(e) => return Out::Violated(format!("{}: afterwards {}", head, e)),
    }
    drop(v);
    let mut o = finish::<E>(head, seed, n, &log, 4);
    if let Out::Held(i) = &mut o {
        i.add("focus parts in threads", 4);
        i.trivial = n < 4;
    }
    o
}

/// Vectors handed from thread to thread.
pub fn case_pipeline<E: Elem>(seed: u64, max: usize, ops: usize) -> Out {
    reset_monitors();
    let mut rng = Rng::new(seed);
    let n = size(&mut rng, max);
    let (v, m) = match start::<E>(&mut rng, n) {
        Ok(x) => x,
        Err(e) => return Out::Inconclusive(e),
    };
    let head = format!("versions of {} elements of {} passed between 3 threads, seed {}", n, E::NAME, seed);
    let log = Log::new(4 * ops + 16);
    let errs: Mutex<Vec<String>> = Mutex::new(vec![]);
    multi();
    let (t1, r1) = std::sync::mpsc::channel::<(V<E>, Vec<u64>)>();
    let (t2, r2) = std::sync::mpsc::channel::<(V<E>, Vec<u64>)>();
    std::thread::scope(|s| {
        let (log, errs) = (&log, &errs);
        let sd = [rng.next(), rng.next(), rng.next()];
        s.spawn(move || {
            let mut rng = Rng::new(sd[0]);
            let (mut v, mut m) = (v, m);
            for i in 0..ops {
                log.event(0, i);
                spin(&mut rng);
                let r = guard(|| {
                    let x = 1_000_000 + i as u64;
                    match rng.below(4) {
                        0 => { v.push_back(E::mk(x)); m.push(E::norm(x)); }
                        1 => { v.pop_front(); if !m.is_empty() { m.remove(0); } }
                        2 if !m.is_empty() => { let p = rng.position(m.len() - 1); v[p] = E::mk(x); m[p] = E::norm(x); }
                        _ => { let p = rng.position(m.len()); v.insert(p, E::mk(x)); m.insert(p, E::norm(x)); }
                    }
                });
                if let Err(e) = r {
                    errs.lock().unwrap().push(format!("producer: {}", e));
                    break;
                }
                if t1.send((v.clone(), m.clone())).is_err() {
                    break;
                }
            }
        });
        s.spawn(move || {
            let mut rng = Rng::new(sd[1]);
            let mut i = 0;
            while let Ok((mut v, mut m)) = r1.recv() {
                log.event(1, i);
                i += 1;
                spin(&mut rng);
                let r = guard(|| {
                    let p = rng.position(m.len());
                    let t = v.split_off(p);
                    let tm = m.split_off(p);
                    v.prepend(t);
                    let mut x = tm;
                    x.extend(m.iter());
                    m = x;
                });
                if let Err(e) = r {
                    errs.lock().unwrap().push(format!("middle: {}", e));
                    break;
                }
                if t2.send((v, m)).is_err() {
                    break;
                }
            }
        });
        s.spawn(move || {
            let mut i = 0;
            while let Ok((v, m)) = r2.recv() {
                log.event(2, i);
                i += 1;
                match guard(|| v.into_iter().map(|x| x.val()).collect::<Vec<_>>()) {
                    Ok(g) => {
                        if let Some(e) = diff(&g, &m) {
                            errs.lock().unwrap().push(format!("consumer: version {}: {}", i, e));
                            break;
                        }
                    }
                    Err(e) => {
                        errs.lock().unwrap().push(format!("consumer: {}", e));
                        break;
                    }
                }
            }
        });
    });
    if let Some(e) = errs.into_inner().unwrap().first() {
        let p = Profile { monitor: Monitor::Contents, owned: &[Class::Deque, Class::Edit, Class::Access, Class::Iter], weights: [10, 10, 5, 3, 5, 0, 0, 0, 10, 0], ops: (30, 60), max_len: max, slots: 3 };
        for k in 0..20 {
            match run_world::<E>(seed.wrapping_add(k), &p) {
                Out::Held(_) => {}
                _ => return Out::Inconclusive(format!("{}: {} - fails single-threaded too", head, e)),
            }
        }
        return Out::Violated(format!("{}: {}", head, e));
    }
    finish::<E>(head, seed, n, &log, 3)
}

/// Parts of a mutable focus over a vector that is NOT thread safe, used in two threads while a
/// clone keeps the nodes shared. The type system lets safe code do this (a recorded finding).
pub fn rc_focus_threads() -> Out {
    // Joined with its own clone, the vector has the same nodes in both halves, and so the threads
    // that write through the two parts of a focus adjust the same plain reference counts.
    let w = librrb::RRB_WIDTH as u64;
    let n = 6 * w;
    let mut v: librrb::RegularVector<u64> = (0..n).collect();
    let c = v.clone();
    v.append(c);
    {
        let mut f = v.focus_mut();
        let (mut l, mut r) = f.split_at(n as usize);
        std::thread::scope(|s| {
            s.spawn(move || {
                for i in 0..l.len() {
                    *l.index(i) += 1;
                }
            });
            s.spawn(move || {
                for i in 0..r.len() {
                    *r.index(i) += 1;
                }
            });
        });
    }
    let ok = v.iter().copied().eq((1..n + 1).chain(1..n + 1));
    if ok {
        let mut info = Info::default();
        info.sample = "parts of a focus over an Rc vector in two threads".into();
        Out::Held(info)
    } else {
        Out::Violated("wrong contents".into())
    }
}

/// References from both ends of a mutable iterator, held together.
pub fn iter_mut_both_ends() -> Out {
    let n = 5 * librrb::RRB_WIDTH as u64;
    let mut v: librrb::RegularVector<u64> = (0..n).collect();
    let mut info = Info::default();
    {
        let mut it = v.iter_mut();
        let mut held = vec![];
        while let Some(a) = it.next() {
            held.push(a);
            if let Some(b) = it.next_back() {
                held.push(b);
            }
        }
        for x in held {
            *x += 1;
        }
    }
    info.sample = "references from both ends of a mutable iterator held together".into();
    info.add("references held", n);
    if !v.iter().copied().eq(1..n + 1) {
        return Out::Violated("wrong elements".into());
    }
    Out::Held(info)
}

// ---------------------------------------------------------------- what may be sent at all
// Safe code can move to another thread whatever the compiler lets through. The probe asks the
// compiler; where it says yes for a type that shares something unsynchronised, the workload does
// what safe code then could, for the race detectors to see.
use std::cell::Cell;
struct Probe<T>(std::marker::PhantomData<T>);
trait No {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T> No for Probe<T> {}
impl<T: Send> Probe<T> {
    const SEND: bool = true;
}
struct ProbeSync<T>(std::marker::PhantomData<T>);
impl<T> No for ProbeSync<T> {}
impl<T: Sync> ProbeSync<T> {
    const SYNC: bool = true;
}
// The same by value, for types that cannot be named here.
struct Of<T>(std::marker::PhantomData<T>);
trait NoOf {
    fn send(&self) -> bool {
        false
    }
    fn sync(&self) -> bool {
        false
    }
}
impl<T> NoOf for Of<T> {}
impl<T: Send> Of<T> {
    fn send(&self) -> bool {
        true
    }
}
struct OfSync<T>(std::marker::PhantomData<T>);
impl<T> NoOf for OfSync<T> {}
impl<T: Sync> OfSync<T> {
    fn sync(&self) -> bool {
        true
    }
}
fn of<T>(_: &T) -> Of<T> {
    Of(std::marker::PhantomData)
}
fn of_sync<T>(_: &T) -> OfSync<T> {
    OfSync(std::marker::PhantomData)
}
/// Runs the first in another thread while the second runs here.
fn beside<'a>(f: Box<dyn FnOnce() + 'a>, g: impl FnOnce()) {
    let f = Sent(f);
    std::thread::scope(|s| {
        s.spawn(move || (f.get())());
        g();
    });
}
struct Sent<T>(T);
unsafe impl<T> Send for Sent<T> {}
impl<T> Sent<T> {
    fn get(self) -> T {
        self.0
    }
}

pub fn case_sendable(seed: u64) -> Out {
    let mut rng = Rng::new(seed);
    let w = librrb::RRB_WIDTH;
    let mut info = Info::default();
    let n = rng.range(1, 3 * w);
    let rounds = rng.range(2, 6);
    macro_rules! note {
        ($what:expr, $yes:expr) => {{
            info.add(&format!("{}: {}", $what, if $yes { "admitted" } else { "not admitted" }), 1);
            $yes
        }};
    }
    type AF<'a> = librrb::ThreadSafeFocusMut<'a, Cell<u64>>;
    type AV = librrb::ThreadSafeVector<Cell<u64>>;
    type RV = librrb::RegularVector<u64>;
    let cells = || -> AV { (0..n as u64).map(Cell::new).collect() };
    if note!("sending a mutable focus over thread-safe cells", Probe::<AF<'static>>::SEND) {
        let mut v = cells();
        let c = v.clone();
        let f = Sent(v.focus_mut());
        std::thread::scope(|s| {
            s.spawn(move || {
                let mut f = f.get();
                for i in 0..n {
                    f.index(i).set(7);
                }
            });
            for i in 0..n {
                c.get(i).unwrap().set(9);
            }
        });
    }
    if note!("sending a thread-safe vector of cells", Probe::<AV>::SEND) {
        let v = cells();
        let c = Sent(v.clone());
        std::thread::scope(|s| {
            s.spawn(move || {
                let c = c.get();
                for i in 0..n {
                    c.get(i).unwrap().set(7);
                }
            });
            for i in 0..n {
                v.get(i).unwrap().set(9);
            }
        });
    }
    if note!("sharing a thread-safe vector of cells", ProbeSync::<AV>::SYNC) {
        let v = cells();
        let c = Sent(&v);
        std::thread::scope(|s| {
            s.spawn(move || {
                let c = c.get();
                for i in 0..n {
                    c.get(i).unwrap().set(7);
                }
            });
            for i in 0..n {
                v.get(i).unwrap().set(9);
            }
        });
    }
    if note!("sending a thread-safe focus over cells", Probe::<librrb::ThreadSafeFocus<'static, Cell<u64>>>::SEND) {
        let v = cells();
        let c = Sent(v.focus());
        std::thread::scope(|s| {
            s.spawn(move || {
                let mut c = c.get();
                for i in 0..n {
                    c.get(i).unwrap().set(7);
                }
            });
            for i in 0..n {
                v.get(i).unwrap().set(9);
            }
        });
    }
    if note!("sending a plain vector", Probe::<RV>::SEND) {
        let v: RV = (0..n as u64).collect();
        let c = Sent(v.clone());
        std::thread::scope(|s| {
            s.spawn(move || {
                let c = c.get();
                for _ in 0..rounds {
                    drop(c.clone());
                }
            });
            for _ in 0..rounds {
                drop(v.clone());
            }
        });
    }
    if note!("sharing a plain vector", ProbeSync::<RV>::SYNC) {
        let v: RV = (0..n as u64).collect();
        let c = Sent(&v);
        std::thread::scope(|s| {
            s.spawn(move || {
                let c = c.get();
                for _ in 0..rounds {
                    drop(c.clone());
                }
            });
            for _ in 0..rounds {
                drop(v.clone());
            }
        });
    }
    // What comes from a plain vector counts references without synchronisation. (Mutable foci and
    // iterators are a known finding, run by themselves.)
    {
        let x = (0..n as u64).collect::<RV>().into_iter();
        if note!("sending an owning iterator of a plain vector", of(&x).send()) {
            let v: RV = (0..n as u64).collect();
            let x = v.clone().into_iter();
            beside(Box::new(move || assert_eq!(x.count(), n)), || {
                for _ in 0..rounds {
                    drop(v.clone());
                }
                drop(v);
            });
        }
        let v: RV = (0..n as u64).collect();
        let x = v.clone().into_iter();
        if note!("sharing an owning iterator of a plain vector", of_sync(&x).sync()) {
            // Nothing is done through a shared reference but to ask for the length.
            let y = &x;
            beside(Box::new(move || assert_eq!(y.len(), n)), || assert_eq!(y.len(), n));
        }
        let x = v.iter();
        if note!("sending an iterator of a plain vector", of(&x).send()) {
            let x = v.iter();
            beside(Box::new(move || assert_eq!(x.clone().count() + x.count(), 2 * n)), || {
                for _ in 0..rounds {
                    drop(v.clone());
                }
            });
        }
        if note!("sharing an iterator of a plain vector", of_sync(&x).sync()) {
            let y = &x;
            beside(Box::new(move || assert_eq!(y.clone().count(), n)), || assert_eq!(y.clone().count(), n));
        }
        let x = v.focus();
        if note!("sending a focus of a plain vector", of(&x).send()) {
            let mut x = v.focus();
            beside(Box::new(move || {
                for i in 0..n {
                    assert_eq!(x.clone().get(i), x.get(i));
                }
            }), || {
                for _ in 0..rounds {
                    drop(v.clone());
                }
            });
        }
        if note!("sharing a focus of a plain vector", of_sync(&x).sync()) {
            let y = &x;
            beside(Box::new(move || assert_eq!(y.clone().get(n - 1), Some(&(n as u64 - 1)))), || assert_eq!(y.clone().get(n - 1), Some(&(n as u64 - 1))));
        }
        let mut w = v.clone();
        let g = w.get_mut_guarded(0).unwrap();
        if note!("sending a guard of a plain vector", of(&g).send()) {
            let mut g = g;
            beside(Box::new(move || {
                *g = 7;
                drop(g);
            }), || {
                for _ in 0..rounds {
                    drop(v.clone());
                }
            });
        }
    }
    // Nor may what gives access to cells from two threads be sent.
    {
        let v = cells();
        let set = |v: &AV| {
            for i in 0..n {
                v.get(i).unwrap().set(9);
            }
        };
        let x = v.clone().into_iter();
        if note!("sending an owning iterator over thread-safe cells", of(&x).send()) {
            // The elements are cloned out of leaves that are shared, while others write them.
            beside(Box::new(move || assert_eq!(x.count(), n)), || set(&v));
        }
        let x = v.iter();
        if note!("sending a thread-safe iterator over cells", of(&x).send()) {
            beside(Box::new(move || x.for_each(|c| c.set(7))), || set(&v));
        }
        let x = v.focus();
        if note!("sharing a thread-safe focus over cells", of_sync(&x).sync()) {
            let y = &x;
            beside(Box::new(move || (0..n).for_each(|i| y.clone().get(i).unwrap().set(7))), || set(&v));
        }
        let mut w = v.clone();
        if note!("sending a mutable iterator over thread-safe cells", of(&w.iter_mut()).send()) {
            // Taking it unshares nothing yet: the elements are cloned as it goes.
            let mut w = v.clone();
            let x = w.iter_mut();
            beside(Box::new(move || x.for_each(|c| c.set(7))), || set(&v));
        }
        let g = w.get_mut_guarded(0).unwrap();
        if note!("sharing a guard of a thread-safe vector of cells", of_sync(&g).sync()) {
            let y = &g;
            beside(Box::new(move || y.set(7)), || y.set(9));
        }
    }
    // And the other way round: what must be possible with thread-safe vectors.
    type SV = librrb::ThreadSafeVector<u64>;
    type SF = librrb::ThreadSafeFocusMut<'static, u64>;
    for (what, yes) in [
        ("sending a thread-safe vector", Probe::<SV>::SEND),
        ("sharing a thread-safe vector", ProbeSync::<SV>::SYNC),
        ("sending a thread-safe mutable focus", Probe::<SF>::SEND),
        ("sending a thread-safe focus", Probe::<librrb::ThreadSafeFocus<'static, u64>>::SEND),
        ("sending a thread-safe iterator", Probe::<librrb::ThreadSafeIter<'static, u64>>::SEND),
        ("sending a thread-safe mutable iterator", Probe::<librrb::ThreadSafeIterMut<'static, u64>>::SEND),
    ] {
        if !note!(what, yes) {
            return Out::Violated(format!("{} of u64 is not possible", what));
        }
    }
    let mut v: SV = (0..n as u64).collect();
    let x = v.clone().into_iter();
    let yes = of(&x).send();
    if !note!("sending a thread-safe owning iterator", yes) {
        return Out::Violated("sending a thread-safe owning iterator of u64 is not possible".into());
    }
    drop(x);
    let g = v.get_mut_guarded(0).unwrap();
    note!("sending a guard of a thread-safe vector", of(&g).send());
    drop(g);
    info.fp = mix(seed, n as u64);
    info.sample = format!("what can be sent, {} elements, seed {}", n, seed);
    Out::Held(info)
}
