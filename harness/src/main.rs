//! Workloads and monitors for librrb. `harness jobs` lists them; the driver is /verif/check.
mod base;
#[cfg(feature = "counted")]
mod counted;
mod profile;
mod threads;

#[allow(dead_code)]
mod rc {
    pub type V<A> = librrb::RegularVector<A>;
    pub type Fo<'a, A> = librrb::RegularFocus<'a, A>;
    pub type Fm<'a, A> = librrb::RegularFocusMut<'a, A>;
    pub const KIND: &str = "rc";
    macro_rules! literal {
        ($($x:tt)*) => { librrb::vector![$($x)*] };
    }
    include!("world.rs");
    include!("dedicated.rs");
    include!("special.rs");
    include!("drift.rs");
    #[cfg(feature = "counted")]
    include!("work.rs");
}
#[allow(dead_code)]
mod arc {
    pub type V<A> = librrb::ThreadSafeVector<A>;
    pub type Fo<'a, A> = librrb::ThreadSafeFocus<'a, A>;
    pub type Fm<'a, A> = librrb::ThreadSafeFocusMut<'a, A>;
    pub const KIND: &str = "arc";
    macro_rules! literal {
        ($($x:tt)*) => { librrb::vector_ts![$($x)*] };
    }
    include!("world.rs");
    include!("dedicated.rs");
    include!("special.rs");
    include!("drift.rs");
    #[cfg(feature = "counted")]
    include!("work.rs");
}

use base::*;
use profile::*;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};

#[global_allocator]
static GLOBAL: Counting = Counting;

type Case = Box<dyn Fn(u64) -> Out>;

const MIRI: bool = cfg!(miri);

fn prof(monitor: Monitor, owned: &'static [Class], weights: [usize; CLASSES]) -> Profile {
    if MIRI {
        return Profile { monitor, owned, weights, ops: (6, 14), max_len: 40 * librrb::RRB_WIDTH.min(10), slots: 3 };
    }
    Profile { monitor, owned, weights, ops: (10, 120), max_len: 6000, slots: 4 }
}

/// All jobs of a property: name and how to run one case.
fn jobs(prop: &str) -> Vec<(String, Case)> {
    let mut out: Vec<(String, Case)> = vec![];
    use Class::*;
    use Monitor::*;
    macro_rules! job {
        ($name:expr, $f:expr) => {
            out.push(($name.to_string(), Box::new($f)))
        };
    }
    macro_rules! worlds {
        ($p:expr, $($k:ident $t:ty),*) => {{
            let p = $p;
            $(
                let q = p.clone();
                let name = if p.max_len > 50_000 { "wide " } else if p.ops.0 == 100 { "long " } else { "" };
                job!(format!("{}{} {}", name, stringify!($k), <$t as Elem>::NAME), move |s| crate::$k::run_world::<$t>(s, &q));
            )*
        }};
    }
    // A few long programs on few elements and a few with long vectors, besides the usual ones.
    macro_rules! all_worlds {
        ($p:expr) => {{
            worlds!($p, rc u64, rc Tr, arc Box<u64>, rc Zst, arc String, rc Big, arc u8);
            if !MIRI {
                let mut l: Profile = $p;
                l.ops = (100, 600);
                l.max_len = 1500;
                worlds!(l.clone(), rc u64, arc Tr);
                l.ops = (4, 16);
                l.max_len = 120_000;
                worlds!(l, arc u64, rc Tr);
            }
        }};
    }
    let big = if MIRI { 60 } else { 6000 };
    match prop {
        "C01" => {
            all_worlds!(prof(Contents, &[Deque], [30, 15, 4, 4, 2, 1, 3, 2, 4, 0]));
            job!("long vectors rc", |s| rc::case_huge(s, rc::Huge::Deque));
        }
        "C02" => {
            all_worlds!(prof(Contents, &[Edit], [8, 40, 2, 4, 1, 0, 2, 1, 4, 0]));
            job!("long vectors rc", |s| rc::case_huge(s, rc::Huge::Edit));
            job!("long vectors arc", |s| arc::case_huge(s, arc::Huge::Edit));
        }
        "C03" => {
            all_worlds!(prof(Contents, &[Access], [8, 15, 30, 4, 1, 0, 4, 2, 4, 0]));
            job!("long vectors rc", |s| rc::case_huge(s, rc::Huge::Access));
        }
        "C04" => {
            all_worlds!(prof(Isolation, &[], [15, 18, 8, 14, 6, 2, 8, 4, 4, 0]));
            job!("long vectors rc", |s| rc::case_huge(s, rc::Huge::Isolation));
            job!("long vectors arc", |s| arc::case_huge(s, arc::Huge::Isolation));
        }
        "C05" => {
            all_worlds!(prof(Contents, &[Iter], [8, 12, 3, 5, 30, 0, 2, 1, 4, 0]));
            job!("long vectors rc", |s| rc::case_huge(s, rc::Huge::Iter));
        }
        "C06" => {
            all_worlds!(prof(Contents, &[Focus], [8, 12, 2, 4, 1, 30, 2, 1, 4, 0]));
            job!("long vectors rc", |s| rc::case_huge(s, rc::Huge::Focus));
            job!("long vectors arc", |s| arc::case_huge(s, arc::Huge::Focus));
        }
        "C07" => {
            all_worlds!(prof(Contents, &[FocusMut], [8, 12, 2, 8, 1, 0, 30, 1, 4, 0]));
            job!("long vectors rc", |s| rc::case_huge(s, rc::Huge::FocusMut));
            job!("long vectors arc", |s| arc::case_huge(s, arc::Huge::FocusMut));
        }
        "C08" => {
            job!("rc u64", move |s| rc::case_sort::<u64>(s, 3 * big));
            job!("rc tracked", move |s| rc::case_sort::<Tr>(s, big));
            job!("arc String", move |s| arc::case_sort::<String>(s, big / 2));
            job!("arc Box<u64>", move |s| arc::case_sort::<Box<u64>>(s, big));
            job!("rc adverse orders", move |s| rc::case_adverse(s, 20 + big / 12, false));
            if !MIRI {
                job!("big rc u64", |s| rc::case_sort::<u64>(s, 60_000));
            }
        }
        "C09" => {
            job!("rc u64 with String", move |s| rc::case_dual_rc::<u64>(s, big / 2));
            job!("rc u64 with tracked", move |s| rc::case_dual_arc::<u64>(s, big));
            job!("rc tracked with tracked", move |s| rc::case_dual_arc::<Tr>(s, big));
            job!("arc u64 with String", move |s| arc::case_dual_rc::<u64>(s, big / 2));
            job!("arc Box<u64> with tracked", move |s| arc::case_dual_arc::<Box<u64>>(s, big));
            if !MIRI {
                job!("big rc u64 with tracked", |s| rc::case_dual_arc::<u64>(s, 60_000));
            }
            job!("arc adverse orders", move |s| arc::case_adverse(s, 20 + big / 12, true));
        }
        "C10" => {
            job!("rc u64", move |s| rc::case_search::<u64>(s, big));
            job!("arc u64", move |s| arc::case_search::<u64>(s, big));
            job!("rc String", move |s| rc::case_search::<String>(s, big / 2));
            job!("rc Box<u64>", move |s| rc::case_search::<Box<u64>>(s, big));
            if !MIRI {
                job!("long vectors rc", |s| rc::case_huge_search(s));
                job!("long vectors arc", |s| arc::case_huge_search(s));
            }
        }
        "C11" => {
            all_worlds!(prof(Shape, &[], [20, 30, 1, 5, 1, 0, 2, 2, 5, 0]));
            job!("long vectors rc", |s| rc::case_huge(s, rc::Huge::Shape));
            job!("long vectors arc", |s| arc::case_huge(s, arc::Huge::Shape));
            job!("histories rc", |s| rc::case_drift(s, rc::Drift::Shape));
            job!("histories arc", |s| arc::case_drift(s, arc::Drift::Shape));
        }
        "C12" => {
            let p = prof(Ownership, &[], [15, 18, 6, 10, 10, 1, 8, 4, 4, 0]);
            worlds!(p, rc Tr, arc Tr, rc Zst, arc Zst, rc Big, arc String, rc Box<u64>);
            if !MIRI {
                let mut l: Profile = prof(Ownership, &[], [15, 18, 6, 10, 10, 1, 8, 4, 4, 0]);
                l.ops = (100, 600);
                l.max_len = 1500;
                worlds!(l.clone(), rc Tr);
                l.ops = (4, 16);
                l.max_len = 120_000;
                worlds!(l, arc Tr);
            }
        }
        "C13" => {
            let p = prof(Memory, &[], [15, 18, 6, 8, 12, 6, 12, 4, 4, 2]);
            worlds!(p, rc Box<u64>, rc Tr, arc String, arc Zst, rc Big, arc u8, rc u64);
            job!("rc sort Box", move |s| quiet(rc::case_sort::<Box<u64>>(s, big)));
            job!("rc dual sort Box", move |s| quiet(rc::case_dual_rc::<Box<u64>>(s, big / 3)));
            if !MIRI {
                let mut l: Profile = prof(Memory, &[], [15, 18, 6, 8, 12, 6, 12, 4, 4, 2]);
                l.ops = (4, 16);
                l.max_len = 120_000;
                worlds!(l, rc Box<u64>);
            }
            job!("rc panic", move |s| quiet(rc::case_panic(s, big / 3)));
            job!("rc hostile Box", move |s| rc::case_hostile::<Box<u64>>(s, big / 3));
            job!("arc hostile tracked", move |s| arc::case_hostile::<Tr>(s, big / 3));
            job!("rc search String", move |s| quiet(rc::case_search::<String>(s, big / 3)));
            job!("arc compare String", move |s| quiet(arc::case_compare::<String>(s, big / 3)));
        }
        "C13-itermut-both-ends" => job!("iter_mut from both ends", |_| threads::iter_mut_both_ends()),
        "C13-rc-focus-threads" => job!("rc foci in threads", |_| threads::rc_focus_threads()),
        "C14" => {
            // Box, String and u64 carry no synchronisation of their own.
            let (ops, mx, b) = if MIRI { (4, 40, 16) } else { (60, 2000, 400) };
            job!("clones u64", move |s| threads::case_clones::<u64>(s, mx, ops, if MIRI { 3 } else { 4 }));
            job!("clones Box", move |s| threads::case_clones::<Box<u64>>(s, mx, ops, if MIRI { 2 } else { 6 }));
            job!("focus Box", move |s| threads::case_focus::<Box<u64>>(s, mx, b));
            job!("focus u64", move |s| threads::case_focus::<u64>(s, mx, b));
            job!("pipeline String", move |s| threads::case_pipeline::<String>(s, mx / 2, ops));
            job!("clones tracked", move |s| threads::case_clones::<Tr>(s, if MIRI { 16 } else { mx }, ops, if MIRI { 2 } else { 4 }));
            job!("focus tracked", move |s| threads::case_focus::<Tr>(s, mx, b));
            job!("pipeline tracked", move |s| threads::case_pipeline::<Tr>(s, mx / 2, ops));
            job!("what can be sent", move |s| threads::case_sendable(s));
            job!("clones zero-sized", move |s| threads::case_clones::<Zst>(s, mx, ops, if MIRI { 2 } else { 4 }));
        }
        "C15" => {
            job!("rc", move |s| rc::case_panic(s, big / 4));
            job!("arc", move |s| arc::case_panic(s, big / 4));
            if !MIRI {
                job!("small rc", move |s| rc::case_panic(s, 80));
            }
        }
        "C16" => {
            job!("rc u64", move |s| rc::case_compare::<u64>(s, big));
            job!("arc u8", move |s| arc::case_compare::<u8>(s, big));
            job!("rc String", move |s| rc::case_compare::<String>(s, big / 3));
            job!("arc tracked", move |s| arc::case_compare::<Tr>(s, big));
            job!("rc zero-sized", move |s| rc::case_compare::<Zst>(s, big));
            if !MIRI {
                job!("wide rc u64", |s| rc::case_compare::<u64>(s, 100_000));
            }
            job!("partial order", |s| rc::case_partial(s));
        }
        "C17" => {
            for m in [3000usize, 20_000, 100_000, 400_000] {
                job!(format!("rc up to {}", m), move |s| rc::case_cost(s, m));
            }
            job!("arc up to 50000", |s| arc::case_cost(s, 50_000));
        }
        "C19" => {
            for i in 0..3 {
                job!(format!("rc {}", i), |s| rc::case_drift(s, rc::Drift::Space));
                job!(format!("arc {}", i), |s| arc::case_drift(s, arc::Drift::Space));
            }
        }
        #[cfg(feature = "counted")]
        "C18" => {
            for m in [300usize, 10_000, 100_000] {
                job!(format!("rc up to {}", m), move |s| rc::case_work(s, m, false));
            }
            job!("arc up to 20000", |s| arc::case_work(s, 20_000, false));
            job!("long vectors rc", |s| rc::case_work(s, 0, true));
            job!("long vectors arc", |s| arc::case_work(s, 0, true));
        }
        _ => {
            eprintln!("unknown property {}", prop);
            std::process::exit(2);
        }
    }
    out
}

/// Only what a sanitizer or the element monitors say counts.
fn quiet(o: Out) -> Out {
    match o {
        Out::Violated(m) => match reported() {
            Some(e) => Out::Violated(format!("{}: {}", m, e)),
            None => Out::Inconclusive(m),
        },
        o => o,
    }
}

fn cpu() -> f64 {
    if MIRI {
        return 0.0;
    }
    #[repr(C)]
    struct Ts(i64, i64);
    extern "C" {
        fn clock_gettime(id: i32, ts: *mut Ts) -> i32;
    }
    let mut t = Ts(0, 0);
    unsafe {
        clock_gettime(2, &mut t);
    }
    t.0 as f64 + t.1 as f64 / 1e9
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Total {
    cases: u64,
    held: u64,
    nontrivial: u64,
    inconclusive: u64,
    counts: BTreeMap<String, u64>,
    samples: Vec<String>,
    unclear: Vec<String>,
    violation: Option<(u64, String)>,
    fps: Vec<u64>,
}

fn live() -> (i64, i64) {
    (ALLOC_LIVE.load(SeqCst), ALLOC_BLOCKS.load(SeqCst))
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let num = |name: &str| opt(name).map(|x| x.parse::<u64>().expect("number"));
    let prop = args.get(1).cloned().unwrap_or_default();
    if args.first().map(|s| s.as_str()) == Some("jobs") {
        for (n, _) in jobs(&prop) {
            println!("{}", n);
        }
        return;
    }
    install_panic_hook();
    let job: usize = num("--job").unwrap_or(0) as usize;
    let (name, case) = {
        let mut j = jobs(&prop);
        let n = j.len();
        j.swap_remove(job % n)
    };
    let seed = num("--seed").unwrap_or(1);
    let first = num("--first").unwrap_or(0);
    let stride = num("--stride").unwrap_or(1);
    let count = num("--count").unwrap_or(u64::MAX);
    let budget = Duration::from_millis(num("--budget-ms").unwrap_or(u64::MAX / 4));
    let limit = num("--cpu-limit").unwrap_or(60) as f64;
    if let Some(p) = opt("--progress") {
        open_progress(&p);
    }
    if !MIRI {
        // A case that burns far more processor time than any case does is stuck.
        std::thread::spawn(move || {
            let (mut at, mut since) = (0, 0.0);
            loop {
                std::thread::sleep(Duration::from_millis(500));
                #[cfg(feature = "counted")]
                if let Some(m) = counted::overdue() {
                    println!("RESULT {{\"job\": \"\", \"cases\": 1, \"held\": 0, \"nontrivial\": 0, \"inconclusive\": 0, \"samples\": [], \"unclear\": [], \"counts\": {{}}, \"violation\": {{\"seed\": {}, \"msg\": {}}}}}", CASE.load(SeqCst), json(&m));
                    std::process::exit(0);
                }
                let (n, c) = (CASE_NO.load(SeqCst), cpu());
                if n != at {
                    at = n;
                    since = c;
                } else if c - since > limit {
                    println!("HANG {{\"seed\": {}, \"owned\": {}, \"cpu\": {:.1}}}", CASE.load(SeqCst), OWNED.load(SeqCst), c - since);
                    std::process::exit(97);
                }
            }
        });
    }
    let one = num("--one");
    let leak_check = prop == "C12";
    let run = move || {
        let mut t = Total::default();
        let t0 = Instant::now();
        let mut i = first;
        while t.cases < count && (t.cases == 0 || t0.elapsed() < budget) {
            let s = one.unwrap_or_else(|| mix(mix(seed, 0x5eed + job as u64), i) >> 1);
            i += stride;
            begin_case(s);
            let before = live();
            let mut o = case(s);
            if leak_check && !MIRI && matches!(o, Out::Held(_)) {
                if let Out::Held(info) = &mut o {
                    // What the report itself holds does not count.
                    info.sample.shrink_to_fit();
                    let keep = std::mem::take(info);
                    let (fp, trivial, counts, sample) = (keep.fp, keep.trivial, keep.counts, keep.sample);
                    let own: i64 = live().0 - before.0;
                    // Cheap filter: growth beyond what the report can hold, or confirm by running again.
                    let mut leaked = None;
                    if own > 0 {
                        let mut deltas = vec![];
                        for _ in 0..2 {
                            let a = live();
                            drop(case(s));
                            deltas.push(live().0 - a.0);
                        }
                        if deltas.iter().all(|d| *d > 0) {
                            leaked = Some(deltas);
                        }
                    }
                    *info = Info { fp, trivial, counts, sample };
                    info.add("heap balances checked", 1);
                    if let Some(d) = leaked {
                        let m = format!("{}: {:?} bytes of heap remain each time after everything was dropped", info.sample, d);
                        o = Out::Violated(m);
                    }
                }
            }
            t.cases += 1;
            match o {
                Out::Held(info) => {
                    t.held += 1;
                    if !info.trivial {
                        t.nontrivial += 1;
                        t.fps.push(info.fp);
                    }
                    if t.samples.len() < 2 && !info.trivial {
                        t.samples.push(info.sample);
                    }
                    for (k, n) in info.counts {
                        let e = t.counts.entry(k.clone()).or_insert(0);
                        if k.starts_with("max ") {
                            *e = (*e).max(n);
                        } else {
                            *e += n;
                        }
                    }
                }
                Out::Inconclusive(m) => {
                    t.inconclusive += 1;
                    if t.unclear.len() < 3 {
                        t.unclear.push(m);
                    }
                }
                Out::Violated(m) => {
                    t.violation = Some((s, m));
                    break;
                }
            }
            if one.is_some() {
                break;
            }
        }
        t
    };
    let t = if MIRI {
        run()
    } else {
        // The stack of an ordinary thread is what users have.
        std::thread::Builder::new().stack_size(8 << 20).spawn({
            struct W<F>(F);
            unsafe impl<F> Send for W<F> {}
            let w = W(run);
            move || {
                let w = w;
                (w.0)()
            }
        }).unwrap().join().unwrap()
    };
    if let Some(p) = opt("--fp") {
        let b: Vec<u8> = t.fps.iter().flat_map(|x| x.to_le_bytes()).collect();
        let _ = std::fs::write(p, b);
    }
    let list = |v: &[String]| format!("[{}]", v.iter().map(|s| json(s)).collect::<Vec<_>>().join(", "));
    let counts: Vec<String> = t.counts.iter().map(|(k, v)| format!("{}: {}", json(k), v)).collect();
    let viol = match &t.violation {
        Some((s, m)) => format!("{{\"seed\": {}, \"msg\": {}}}", s, json(m)),
        None => "null".into(),
    };
    println!(
        "RESULT {{\"job\": {}, \"cases\": {}, \"held\": {}, \"nontrivial\": {}, \"inconclusive\": {}, \"samples\": {}, \"unclear\": {}, \"counts\": {{{}}}, \"violation\": {}}}",
        json(&name), t.cases, t.held, t.nontrivial, t.inconclusive, list(&t.samples), list(&t.unclear), counts.join(", "), viol
    );
}
