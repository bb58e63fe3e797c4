// Included once per reference-counting kind, after special.rs; only in the "counted" variants.

// ================================================================ C18 work
use crate::counted;

/// Several times what the calls were seen to take, in the units given where they are made.
const FACTORS: [(&str, f64); 42] = [
    ("append", 300.0),
    ("clone", 450.0),
    ("collect", 550.0),
    ("collect into a Vec", 250.0),
    ("compare", 1000.0),
    ("constant_vec_of_length", 150.0),
    ("dual sort", 1500.0),
    ("extract_slice", 350.0),
    ("focus reads", 30.0),
    ("focus reads in a row", 180.0),
    ("focus_mut writes", 30.0),
    ("front_mut and back_mut", 10.0),
    ("get and index", 65.0),
    ("get_mut", 50.0),
    ("hash", 250.0),
    ("insert", 300.0),
    ("iterate", 300.0),
    ("iterate and write", 200.0),
    ("iterate backwards", 250.0),
    ("iterate by value", 300.0),
    ("iterate from both ends", 20.0),
    ("iterate with fold", 300.0),
    ("len, is_empty, front, back", 200.0),
    ("narrow and split a focus", 200.0),
    ("one pop_back", 60.0),
    ("one pop_front", 60.0),
    ("one push_back", 50.0),
    ("one push_front", 50.0),
    ("pop_back again and again", 220.0),
    ("pop_front again and again", 220.0),
    ("push_back again and again", 220.0),
    ("push_front again and again", 220.0),
    ("remove", 400.0),
    ("reverse", 200.0),
    ("reverse_range", 200.0),
    ("search", 55.0),
    ("slice_from_start", 250.0),
    ("slice_to_end", 300.0),
    ("sort", 900.0),
    ("split a focus_mut", 150.0),
    ("split_off", 250.0),
    ("write through a focus_mut in a row", 200.0),
];

struct Work {
    info: Info,
    head: String,
    log: String,
    bad: Option<String>,
}
impl Work {
    /// Runs f and compares the regions it executes with the bound; None: it panicked.
    fn run<T>(&mut self, name: &str, detail: String, unit: f64, f: impl FnOnce() -> T) -> Option<T> {
        let c = FACTORS.iter().find(|x| x.0 == name).map_or(0.0, |x| x.1);
        let bound = c * unit;
        phase(true);
        let a = counted::start(format!("{}: {} ({}), {}", self.head, name, detail, self.log), bound);
        let r = guard(f);
        let n = counted::stop(a);
        phase(false);
        match r {
            Ok(x) => {
                self.info.max(&format!("regions by {}", name), n);
                self.info.max(&format!("percent of the bound used by {}", name), (100.0 * n as f64 / bound) as u64);
                self.info.add("calls measured", 1);
                if n as f64 > bound && self.bad.is_none() {
                    self.bad = Some(format!("{}: {} ({}) executed {} code regions (bound {:.0}); {}", self.head, name, detail, n, bound, self.log));
                }
                self.log = format!("after {} ({})", name, detail);
                Some(x)
            }
            Err(e) => {
                self.log = format!("{} ({}) failed: {}", name, detail, e);
                None
            }
        }
    }
}

/// A vector far longer than memory holds elements: one appended to itself over and over.
fn grown(rng: &mut Rng, bits: usize) -> V<u64> {
    let k = rng.range(1, 3000);
    let mut v: V<u64> = (0..k as u64).collect();
    while v.len() >> bits == 0 {
        match rng.below(6) {
            0 => v.push_back(1),
            1 => v.push_front(2),
            2 => v.append((0..rng.below(200) as u64).collect()),
            3 => {
                let p = rng.below(v.len());
                v.insert(p, 3);
            }
            _ => v.append(v.clone()),
        }
    }
    v
}

pub fn case_work(seed: u64, max: usize, long: bool) -> Out {
    reset_monitors();
    phase(false);
    let mut rng = Rng::new(seed);
    let w = librrb::RRB_WIDTH as f64;
    // Growing one has to be fast as well, though this only says that it ends.
    let bits = rng.range(16, 40);
    let n = 1 + rng.below(max);
    let tall = bits as f64 / (w / 2.0).log2() + 3.0;
    let bound = if long { 250.0 * bits as f64 * tall * w * w } else { 1e5 * w * w + 5e3 * n as f64 };
    phase(true);
    let from = counted::start(format!("{} of u64, width {}, seed {}: building the vector", KIND, librrb::RRB_WIDTH, seed), bound);
    let made = guard(|| {
        if long {
            grown(&mut rng, bits)
        } else {
            let vals: Vec<u64> = (0..n as u64).collect();
            build_shaped::<u64>(&mut rng, &vals, 0)
        }
    });
    let grew = counted::stop(from) as f64;
    phase(false);
    let mut v = match made {
        Ok(v) if v.len() > 0 => v,
        Ok(_) => return Out::Inconclusive("the vector under test came out wrong".into()),
        Err(e) => return Out::Inconclusive(e),
    };
    let mut fp = mix(seed, v.len() as u64);
    let mut wk = Work { info: Info::default(), head: format!("{} of u64, width {}, seed {}", KIND, librrb::RRB_WIDTH, seed), log: String::new(), bad: None };
    wk.info.max("percent of the bound used by building", (100.0 * grew / bound) as u64);
    let rounds = rng.range(4, 16);
    let mut longest = v.len();
    for _ in 0..rounds {
        if v.len() < 2 || wk.bad.is_some() {
            break;
        }
        let n = v.len();
        let nf = n as f64;
        // A piece of a long vector may be as tall as that.
        longest = longest.max(n);
        let h = ((longest as f64).ln() / (w / 2.0).ln()).ceil().max(0.0) + 2.0;
        // What walking down one path, and rearranging the nodes along two spines, may take.
        let path = h * (w + 24.0);
        let join = h * w * w;
        let linear = nf + 10.0 * path;
        // One after the other: amortised over a leaf's elements.
        let burst = |k: f64| k * (1.0 + 8.0 / w) + path;
        let keep = if rng.chance(1, 2) {
            wk.run("clone", format!("length {}", n), h, || v.clone())
        } else {
            None
        };
        let state = if keep.is_some() { "shared" } else { "unshared" };
        let at = rng.position(n - 1);
        let op = rng.below(if long { 24 } else { 39 });
        fp = mix(fp, (op as u64) << 1 | keep.is_some() as u64);
        fp = mix(fp, at as u64);
        let d = format!("{} vector of {} at {}", state, n, at);
        let k = 1 + if rng.chance(1, 4) { rng.below(4000) } else { rng.below(400) };
        let kf = k as f64;
        let mut sum = 0u64;
        let ok = match op {
            0 => wk.run("len, is_empty, front, back", d, 1.0, || (v.len(), v.is_empty(), v.front().is_some(), v.back().is_some())).is_some(),
            1 => wk.run("get and index", d, path, || (v.get(at).copied(), v[at])).is_some(),
            2 => wk.run("get_mut", d, path, || *v.get_mut(at).unwrap() = 1).is_some(),
            3 => wk.run("front_mut and back_mut", d, path, || { *v.front_mut().unwrap() = 1; *v.back_mut().unwrap() = 2; }).is_some(),
            4 => wk.run("one push_back", d, path, || v.push_back(1)).is_some(),
            5 => wk.run("one push_front", d, path, || v.push_front(1)).is_some(),
            6 => wk.run("one pop_back", d, path, || v.pop_back()).is_some(),
            7 => wk.run("one pop_front", d, path, || v.pop_front()).is_some(),
            8 => wk.run("focus reads", format!("{} of {}", k, d), (kf + 1.0) * path, || {
                let mut f = v.focus();
                for _ in 0..k { sum += *f.index(rng.below(n)); }
            }).is_some(),
            9 => {
                let k = k.min(n);
                let from = rng.below(n - k + 1);
                wk.run("focus reads in a row", format!("{} from {} of {}", k, from, d), burst(kf), || {
                    let mut f = v.focus();
                    for i in from..from + k { sum += *f.index(i); }
                }).is_some()
            }
            10 => wk.run("split_off", d, path, || v.split_off(at)).map(|x| if rng.chance(1, 2) { v = x }).is_some(),
            11 => wk.run("append", d, join, || match &keep { Some(k) if n < 1 << 50 => v.append(k.clone()), _ => v.append((0..100).collect()) }).is_some(),
            12 => wk.run("insert", d, join, || v.insert(at, 7)).is_some(),
            13 => wk.run("remove", d, join, || v.remove(at)).is_some(),
            14 => wk.run("extract_slice", d, join, || v.extract_slice(at..at + (n - at) / 2)).map(|x| if rng.chance(1, 3) { v = x }).is_some(),
            15 => {
                // What is cut off is dropped, unless it is shared.
                let cut = path + if keep.is_some() { 0.0 } else if long { 30_000.0 } else { nf };
                let r = if rng.chance(1, 2) { wk.run("slice_from_start", d, cut, || v.slice_from_start(at)) } else { wk.run("slice_to_end", d, cut, || v.slice_to_end(at)) };
                r.is_some()
            }
            16 => {
                let bound = burst(k as f64);
                wk.run("push_back again and again", format!("{} on {}", k, d), bound, || for i in 0..k { v.push_back(i as u64) }).is_some()
            }
            17 => {
                let bound = burst(k as f64);
                wk.run("push_front again and again", format!("{} on {}", k, d), bound, || for i in 0..k { v.push_front(i as u64) }).is_some()
            }
            18 => {
                let k = k.min(n - 1);
                let bound = burst(k as f64);
                let back = rng.chance(1, 2);
                wk.run(if back { "pop_back again and again" } else { "pop_front again and again" }, format!("{} of {}", k, d), bound, || for _ in 0..k { if back { v.pop_back(); } else { v.pop_front(); } }).is_some()
            }
            19 => {
                let (a, b) = (at.min(n / 2), at.max(n / 2));
                wk.run("narrow and split a focus", d, path, || {
                    let mut f = v.focus();
                    f.narrow(a..b);
                    let m = f.len() / 2;
                    if f.is_empty() { return; }
                    let (mut l, mut r) = f.split_at(m);
                    sum += l.get(0).copied().unwrap_or(0) + r.get(0).copied().unwrap_or(0);
                }).is_some()
            }
            20 => wk.run("focus_mut writes", format!("{} of {}", k, d), (kf + 1.0) * path, || {
                let mut f = v.focus_mut();
                for _ in 0..k { *f.index(rng.below(n)) = 5; }
            }).is_some(),
            21 => wk.run("split a focus_mut", d, path, || {
                let mut f = v.focus_mut();
                let (mut l, mut r) = f.split_at(at);
                if let Some(x) = l.get(0) { *x = 1; }
                if let Some(x) = r.get(0) { *x = 1; }
            }).is_some(),
            22 => wk.run("constant_vec_of_length", format!("{}", n), h * join, || V::<u64>::constant_vec_of_length(3, n)).map(|x| if long && rng.chance(1, 3) { v = x }).is_some(),
            23 => {
                // Runs of equal elements, now and then where a bisection hits their edge at once.
                let part = |rng: &mut Rng| [0, n, n / 2, at, 2 * n][rng.below(5)];
                let parts = [part(&mut rng), part(&mut rng), part(&mut rng)];
                let mut x = V::<u64>::constant_vec_of_length(1, parts[0]);
                x.append(V::constant_vec_of_length(2, parts[1]));
                x.append(V::constant_vec_of_length(4, parts[2]));
                let q = 1 + rng.below(4) as u64;
                let unit = ((x.len() as f64 + 2.0).log2() + 1.0) * path;
                wk.run("search", format!("for {} among {:?} ones, twos and fours", q, parts), unit, || (x.equal_range(&q), x.between_range(Bound::Included(&q), Bound::Unbounded))).is_some()
            }
            24 => wk.run("iterate", d, linear, || for x in v.iter() { sum += *x }).is_some(),
            25 => wk.run("iterate backwards", d, linear, || for x in v.iter().rev() { sum += *x }).is_some(),
            26 => wk.run("iterate from both ends", d, nf * path, || {
                let mut i = v.iter();
                while let Some(x) = if rng.chance(1, 2) { i.next() } else { i.next_back() } { sum += *x }
            }).is_some(),
            27 => wk.run("iterate and write", d, linear, || for x in v.iter_mut() { *x += 1 }).is_some(),
            28 => {
                let x = v.clone();
                wk.run("iterate by value", d, linear, || for x in x { sum += x }).is_some()
            }
            29 => wk.run("write through a focus_mut in a row", d, linear, || {
                let mut f = v.focus_mut();
                for i in 0..n { *f.index(i) = i as u64 }
            }).is_some(),
            30 => {
                let x: V<u64> = v.iter().copied().collect();
                wk.run("compare", d, linear, || (v == x, v.cmp(&x))).is_some()
            }
            31 => wk.run("hash", d, linear, || {
                use std::hash::{Hash, Hasher};
                let mut s = std::collections::hash_map::DefaultHasher::new();
                v.hash(&mut s);
                s.finish()
            }).is_some(),
            32 => wk.run("collect", d, linear, || v.iter().copied().collect::<V<u64>>()).is_some(),
            33 => wk.run("collect into a Vec", d, linear, || v.iter().copied().collect::<Vec<u64>>()).is_some(),
            34 => wk.run("reverse", d, linear, || v.reverse()).is_some(),
            35 => wk.run("iterate with fold", d, linear, || v.iter().fold(0u64, |a, x| a.wrapping_add(*x))).is_some(),
            36 => {
                let r = wk.run("sort", d.clone(), (nf.log2() + 1.0) * linear, || v.sort_by(&|a: &u64, b: &u64| a.cmp(b)));
                let q = v.get(at).copied().unwrap_or(0);
                r.is_some() && wk.run("search", d, (nf.log2() + 1.0) * path, || v.equal_range(&q)).is_some()
            }
            37 => {
                let mut o: V<u64> = (0..n as u64).collect();
                wk.run("dual sort", d, (nf.log2() + 1.0) * linear, || v.dual_sort_by(&|a: &u64, b: &u64| a.cmp(b), &mut o)).is_some()
            }
            _ => {
                let (a, b) = (at.min(n / 2), at.max(n / 2));
                wk.run("reverse_range", format!("{}..{} of {}", a, b, d), (b - a) as f64 + 10.0 * path, || v.reverse_range(a..b)).is_some()
            }
        };
        if !ok {
            return Out::Inconclusive(wk.log);
        }
        std::hint::black_box(sum);
        if long && v.len() > 1 << 50 {
            v.slice_from_start(1 << 40);
        }
    }
    if let Some(m) = wk.bad {
        return Out::Violated(m);
    }
    let mut info = wk.info;
    info.fp = fp;
    info.max("length", longest as u64);
    info.sample = format!("{}: up to {} elements, {} calls", wk.head, longest, rounds);
    Out::Held(info)
}
