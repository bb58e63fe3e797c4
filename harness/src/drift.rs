// Included once per reference-counting kind, after special.rs.

// ================================================================ C11, C19: long histories
#[derive(Clone, Copy, PartialEq)]
pub enum Drift {
    Shape,
    Space,
}

/// Where a long history keeps going back to.
enum Place {
    Anywhere,
    Fixed(usize),
    FromEnd(usize),
    Part(usize, usize),
    Sweep(usize, usize),
    Around(usize, usize),
}
impl Place {
    fn new(rng: &mut Rng, n: usize) -> Place {
        let w = librrb::RRB_WIDTH;
        match rng.below(8) {
            0 | 1 => Place::Anywhere,
            2 => Place::Fixed(1 + rng.below(3 * w)),
            3 => Place::FromEnd(1 + rng.below(3 * w)),
            4 | 5 => Place::Part(rng.range(1, 9), 10),
            6 => Place::Sweep(rng.below(n + 1), [1, 2, w - 1, w, w + 1, 7 * w + 3][rng.below(6)]),
            _ => Place::Around(rng.below(n + 1), rng.range(2, 4 * w)),
        }
    }
    fn pick(&mut self, rng: &mut Rng, n: usize) -> usize {
        match self {
            Place::Anywhere => rng.below(n + 1),
            Place::Fixed(p) => (*p).min(n),
            Place::FromEnd(p) => n - (*p).min(n),
            Place::Part(a, b) => n * *a / *b,
            Place::Sweep(p, d) => {
                *p = (*p + *d) % (n + 1);
                *p
            }
            Place::Around(p, d) => (*p + rng.below(*d)).min(n),
        }
    }
}

fn fresh(k: usize) -> V<u64> {
    (0..k as u64).collect()
}

const RECIPES: [&str; 20] = [
    "slices to an end", "slices elsewhere", "rotate", "append small, cut the front", "prepend small, cut the back", "insert, drop the back", "insert, drop the front",
    "split, push, join", "remove and push", "queue", "queue backwards", "three parts reversed", "in pieces, joined in pairs", "in pieces, joined in order",
    "splice a shared slice", "double and cut", "insert only", "thin out and refill", "drain and refill", "read, write, sort",
];

/// One step of a recipe on a vector of n elements that is to stay about that long.
fn drift_step(recipe: usize, v: &mut V<u64>, cap: usize, k: usize, place: &mut Place, rng: &mut Rng) {
    let n = v.len();
    let p = place.pick(rng, n);
    let c = 1 + rng.below(k);
    match recipe {
        0 => {
            let x = v.extract_slice(p..(p + c).min(n));
            if rng.chance(1, 2) { v.append(x) } else { v.prepend(x) }
        }
        1 => {
            let x = v.extract_slice(p..(p + c).min(n));
            let q = rng.below(v.len() + 1);
            let t = v.split_off(q);
            v.append(x);
            v.append(t);
        }
        2 => {
            let mut t = v.split_off(p);
            t.append(std::mem::replace(v, V::new()));
            *v = t;
        }
        3 => {
            v.append(fresh(c));
            v.slice_to_end((n + c).saturating_sub(cap));
        }
        4 => {
            v.prepend(fresh(c));
            v.slice_from_start(cap);
        }
        5 => {
            v.insert(p, 1);
            if n >= cap { v.pop_back(); }
        }
        6 => {
            v.insert(p, 1);
            if n >= cap { v.pop_front(); }
        }
        7 => {
            let mut t = v.split_off(p);
            for _ in 0..c {
                if rng.chance(1, 2) { v.push_back(2) } else { t.push_front(3) }
            }
            v.append(t);
            v.slice_from_start(cap);
        }
        8 => {
            if p < n { v.remove(p); }
            if n < cap { v.push_back(4); }
        }
        9 => {
            for _ in 0..c {
                v.push_back(5);
                v.pop_front();
            }
        }
        10 => {
            for _ in 0..c {
                v.push_front(6);
                v.pop_back();
            }
        }
        11 => {
            let mut t = v.split_off(p);
            let q = rng.below(t.len() + 1);
            let mut u = t.split_off(q);
            u.append(t);
            u.append(std::mem::replace(v, V::new()));
            *v = u;
        }
        12 | 13 => {
            let mut q: VecDeque<V<u64>> = VecDeque::new();
            while !v.is_empty() {
                let c = (1 + rng.below(k)).min(v.len()).max(v.len() / 300);
                let t = v.split_off(c);
                q.push_back(std::mem::replace(v, t));
            }
            let back = rng.chance(1, 2);
            while q.len() > 1 {
                if recipe == 12 {
                    let (mut a, b) = (q.pop_front().unwrap(), q.pop_front().unwrap());
                    a.append(b);
                    q.push_back(a);
                } else if back {
                    let mut b = q.pop_back().unwrap();
                    b.prepend(q.pop_back().unwrap());
                    q.push_back(b);
                } else {
                    let mut a = q.pop_front().unwrap();
                    a.append(q.pop_front().unwrap());
                    q.push_front(a);
                }
            }
            *v = q.pop_back().unwrap_or_else(V::new);
        }
        14 => {
            let x = v.clone().extract_slice(p..(p + c).min(n));
            let q = rng.below(n + 1);
            let t = v.split_off(q);
            v.append(x);
            v.append(t);
            let d = v.len().saturating_sub(cap);
            let s = rng.below(n + 1).min(v.len() - d);
            v.extract_slice(s..s + d);
        }
        15 => {
            let x = v.clone();
            v.append(x);
            v.slice_to_end(p);
            v.slice_from_start(cap);
        }
        16 => {
            v.insert(p, 7);
            // Starts again with half of them.
            if n > 2 * cap { v.slice_to_end(3 * cap / 2); }
        }
        17 => {
            if n > cap / 10 { v.extract_slice(p..(p + c.min(1 + n / 8)).min(n)); } else { *v = fresh(cap); }
        }
        18 => {
            if n > cap / 50 + 2 && rng.chance(15, 16) {
                for _ in 0..(n / 2).min(4 * c) {
                    if rng.chance(1, 2) { v.pop_back(); } else { v.pop_front(); }
                }
            } else {
                while v.len() < cap {
                    match rng.below(3) {
                        0 => v.push_back(8),
                        1 => v.push_front(9),
                        _ => v.append(fresh(c)),
                    }
                }
            }
        }
        _ => {
            match rng.below(6) {
                0 => {
                    let mut s = 0u64;
                    for x in v.iter() { s = s.wrapping_add(*x); }
                    std::hint::black_box(s);
                }
                1 => for x in v.iter_mut() { *x ^= 1; },
                2 => {
                    let mut f = v.focus_mut();
                    for _ in 0..c {
                        if n > 0 { *f.index(rng.below(n)) += 1; }
                    }
                }
                3 => if n > 0 { *v.get_mut(rng.below(n)).unwrap() = 3; },
                4 => v.reverse(),
                _ => if n < 500 { v.sort() } else { v.reverse_range(p..) },
            }
        }
    }
    // A recipe may use up the elements.
    if v.len() < 2 {
        v.append(fresh(cap));
    }
}

/// What a new vector of n elements holds in memory.
fn space_of_new(n: usize) -> f64 {
    let before = ALLOC_LIVE.load(Relaxed);
    let v = fresh(n);
    let r = ALLOC_LIVE.load(Relaxed) - before;
    drop(v);
    r as f64
}

pub fn case_drift(seed: u64, what: Drift) -> Out {
    reset_monitors();
    let mut rng = Rng::new(seed);
    let w = librrb::RRB_WIDTH;
    let cap = match rng.below(6) {
        0 => rng.range(2, 3 * w),
        1 | 2 => rng.range(w, 10 * w),
        3 | 4 => rng.range(10 * w, 40 * w),
        _ => rng.range(40 * w, 200 * w),
    };
    let many = 1 + rng.below(3);
    let mut plan: Vec<(usize, usize, Place)> = vec![];
    for _ in 0..many {
        let r = rng.below(RECIPES.len());
        let k = match rng.below(4) {
            0 => rng.range(1, 4),
            1 => rng.range(1, 20),
            2 => rng.range(1, 3 * w),
            _ => rng.range(1, 1 + cap / 2),
        };
        plan.push((r, k, Place::new(&mut rng, cap)));
    }
    let names: Vec<&str> = plan.iter().map(|p| RECIPES[p.0]).collect();
    let head = format!("{} of u64, width {}, seed {}: about {} elements, {} (by up to {:?})", KIND, w, seed, cap, names.join(" and "), plan.iter().map(|p| p.1).collect::<Vec<_>>());
    let steps = (if cfg!(debug_assertions) { 4_000_000 } else { 20_000_000 } / (cap + 1000)).min(6000) * (1 + rng.below(3)) / if plan.iter().any(|p| matches!(p.0, 12 | 13)) { 20 } else { 1 };
    let every = (steps / 60).clamp(1, 40);
    let mut info = Info::default();
    let mut fp = seed;
    phase(false);
    let unit = space_of_new(50 * w) / 50.0;
    let base = ALLOC_LIVE.load(Relaxed);
    let mut v = fresh(cap);
    let mut longest = cap;
    let mut run = 0;
    let mut turn = 0;
    for step in 0..steps {
        if run == 0 {
            turn = rng.below(many);
            let most = if rng.chance(1, 3) { 400 } else { 5 };
            run = 1 + rng.below(most);
        }
        run -= 1;
        let (r, k, place) = &mut plan[turn];
        if let Err(e) = guard(|| drift_step(*r, &mut v, cap, *k, place, &mut rng)) {
            return Out::Inconclusive(format!("{}: step {}: {}", head, step, e));
        }
        let n = v.len();
        longest = longest.max(n);
        fp = mix(fp, n as u64);
        if (step + 1) % every == 0 || step + 1 == steps {
            phase(true);
            if what == Drift::Shape {
                match guard(|| check_shape(&v, n, longest, step, &mut info)) {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) | Err(e) => return Out::Violated(format!("{}: after {} steps: {}", head, step + 1, e)),
                }
            } else {
                let live = (ALLOC_LIVE.load(Relaxed) - base) as f64;
                // The root and the spine nodes may have children that are almost empty.
                let levels = 2.0 + (longest.max(2) as f64).ln() / (w as f64 / 2.0).ln();
                let bound = 4.0 * space_of_new(n) + (30.0 + 2.0 * w as f64) * levels * unit;
                info.max("percent of a new vector held, by more than 40 nodes of elements", if n < 40 * w { 0 } else { (100.0 * live / space_of_new(n)) as u64 });
                info.add("sizes checked", 1);
                info.max("percent of the bound held", (100.0 * live / bound) as u64);
                info.max(&format!("percent of the bound held after {}", RECIPES[*r]), (100.0 * live / bound) as u64);
                info.max("bytes held", live as u64);
                if live > bound {
                    return Out::Violated(format!("{}: after {} steps {} elements, of at most {}, hold {} bytes (bound {:.0})", head, step + 1, n, longest, live, bound));
                }
            }
            phase(false);
        }
    }
    info.add("steps of long histories", steps as u64);
    info.max("steps in one history", steps as u64);
    info.max("max length", longest as u64);
    for n in names {
        info.add(&format!("histories that {}", n), 1);
    }
    info.fp = fp;
    info.trivial = steps < 100 && !plan.iter().any(|p| matches!(p.0, 12 | 13));
    info.sample = format!("{}; {} steps", head, steps);
    Out::Held(info)
}
