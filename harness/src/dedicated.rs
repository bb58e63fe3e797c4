// Included once per reference-counting kind, after world.rs.
use std::cmp::Ordering as O;

/// A vector of about `n` elements whose tree is irregular, with its contents (by popping).
/// The values are given; None if the vector could not be built as wanted (not this check's concern).
pub fn shaped<E: Elem>(rng: &mut Rng, vals: &[u64]) -> Result<V<E>, String> {
    let r = guard(|| build_shaped::<E>(rng, vals, 0));
    match r {
        Ok(v) => match obs_drain(&v, false) {
            Ok(d) => match diff(&d, &vals.iter().map(|x| E::norm(*x)).collect::<Vec<_>>()) {
                None => Ok(v),
                Some(e) => Err(format!("the vector under test came out wrong: {}", e)),
            },
            Err(e) => Err(format!("the vector under test cannot be popped: {}", e)),
        },
        Err(e) => Err(format!("the vector under test could not be built: {}", e)),
    }
}
fn build_shaped<E: Elem>(rng: &mut Rng, vals: &[u64], depth: usize) -> V<E> {
    let n = vals.len();
    let how = if depth > 6 || n < 2 { 0 } else { rng.below(8) };
    match how {
        0 | 1 => vals.iter().map(|x| E::mk(*x)).collect(),
        2 => {
            let mut v = V::new();
            for x in vals.iter().rev() {
                v.push_front(E::mk(*x));
            }
            v
        }
        3 | 4 => {
            let p = rng.position(n);
            let mut a: V<E> = build_shaped(rng, &vals[..p], depth + 1);
            let b = build_shaped(rng, &vals[p..], depth + 1);
            a.append(b);
            a
        }
        5 => {
            // Too much at both ends, cut off again.
            let extra = rng.below(3 * librrb::RRB_WIDTH);
            let mut v: V<E> = build_shaped(rng, vals, depth + 1);
            for i in 0..extra {
                v.push_back(E::mk(i as u64));
                v.push_front(E::mk(i as u64));
            }
            v.slice_from_start(n + extra);
            v.slice_to_end(extra);
            v
        }
        6 => {
            // Small runs glued together.
            let mut v: V<E> = V::new();
            let mut at = 0;
            let step = 1 + rng.below(2 * librrb::RRB_WIDTH) + n / 60;
            while at < n {
                let k = (1 + rng.below(step)).min(n - at);
                v.append(vals[at..at + k].iter().map(|x| E::mk(*x)).collect());
                at += k;
            }
            v
        }
        _ => {
            let mut v: V<E> = build_shaped(rng, vals, depth + 1);
            for _ in 0..rng.below(8) {
                if v.is_empty() {
                    break;
                }
                let p = rng.position(n - 1);
                v.remove(p);
                v.insert(p, E::mk(vals[p]));
            }
            v
        }
    }
}

pub fn size(rng: &mut Rng, max: usize) -> usize {
    let w = librrb::RRB_WIDTH;
    let n = match rng.below(12) {
        0 => rng.below(4),
        1 => w - 1 + rng.below(3),
        2 => 2 * w - 1 + rng.below(3),
        3..=6 => rng.below(4 * w),
        7..=9 => rng.below(w * w / 2 + 1),
        10 => rng.below(w * w + w),
        _ => rng.below(max + 1),
    };
    n.min(max)
}

/// Key patterns: what is sorted.
pub fn pattern(rng: &mut Rng, n: usize) -> (Vec<u64>, &'static str) {
    let k = rng.below(15);
    // Lengths at which the tree has its joints
    let w = librrb::RRB_WIDTH as u64;
    let block = [w / 2, w, w, w, 2 * w, w * w, w + 1, w - 1][rng.below(8)].max(1);
    let phase_shift = if rng.chance(1, 2) { 0 } else { rng.next() % block };
    let d = 1 + rng.below(n + 1) as u64;
    let small = 1 + rng.below(5) as u64;
    let name = ["random", "ascending", "descending", "constant", "few values", "organ pipe", "sawtooth", "min repeated", "max repeated", "nearly sorted", "one odd", "some ties", "sorted blocks", "reversed blocks", "blocks in place"][k];
    let v: Vec<u64> = (0..n)
        .map(|i| {
            let i = i as u64;
            match k {
                0 => rng.next() >> 40,
                1 => i,
                2 => n as u64 - i,
                3 => 7,
                4 => rng.next() % small,
                5 => i.min(n as u64 - i),
                6 => i % d,
                7 => if rng.chance(2, 3) { 0 } else { rng.next() >> 40 },
                8 => if rng.chance(2, 3) { 1 << 30 } else { rng.next() >> 40 },
                9 => if rng.chance(1, 20) { rng.next() % (n as u64) } else { i },
                10 => 5,
                11 => rng.next() % d,
                // Ascending within each block, the blocks descending
                12 => (n as u64 - (i + phase_shift) / block) * 1_000_000 % (1 << 39) + i % block,
                // Descending within each block, the blocks ascending
                13 => (i + phase_shift) / block * 2 * block + (block - (i + phase_shift) % block),
                // All blocks equal
                _ => (i + phase_shift) % block,
            }
        })
        .collect();
    let mut v = v;
    if k == 10 && n > 0 {
        let p = rng.position(n - 1);
        v[p] = if rng.chance(1, 2) { 9 } else { 2 };
    }
    (v, name)
}

// ================================================================ C08 sorting
pub fn case_sort<E: Elem>(seed: u64, max: usize) -> Out {
    reset_monitors();
    let mut rng = Rng::new(seed);
    let n = size(&mut rng, max);
    let (keys, pat) = pattern(&mut rng, n);
    // Value: key and a unique part, so that every element is identifiable.
    let vals: Vec<u64> = keys.iter().enumerate().map(|(i, k)| k << 24 | i as u64).collect();
    let mut v: V<E> = match shaped(&mut rng, &vals) {
        Ok(v) => v,
        Err(e) => return Out::Inconclusive(e),
    };
    let (a, b) = if rng.chance(1, 3) { (0, n) } else { rng.subrange(n) };
    let (lo, hi) = bounds(&mut rng, a, b, n);
    let m = b - a;
    let calls = std::cell::Cell::new(0u64);
    let limit = 20_000 + 60 * m as u64 * (64 - (m as u64 + 2).leading_zeros() as u64);
    let tick = || {
        calls.set(calls.get() + 1);
        if calls.get() > limit {
            panic!("more than {} comparisons or key calls", limit);
        }
    };
    let whole = a == 0 && b == n;
    phase(true);
    let how = rng.below(6);
    let shift = rng.below(8) as u32;
    let shared = if rng.chance(1, 2) { Some(v.clone()) } else { None };
    let cmp_nat = |x: &u64, y: &u64| E::mk(*x).cmp(&E::mk(*y));
    let _ = cmp_nat;
    // (call, comparison it should obey on values)
    let key = move |x: u64| (x >> 24) >> shift;
    if rng.chance(1, 8) {
        // What reaches outside is refused before anything moves, which the rest of the case shows.
        let (lo, hi) = outside(&mut rng, n);
        let r = guard(|| match rng.below(3) {
            0 => v.sort_range((lo, hi)),
            1 => v.sort_range_by(&|x: &E, y: &E| y.val().cmp(&x.val()), (lo, hi)),
            _ => v.sort_range_by_key(&|x: &E| std::cmp::Reverse(x.val()), (lo, hi)),
        });
        if r.is_ok() {
            return Out::Violated(format!("{} of {}, seed {}: sorting the range ({:?},{:?}) of {} does not panic", KIND, E::NAME, seed, lo, hi, n));
        }
        match guard(|| (0..v.len()).map(|i| v[i].val()).collect::<Vec<u64>>()) {
            Ok(g) if g == vals => {}
            r => return Out::Violated(format!("{} of {}, seed {}: sorting the range ({:?},{:?}) of {} leaves {:?}", KIND, E::NAME, seed, lo, hi, n, r)),
        }
    }
    let r: Result<(&str, Box<dyn Fn(u64, u64) -> O>), String> = guard(|| match how {
        0 if whole => {
            v.sort();
            ("sort", Box::new(|x: u64, y: u64| x.cmp(&y)) as Box<dyn Fn(u64, u64) -> O>)
        }
        1 | 0 => {
            v.sort_range((lo, hi));
            ("sort_range", Box::new(|x: u64, y: u64| x.cmp(&y)) as Box<dyn Fn(u64, u64) -> O>)
        }
        2 if whole => {
            v.sort_by(&|x: &E, y: &E| { tick(); key(y.val()).cmp(&key(x.val())) });
            ("sort_by", Box::new(move |x: u64, y: u64| key(y).cmp(&key(x))) as Box<dyn Fn(u64, u64) -> O>)
        }
        3 | 2 => {
            v.sort_range_by(&|x: &E, y: &E| { tick(); key(x.val()).cmp(&key(y.val())) }, (lo, hi));
            ("sort_range_by", Box::new(move |x: u64, y: u64| key(x).cmp(&key(y))) as Box<dyn Fn(u64, u64) -> O>)
        }
        4 => {
            v.sort_range_by_key(&|x: &E| { tick(); key(x.val()) }, (lo, hi));
            ("sort_range_by_key", Box::new(move |x: u64, y: u64| key(x).cmp(&key(y))) as Box<dyn Fn(u64, u64) -> O>)
        }
        _ => {
            v.sort_range_by_key(&|x: &E| { tick(); std::cmp::Reverse(format!("{:030}", key(x.val()))) }, (lo, hi));
            ("sort_range_by_key", Box::new(move |x: u64, y: u64| key(y).cmp(&key(x))) as Box<dyn Fn(u64, u64) -> O>)
        }
    });
    let head = format!("{} of {}, seed {}: {} elements, {} keys, range {}..{}, method {}, shift {}", KIND, E::NAME, seed, n, pat, a, b, how, shift);
    let (name, obey) = match r {
        Ok(x) => x,
        Err(e) => return Out::Violated(format!("{}: {}", head, e)),
    };
    let got = match guard(|| (0..v.len()).map(|i| v[i].val()).collect::<Vec<u64>>()) {
        Ok(g) => g,
        Err(e) => return Out::Violated(format!("{}: reading the result: {}", head, e)),
    };
    if got.len() != n {
        return Out::Violated(format!("{}: {} elements afterwards", head, got.len()));
    }
    if got[..a] != vals[..a] || got[b..] != vals[b..] {
        return Out::Violated(format!("{}: elements outside the range changed", head));
    }
    for i in a + 1..b {
        if obey(got[i - 1], got[i]) == O::Greater {
            return Out::Violated(format!("{}: not in order at {}", head, i));
        }
    }
    let (mut x, mut y) = (got[a..b].to_vec(), vals[a..b].to_vec());
    x.sort();
    y.sort();
    if x != y {
        return Out::Violated(format!("{}: the range holds other elements than before", head));
    }
    match obs_drain(&v, false) {
        Ok(d) if d == got => {}
        Ok(_) => return Out::Violated(format!("{}: popping gives other elements than indexing", head)),
        Err(e) => return Out::Violated(format!("{}: popping: {}", head, e)),
    }
    if let Some(s) = shared {
        match obs_drain(&s, false) {
            Ok(d) if d == vals => {}
            _ => return Out::Violated(format!("{}: a clone made before sorting changed", head)),
        }
    }
    drop(v);
    if let Some(e) = reported() {
        return Out::Violated(format!("{}: {}", head, e));
    }
    let mut info = Info { fp: mix(mix(n as u64, (a * 31 + b) as u64), mix(how as u64, pat.len() as u64 ^ vals.iter().fold(0, |h, x| mix(h, *x)))), ..Info::default() };
    info.trivial = m < 2;
    info.add(name, 1);
    info.add(&format!("pattern {}", pat), 1);
    info.add("comparisons", calls.get());
    info.add("elements sorted", m as u64);
    info.max("length", n as u64);
    info.sample = head;
    Out::Held(info)
}

// ================================================================ C09 dual sorting
macro_rules! dual_case {
    ($name:ident, $second:ty, $what:expr) => {
        pub fn $name<E: Elem>(seed: u64, max: usize) -> Out {
            reset_monitors();
            let mut rng = Rng::new(seed);
            let n = size(&mut rng, max);
            let (keys, pat) = pattern(&mut rng, n);
            let vals: Vec<u64> = keys.iter().enumerate().map(|(i, k)| k << 24 | i as u64).collect();
            // The second vector may be longer.
            let n2 = if rng.chance(1, 4) { n + rng.below(200) } else { n };
            let vals2: Vec<u64> = (0..n2 as u64).map(|i| (1 << 40) + i).collect();
            let (v, w): (V<E>, $second) = match (shaped(&mut rng, &vals), second::<E, $second>(&mut rng, &vals2)) {
                (Ok(v), Ok(w)) => (v, w),
                (Err(e), _) | (_, Err(e)) => return Out::Inconclusive(e),
            };
            let (mut v, mut w) = (v, w);
            let whole_ok = n2 >= n;
            let (a, b) = if rng.chance(1, 3) && whole_ok { (0, n) } else { rng.subrange(n) };
            let (lo, hi) = bounds(&mut rng, a, b, n);
            let m = b - a;
            let calls = std::cell::Cell::new(0u64);
            let limit = 20_000 + 60 * m as u64 * (64 - (m as u64 + 2).leading_zeros() as u64);
            let tick = || {
                calls.set(calls.get() + 1);
                if calls.get() > limit {
                    panic!("more than {} comparisons or key calls", limit);
                }
            };
            let whole = a == 0 && b == n;
            phase(true);
            let how = rng.below(6);
            let shift = rng.below(8) as u32;
            let keep = if rng.chance(1, 2) { Some((v.clone(), w.clone())) } else { None };
            let key = move |x: u64| (x >> 24) >> shift;
            let by_key = move |x: u64, y: u64| key(x).cmp(&key(y));
            let down = move |x: u64, y: u64| key(y).cmp(&key(x));
            let nat = |x: u64, y: u64| x.cmp(&y);
            type Obey = Box<dyn Fn(u64, u64) -> O>;
            if rng.chance(1, 8) {
                // What reaches outside of either is refused before anything moves.
                let mut short = w.clone();
                let (lo, hi) = if rng.chance(1, 2) && b > a {
                    short.slice_from_start(rng.range(a, b - 1));
                    (lo, hi)
                } else {
                    outside(&mut rng, n)
                };
                let n2 = short.len();
                let r = guard(|| match rng.below(3) {
                    0 => v.dual_sort_range((lo, hi), &mut short),
                    1 => v.dual_sort_range_by(&|x: &E, y: &E| y.val().cmp(&x.val()), (lo, hi), &mut short),
                    _ => v.dual_sort_range_by_key(&|x: &E| std::cmp::Reverse(x.val()), (lo, hi), &mut short),
                });
                let text = format!("{} of {} with {}, seed {}: sorting the range ({:?},{:?}) of {} and {}", KIND, E::NAME, $what, seed, lo, hi, n, n2);
                if r.is_ok() {
                    return Out::Violated(format!("{} does not panic", text));
                }
                match guard(|| (0..v.len()).all(|i| v[i].val() == vals[i]) && v.len() == n && short.len() == n2 && (0..n2).all(|i| short[i].val() == vals2[i])) {
                    Ok(true) => {}
                    r => return Out::Violated(format!("{} changes them: {:?}", text, r)),
                }
            }
            let r: Result<(&str, Obey), String> = guard(|| match how {
                0 if whole => {
                    v.dual_sort(&mut w);
                    ("dual_sort", Box::new(nat) as Obey)
                }
                1 | 0 => {
                    v.dual_sort_range((lo, hi), &mut w);
                    ("dual_sort_range", Box::new(nat) as Obey)
                }
                2 if whole => {
                    v.dual_sort_by(&|x: &E, y: &E| { tick(); key(y.val()).cmp(&key(x.val())) }, &mut w);
                    ("dual_sort_by", Box::new(down) as Obey)
                }
                3 | 2 => {
                    v.dual_sort_range_by(&|x: &E, y: &E| { tick(); key(x.val()).cmp(&key(y.val())) }, (lo, hi), &mut w);
                    ("dual_sort_range_by", Box::new(by_key) as Obey)
                }
                4 => {
                    v.dual_sort_range_by_key(&|x: &E| { tick(); key(x.val()) }, (lo, hi), &mut w);
                    ("dual_sort_range_by_key", Box::new(by_key) as Obey)
                }
                _ => {
                    v.dual_sort_range_by_key(&|x: &E| { tick(); std::cmp::Reverse(key(x.val())) }, (lo, hi), &mut w);
                    ("dual_sort_range_by_key", Box::new(down) as Obey)
                }
            });
            let head = format!("{} of {} with {}, seed {}: {} and {} elements, {} keys, range {}..{}, method {}, shift {}", KIND, E::NAME, $what, seed, n, n2, pat, a, b, how, shift);
            let (name, obey) = match r {
                Ok(x) => x,
                Err(e) => return Out::Violated(format!("{}: {}", head, e)),
            };
            let read = guard(|| ((0..v.len()).map(|i| v[i].val()).collect::<Vec<u64>>(), (0..w.len()).map(|i| w[i].val()).collect::<Vec<u64>>()));
            let (g1, g2) = match read {
                Ok(x) => x,
                Err(e) => return Out::Violated(format!("{}: reading the result: {}", head, e)),
            };
            if g1.len() != n || g2.len() != n2 {
                return Out::Violated(format!("{}: lengths {} and {} afterwards", head, g1.len(), g2.len()));
            }
            if g1[..a] != vals[..a] || g1[b..] != vals[b..] || g2[..a] != vals2[..a] || g2[b..] != vals2[b..] {
                return Out::Violated(format!("{}: elements outside the range changed", head));
            }
            for i in a + 1..b {
                if obey(g1[i - 1], g1[i]) == O::Greater {
                    return Out::Violated(format!("{}: first vector not in order at {}", head, i));
                }
            }
            // Every pair must be a pair of before, and all of them present.
            let mut seen = vec![false; n];
            for i in a..b {
                let j = (g1[i] & 0xff_ffff) as usize;
                if j < a || j >= b || vals[j] != g1[i] || seen[j] {
                    return Out::Violated(format!("{}: the first vector does not hold a permutation (at {})", head, i));
                }
                seen[j] = true;
                if g2[i] != vals2[j] {
                    return Out::Violated(format!("{}: position {} pairs the element from {} with the one from {}", head, i, j, g2[i] as i64 - (1i64 << 40)));
                }
            }
            if let Some((x, y)) = keep {
                let r = guard(|| {
                    let mut x = x;
                    let mut y = y;
                    let mut a = vec![];
                    let mut b = vec![];
                    while let Some(e) = x.pop_front() { a.push(e.val()); }
                    while let Some(e) = y.pop_front() { b.push(e.val()); }
                    a == vals && b == vals2
                });
                if r != Ok(true) {
                    return Out::Violated(format!("{}: clones made before sorting changed", head));
                }
            }
            drop(v);
            drop(w);
            if let Some(e) = reported() {
                return Out::Violated(format!("{}: {}", head, e));
            }
            let mut info = Info { fp: mix(mix(n as u64, (a * 31 + b) as u64), mix(how as u64, vals.iter().fold(n2 as u64, |h, x| mix(h, *x)))), ..Info::default() };
            info.trivial = m < 2;
            info.add(name, 1);
            info.add(&format!("pattern {}", pat), 1);
            info.add(&format!("second {}", $what), 1);
            info.add("pairs sorted", m as u64);
            info.max("length", n as u64);
            info.sample = head;
            Out::Held(info)
        }
    };
}
fn second<E: Elem, W: FromShaped>(rng: &mut Rng, vals: &[u64]) -> Result<W, String> {
    W::from_shaped(rng, vals)
}
pub trait FromShaped: Sized {
    fn from_shaped(rng: &mut Rng, vals: &[u64]) -> Result<Self, String>;
}
impl FromShaped for librrb::RegularVector<String> {
    fn from_shaped(rng: &mut Rng, vals: &[u64]) -> Result<Self, String> {
        crate::rc::shaped(rng, vals)
    }
}
impl FromShaped for librrb::ThreadSafeVector<Tr> {
    fn from_shaped(rng: &mut Rng, vals: &[u64]) -> Result<Self, String> {
        crate::arc::shaped(rng, vals)
    }
}
dual_case!(case_dual_rc, librrb::RegularVector<String>, "rc of String");
dual_case!(case_dual_arc, librrb::ThreadSafeVector<Tr>, "arc of tracked");

// ============================================== C08, C09: orders made up against the pivots
/// Sorts under an order that is decided while the sort looks (McIlroy's adversary: what is compared
/// with the pivot turns out to be greater), then sorts the elements it arrived at once more under
/// another comparator. Whatever the order, the stack must stay small and the result be right.
pub fn case_adverse(seed: u64, max: usize, dual: bool) -> Out {
    use std::cell::{Cell, RefCell};
    reset_monitors();
    let mut rng = Rng::new(seed);
    let most = if rng.chance(1, 2) { max } else { 80 };
    let n = 2 + rng.below(most);
    let vals: Vec<u64> = (0..n as u64).collect();
    let vals2: Vec<u64> = (0..n as u64).map(|i| (1 << 40) + i).collect();
    let (mut v, mut w): (V<u64>, V<u64>) = match (shaped(&mut rng, &vals), shaped(&mut rng, &vals2)) {
        (Ok(v), Ok(w)) => (v, w),
        (Err(e), _) | (_, Err(e)) => return Out::Inconclusive(e),
    };
    let (a, b) = if rng.chance(1, 2) { (0, n) } else { rng.subrange(n) };
    let (lo, hi) = bounds(&mut rng, a, b, n);
    let m = b - a;
    let downwards = rng.chance(1, 3);
    phase(true);
    let gas = u64::MAX;
    let rank = RefCell::new(vec![gas; n]);
    let (solid, candidate) = (Cell::new(0u64), Cell::new(usize::MAX));
    let calls = Cell::new(0u64);
    let lowest = Cell::new(usize::MAX);
    let look = || {
        let here = 0u8;
        lowest.set(lowest.get().min(std::hint::black_box(&here) as *const u8 as usize));
        calls.set(calls.get() + 1);
        if calls.get() > 40_000 + 8 * (m * m) as u64 {
            panic!("more than {} comparisons", calls.get());
        }
    };
    let order = |x: &u64, y: &u64| {
        look();
        let (x, y) = (*x as usize, *y as usize);
        let mut r = rank.borrow_mut();
        if r[x] == gas && r[y] == gas {
            r[if x == candidate.get() { x } else { y }] = solid.get();
            solid.set(solid.get() + 1);
        }
        if r[x] == gas {
            candidate.set(x);
        } else if r[y] == gas {
            candidate.set(y);
        }
        let o = r[x].cmp(&r[y]);
        if downwards { o.reverse() } else { o }
    };
    let base = 0u8;
    let base = std::hint::black_box(&base) as *const u8 as usize;
    let limit = (96 << 10) + (32 << 10) * (64 - (m as u64 + 2).leading_zeros() as usize);
    let head = format!("{}, seed {}: {} and range {}..{} of {} elements under an order made up while sorting{}", KIND, seed, if dual { "dual_sort_range_by" } else { "sort_range_by" }, a, b, n, if downwards { ", reversed" } else { "" });
    let r = guard(|| if dual { v.dual_sort_range_by(&order, (lo, hi), &mut w) } else { v.sort_range_by(&order, (lo, hi)) });
    if let Err(e) = r {
        return Out::Violated(format!("{}: {}", head, e));
    }
    // What was never decided comes last, in any order.
    let rank = rank.into_inner();
    let used = |low: usize| if cfg!(miri) { 0 } else { base.saturating_sub(low) };
    let mut deepest = used(lowest.get().min(base));
    let check = |v: &V<u64>, w: &V<u64>, was: &[u64], key: &dyn Fn(u64) -> u64| -> Result<Vec<u64>, String> {
        let g: Vec<u64> = guard(|| (0..v.len()).map(|i| v[i]).collect())?;
        let g2: Vec<u64> = guard(|| (0..w.len()).map(|i| w[i]).collect())?;
        let (mut x, mut y) = (g.clone(), was.to_vec());
        x.sort();
        y.sort();
        if x != y || g[..a] != was[..a] || g[b..] != was[b..] {
            return Err("the range holds other elements than before, or what is outside it changed".into());
        }
        if (a + 1..b).any(|i| key(g[i - 1]) > key(g[i])) {
            return Err("not in order".into());
        }
        if dual && (0..n).any(|i| g2[i] != (1 << 40) + g[i]) {
            return Err("the second vector was not rearranged in the same way".into());
        }
        Ok(g)
    };
    let down = |x: u64| if downwards { u64::MAX - x } else { x };
    if let Err(e) = check(&v, &w, &vals, &|x| down(rank[x as usize])) {
        return Out::Violated(format!("{}: {}", head, e));
    }
    let first = calls.replace(0);
    // The same order, now fixed, on the elements as they were.
    lowest.set(usize::MAX);
    let (mut v, mut w): (V<u64>, V<u64>) = (vals.iter().cloned().collect(), vals2.iter().cloned().collect());
    let key = |x: &u64| { look(); down(rank[*x as usize]) };
    let again = |x: &u64, y: &u64| { look(); down(rank[*x as usize]).cmp(&down(rank[*y as usize])) };
    let how = rng.below(2);
    let r = guard(|| match (dual, how) {
        (false, 0) => v.sort_range_by(&again, (lo, hi)),
        (false, _) => v.sort_range_by_key(&key, (lo, hi)),
        (true, 0) => v.dual_sort_range_by(&again, (lo, hi), &mut w),
        (true, _) => v.dual_sort_range_by_key(&key, (lo, hi), &mut w),
    });
    if let Err(e) = r.and_then(|_| check(&v, &w, &vals, &|x| down(rank[x as usize]))) {
        return Out::Violated(format!("{}, repeated: {}", head, e));
    }
    deepest = deepest.max(used(lowest.get().min(base)));
    if deepest > limit {
        return Out::Violated(format!("{}: it used {} bytes of stack, more than {}", head, deepest, limit));
    }
    let mut info = Info { fp: mix(mix(n as u64, (a * 31 + b) as u64), mix(how as u64, dual as u64)), ..Info::default() };
    info.trivial = m < 2;
    info.add("comparisons", first + calls.get());
    info.add("pattern adverse", 1);
    info.max("length", n as u64);
    info.max("stack bytes", deepest as u64);
    info.sample = head;
    Out::Held(info)
}

// ================================================================ C10 searching
pub fn case_search<E: Elem + std::borrow::Borrow<E>>(seed: u64, max: usize) -> Out {
    reset_monitors();
    let mut rng = Rng::new(seed);
    let n = size(&mut rng, max);
    let spread = [1, 2, 3, 5, 10, n / 4 + 1, n + 1, 4 * n + 1][rng.below(8)] as u64;
    // Values are even, so that odd ones are absent.
    let mut vals: Vec<u64> = (0..n).map(|_| 100 + 2 * (rng.next() % spread)).collect();
    vals.sort();
    let v: V<E> = match shaped(&mut rng, &vals) {
        Ok(v) => v,
        Err(e) => return Out::Inconclusive(e),
    };
    let head = format!("{} of {}, seed {}: {} sorted elements, {} values", KIND, E::NAME, seed, n, spread);
    let mut info = Info::default();
    let mut fp = mix(n as u64, vals.iter().fold(0, |h, x| mix(h, *x)));
    let rounds = rng.range(5, 40);
    phase(true);
    for _ in 0..rounds {
        let (a, b) = if rng.chance(1, 3) { (0, n) } else { rng.subrange(n) };
        let (lo, hi) = bounds(&mut rng, a, b, n);
        let probe = if rng.chance(1, 2) && n > 0 { vals[rng.position(n - 1)] + rng.below(2) as u64 } else { 98 + rng.next() % (2 * spread + 6) };
        let probe2 = if rng.chance(1, 2) && n > 0 { vals[rng.position(n - 1)] + rng.below(2) as u64 } else { 98 + rng.next() % (2 * spread + 6) };
        let whole = a == 0 && b == n;
        // The linear oracle over a..b for a three-way predicate.
        let oracle = |f: &dyn Fn(u64) -> O| -> Result<std::ops::Range<usize>, usize> {
            let s = (a..b).find(|i| f(vals[*i]) != O::Less).unwrap_or(b);
            let e = (s..b).find(|i| f(vals[*i]) == O::Greater).unwrap_or(b);
            if s < e { Ok(s..e) } else { Err(s) }
        };
        let how = rng.below(8);
        let name = ["equal_range", "equal_range_by", "equal_range_in_range", "equal_range_in_range_by", "equal_range_for_index_by", "equal_range_for_index_in_range_by", "between_range", "between_range_in_range"][how];
        info.add(name, 1);
        fp = mix(fp, (how * 1000003 + a * 1009 + b) as u64 ^ probe << 32);
        let steps = std::cell::Cell::new(0u32);
        let tick = || {
            steps.set(steps.get() + 1);
            if steps.get() > 5000 {
                panic!("more than 5000 comparisons in a binary search");
            }
        };
        // A window predicate: Equal for lo_v..=hi_v.
        let (lv, hv) = (probe.min(probe2), probe.max(probe2));
        let win = move |x: u64| if x < lv { O::Less } else if x > hv { O::Greater } else { O::Equal };
        let what = format!("{}: {} probe {} {} range {:?} {:?}", head, name, probe, probe2, lo, hi);
        let bail = |got: String, exp: String| Out::Violated(format!("{}: {} instead of {}", what, got, exp));
        match how {
            0 | 1 | 2 | 3 => {
                let (a2, b2) = (a, b);
                let exp = match how {
                    0 | 1 if !whole => {
                        let f: Box<dyn Fn(u64) -> O> = if how == 0 { Box::new(move |x: u64| x.cmp(&probe)) } else { Box::new(win) };
                        let s = (0..n).find(|i| f(vals[*i]) != O::Less).unwrap_or(n);
                        let e = (s..n).find(|i| f(vals[*i]) == O::Greater).unwrap_or(n);
                        if s < e { Ok(s..e) } else { Err(s) }
                    }
                    0 | 2 => oracle(&|x| x.cmp(&probe)),
                    _ => oracle(&win),
                };
                let form = rng.below(3);
                let got = guard(|| match how {
                    0 => v.equal_range(&E::mk(probe)),
                    1 => v.equal_range_by(&|x: &E| { tick(); win(x.val()) }),
                    2 => match form {
                        0 => v.equal_range_in_range(&E::mk(probe), a2..b2),
                        _ => v.equal_range_in_range(&E::mk(probe), (lo, hi)),
                    },
                    _ => match form {
                        0 => v.equal_range_in_range_by(&|x: &E| { tick(); win(x.val()) }, a2..b2),
                        _ => v.equal_range_in_range_by(&|x: &E| { tick(); win(x.val()) }, (lo, hi)),
                    },
                });
                match got {
                    Ok(g) if g == exp => {}
                    g => return bail(format!("{:?}", g), format!("{:?}", exp)),
                }
            }
            4 | 5 => {
                if n == 0 {
                    continue;
                }
                let idx = rng.position(n - 1);
                let pv = vals[idx];
                let (lv, hv) = if rng.chance(1, 5) { (lv, hv) } else { (pv - 2 * rng.below(3) as u64, pv + 2 * rng.below(3) as u64) };
                let win = move |x: u64| if x < lv { O::Less } else if x > hv { O::Greater } else { O::Equal };
                let (a3, b3) = if how == 4 { (0, n) } else { (a, b) };
                let exp = if idx < a3 || idx >= b3 || win(pv) != O::Equal {
                    None
                } else {
                    let s = (a3..b3).find(|i| win(vals[*i]) == O::Equal).unwrap();
                    let e = (s..b3).find(|i| win(vals[*i]) != O::Equal).unwrap_or(b3);
                    Some(s..e)
                };
                let got = guard(|| match how {
                    4 => v.equal_range_for_index_by(idx, &|x: &E| { tick(); win(x.val()) }),
                    _ => v.equal_range_for_index_in_range_by(idx, &|x: &E| { tick(); win(x.val()) }, (lo, hi)),
                });
                let fine = match (&got, &exp) {
                    (Ok(g), Some(e)) => g == e,
                    (Ok(g), None) => g.start >= g.end,
                    _ => false,
                };
                if !fine {
                    return bail(format!("{:?} at index {} window {}..={}", got, idx, lv, hv), format!("{:?}", exp));
                }
            }
            _ => {
                let (x, y) = (E::mk(probe), E::mk(probe2));
                let sb = match rng.below(3) { 0 => Bound::Unbounded, 1 => Bound::Included(probe), _ => Bound::Excluded(probe) };
                let eb = match rng.below(3) { 0 => Bound::Unbounded, 1 => Bound::Included(probe2), _ => Bound::Excluded(probe2) };
                let f = move |z: u64| {
                    let low = match sb { Bound::Unbounded => false, Bound::Included(p) => z < p, Bound::Excluded(p) => z <= p };
                    let high = match eb { Bound::Unbounded => false, Bound::Included(p) => z > p, Bound::Excluded(p) => z >= p };
                    if low { O::Less } else if high { O::Greater } else { O::Equal }
                };
                let (a3, b3) = if how == 6 { (0, n) } else { (a, b) };
                let s = (a3..b3).find(|i| f(vals[*i]) != O::Less).unwrap_or(b3);
                let e = (s..b3).find(|i| f(vals[*i]) == O::Greater).unwrap_or(b3);
                let exp = if s < e { Ok(s..e) } else { Err(s) };
                let sbr = match sb { Bound::Unbounded => Bound::Unbounded, Bound::Included(_) => Bound::Included(&x), Bound::Excluded(_) => Bound::Excluded(&x) };
                let ebr = match eb { Bound::Unbounded => Bound::Unbounded, Bound::Included(_) => Bound::Included(&y), Bound::Excluded(_) => Bound::Excluded(&y) };
                let got = guard(|| match how {
                    6 => v.between_range(sbr, ebr),
                    _ => v.between_range_in_range(sbr, ebr, (lo, hi)),
                });
                match got {
                    Ok(g) if g == exp => {}
                    g => return bail(format!("{:?} for {:?} {:?}", g, sb, eb), format!("{:?}", exp)),
                }
            }
        }
    }
    info.fp = fp;
    info.trivial = n < 2;
    info.max("length", n as u64);
    info.add("searches", rounds as u64);
    info.sample = format!("{}; {} searches", head, rounds);
    Out::Held(info)
}

// ================================================================ C16 comparison, hashing, collecting
pub fn case_compare<E: Elem>(seed: u64, max: usize) -> Out {
    use std::collections::hash_map::DefaultHasher;
    use std::hash::{Hash, Hasher};
    reset_monitors();
    let mut rng = Rng::new(seed);
    let n = size(&mut rng, max);
    let small = 1 + rng.below(1000) as u64;
    let vals: Vec<u64> = (0..n).map(|_| rng.next() % small).collect();
    // The other contents: equal, or changed at one place, or cut, or extended, or unrelated.
    let mut other = vals.clone();
    let kind = rng.below(9);
    match kind {
        0 | 1 | 7 => {}
        2 | 8 if n > 0 => {
            let p = rng.position(n - 1);
            other[p] = other[p].wrapping_add(1 + rng.below(3) as u64) % (small + 2);
        }
        3 => other.truncate(rng.position(n)),
        4 => {
            for _ in 0..1 + rng.below(70) {
                other.push(rng.next() % small);
            }
        }
        5 if n > 1 => {
            let (p, q) = (rng.position(n - 1), rng.position(n - 1));
            other.swap(p, q);
        }
        _ => {
            let k = size(&mut rng, max);
            other = (0..k).map(|_| rng.next() % small).collect();
        }
    }
    let (v, mut w): (V<E>, V<E>) = match (shaped(&mut rng, &vals), shaped(&mut rng, &other)) {
        (Ok(v), Ok(w)) => (v, w),
        (Err(e), _) | (_, Err(e)) => return Out::Inconclusive(e),
    };
    if kind >= 7 && vals.len() == other.len() {
        // The same by sharing nodes: a clone, changed where the contents differ, or cut and joined.
        w = v.clone();
        for p in 0..n {
            if vals[p] != other[p] {
                match guard(|| *w.get_mut(p).unwrap() = E::mk(other[p])) {
                    Ok(()) => {}
                    Err(e) => return Out::Inconclusive(e),
                }
            }
        }
        if rng.chance(1, 3) {
            let p = rng.position(n);
            if let Err(e) = guard(|| {
                let t = w.split_off(p);
                w.append(t);
            }) {
                return Out::Inconclusive(e);
            }
        }
        match obs_drain(&w, true) {
            Ok(d) if diff(&d, &other.iter().map(|x| E::norm(*x)).collect::<Vec<_>>()).is_none() => {}
            _ => return Out::Inconclusive("the vector under test came out wrong".into()),
        }
    }
    let head = format!("{} of {}, seed {}: {} against {} elements, relation {}", KIND, E::NAME, seed, n, other.len(), kind);
    let x: Vec<E> = vals.iter().map(|a| E::mk(*a)).collect();
    let y: Vec<E> = other.iter().map(|a| E::mk(*a)).collect();
    phase(true);
    let hash = |v: &V<E>| { let mut h = DefaultHasher::new(); v.hash(&mut h); h.finish() };
    let r = guard(|| {
        let mut bad = vec![];
        if (v == w) != (x == y) { bad.push(format!("== is {}", v == w)); }
        if (v != w) != (x != y) { bad.push(format!("!= is {}", v != w)); }
        if (w == v) != (x == y) { bad.push(format!("== is {} the other way round", w == v)); }
        if v.cmp(&w) != x.cmp(&y) { bad.push(format!("cmp is {:?} instead of {:?}", v.cmp(&w), x.cmp(&y))); }
        if w.cmp(&v) != y.cmp(&x) { bad.push(format!("reverse cmp is {:?}", w.cmp(&v))); }
        if v.partial_cmp(&w) != x.partial_cmp(&y) { bad.push(format!("partial_cmp is {:?} instead of {:?}", v.partial_cmp(&w), x.partial_cmp(&y))); }
        if (v < w, v <= w, v > w, v >= w) != (x < y, x <= y, x > y, x >= y) { bad.push("<, <=, >, >= differ".into()); }
        if x == y && hash(&v) != hash(&w) { bad.push("equal vectors hash differently".into()); }
        if x != y && n < 2000 && E::NAME != "()-like" && hash(&v) == hash(&w) { bad.push("vectors with different elements hash alike".into()); }
        #[allow(clippy::eq_op)]
        if v != v || hash(&v) != hash(&v.clone()) || v != v.clone() { bad.push("differs from itself or its clone".into()); }
        let c: V<E> = x.iter().cloned().collect();
        if c != v || c.len() != n { bad.push("collecting the same elements gives another vector".into()); }
        let f: V<E> = v.iter().cloned().filter(|e| e.val() % 2 == 0).collect();
        let g: Vec<u64> = x.iter().map(|e| e.val()).filter(|e| e % 2 == 0).collect();
        if f.iter().map(|e| e.val()).collect::<Vec<_>>() != g { bad.push("collecting from a filtered iterator differs".into()); }
        let e: V<E> = V::default();
        if e != V::new() || !e.is_empty() || e.len() != 0 || (v == e) != (n == 0) { bad.push("default is not the empty vector".into()); }
        if n < 300 { let s = format!("{:?}", v); if s.is_empty() { bad.push("empty Debug".into()); } }
        bad
    });
    match r {
        Ok(b) if b.is_empty() => {}
        Ok(b) => return Out::Violated(format!("{}: {}", head, b.join(", "))),
        Err(e) => return Out::Violated(format!("{}: {}", head, e)),
    }
    drop((v, w, x, y));
    if let Some(e) = reported() {
        return Out::Violated(format!("{}: {}", head, e));
    }
    let mut info = Info { fp: mix(vals.iter().fold(n as u64, |h, x| mix(h, *x)), other.iter().fold(kind as u64, |h, x| mix(h, *x))), ..Info::default() };
    info.trivial = n == 0 || other.is_empty();
    info.add(&format!("relation {}", ["same", "same", "one changed", "prefix", "extended", "swapped", "unrelated", "same by sharing", "one changed by sharing"][kind]), 1);
    info.add("comparisons", 14);
    info.max("length", n as u64);
    info.sample = head;
    Out::Held(info)
}

/// Elements that are only partially ordered: the comparison must say what the plain sequence says.
pub fn case_partial(seed: u64) -> Out {
    reset_monitors();
    let mut rng = Rng::new(seed);
    let n = size(&mut rng, 1500);
    let vals: Vec<f64> = (0..n).map(|_| rng.below(50) as f64).collect();
    let mut other = vals.clone();
    for _ in 0..rng.below(3) {
        if n > 0 {
            let p = rng.position(n - 1);
            other[p] = if rng.chance(1, 2) { f64::NAN } else { rng.below(50) as f64 };
        }
    }
    if rng.chance(1, 3) {
        other.truncate(rng.position(n));
    }
    let nan_both = rng.chance(1, 4) && n > 0;
    let mut vals = vals;
    if nan_both {
        let p = rng.position(n - 1);
        vals[p] = f64::NAN;
        if p < other.len() {
            other[p] = f64::NAN;
        }
    }
    let build = |x: &[f64], rng: &mut Rng| {
        let p = rng.position(x.len());
        let mut v: V<f64> = x[..p].iter().copied().collect();
        let mut w: V<f64> = V::new();
        for e in x[p..].iter().rev() {
            w.push_front(*e);
        }
        v.append(w);
        v
    };
    let r = guard(|| (build(&vals, &mut rng), build(&other, &mut rng)));
    let (v, w) = match r {
        Ok(x) => x,
        Err(e) => return Out::Inconclusive(e),
    };
    let head = format!("{} of f64, seed {}: {} against {} elements, NaN in both {}", KIND, seed, n, other.len(), nan_both);
    phase(true);
    let got = guard(|| (v == w, v.partial_cmp(&w), w.partial_cmp(&v), v < w, v >= w));
    let exp = (vals == other, vals.partial_cmp(&other), other.partial_cmp(&vals), vals < other, vals >= other);
    if got != Ok(exp) {
        return Out::Violated(format!("{}: (==, partial_cmp, reversed, <, >=) is {:?} instead of {:?}", head, got, exp));
    }
    // Against itself, its clone, and a clone that differs in one place: a NaN is never equal.
    let p = rng.position(n.saturating_sub(1));
    let mut edited = vals.clone();
    let got = guard(|| {
        let c = v.clone();
        let mut d = v.clone();
        if n > 0 {
            edited[p] = if rng.chance(1, 2) { f64::NAN } else { 99.0 };
            *d.get_mut(p).unwrap() = edited[p];
        }
        #[allow(clippy::eq_op)]
        let r = (v == v, v.partial_cmp(&v), v == c, v != c, c.partial_cmp(&v), d == v, d.partial_cmp(&v), d == d);
        r
    });
    #[allow(clippy::eq_op)]
    let own = (vals == vals, vals.partial_cmp(&vals), vals == vals, vals != vals, vals.partial_cmp(&vals), edited == vals, edited.partial_cmp(&vals), edited == edited);
    if got != Ok(own) {
        return Out::Violated(format!("{}: against itself, a clone, an edited clone: {:?} instead of {:?}", head, got, own));
    }
    let mut info = Info { fp: mix(seed, n as u64), ..Info::default() };
    info.trivial = n == 0;
    info.add("partial comparisons", 13);
    info.add("incomparable pairs", exp.1.is_none() as u64);
    info.sample = head;
    Out::Held(info)
}
