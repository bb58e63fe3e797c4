// Included once per reference-counting kind, after dedicated.rs.
use std::sync::atomic::Ordering::{Relaxed, SeqCst};

// ================================================================ very long vectors (C02, C11)
/// A persistent sequence built from pieces: the model for vectors too long to write out.
#[derive(Clone)]
enum Rope {
    Base(Rc<Vec<u64>>, usize, usize),
    Cat(Rc<Rope>, Rc<Rope>, usize),
}
impl Rope {
    fn len(&self) -> usize {
        match self {
            Rope::Base(_, _, n) => *n,
            Rope::Cat(_, _, n) => *n,
        }
    }
    fn get(&self, i: usize) -> u64 {
        let mut r = self;
        let mut i = i;
        loop {
            match r {
                Rope::Base(v, o, _) => return v[o + i],
                Rope::Cat(a, b, _) => {
                    if i < a.len() {
                        r = a;
                    } else {
                        i -= a.len();
                        r = b;
                    }
                }
            }
        }
    }
    fn cat(a: &Rope, b: &Rope) -> Rope {
        if a.len() == 0 {
            return b.clone();
        }
        if b.len() == 0 {
            return a.clone();
        }
        Rope::Cat(Rc::new(a.clone()), Rc::new(b.clone()), a.len() + b.len())
    }
    fn slice(&self, from: usize, to: usize) -> Rope {
        if from >= to {
            return Rope::empty();
        }
        if from == 0 && to == self.len() {
            return self.clone();
        }
        match self {
            Rope::Base(v, o, _) => Rope::Base(v.clone(), o + from, to - from),
            Rope::Cat(a, b, _) => {
                let k = a.len();
                Rope::cat(&a.slice(from.min(k), to.min(k)), &b.slice(from.max(k) - k, to.max(k) - k))
            }
        }
    }
    fn empty() -> Rope {
        Rope::Base(Rc::new(vec![]), 0, 0)
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Huge {
    Deque,
    Edit,
    Access,
    Shape,
    Focus,
    FocusMut,
    Iter,
    Isolation,
}

/// The next position to look at: near the last one, a node or so away, or anywhere.
fn wander(rng: &mut Rng, last: usize, n: usize) -> usize {
    let w = librrb::RRB_WIDTH;
    let far = [1, 2, w - 1, w, w + 1, w * w, w * w + 1, w * w * w, n / 3 + 1][rng.below(9)];
    let p = match rng.below(8) {
        0 => rng.position(n),
        1 | 2 => last.saturating_add(1),
        3 => last.saturating_sub(1),
        4 | 5 => last.saturating_add(far),
        _ => last.saturating_sub(far),
    };
    p.min(n)
}

fn huge_focus(mut f: Fo<u64>, m: &Rope, mut a: usize, mut b: usize, rng: &mut Rng, depth: usize) -> Result<u64, String> {
    let mut steps = 0;
    let mut at = rng.position(b - a);
    for _ in 0..rng.range(3, 12) {
        let n = b - a;
        if f.len() != n || f.is_empty() != (n == 0) {
            return Err(format!("focus on {}..{} has length {}", a, b, f.len()));
        }
        for _ in 0..rng.range(1, 30) {
            steps += 1;
            at = wander(rng, at, n);
            let got = f.get(at).copied();
            let exp = if at < n { Some(m.get(a + at)) } else { None };
            if got != exp {
                return Err(format!("focus on {}..{}: get({}) is {:?} instead of {:?}", a, b, at, got, exp));
            }
        }
        let x = if rng.chance(1, 2) { at } else { rng.position(n) };
        match rng.below(6) {
            0 => {
                let (lo, hi) = (x / 2, x);
                f.narrow(lo..hi);
                b = a + hi;
                a += lo;
            }
            1 if depth < 4 && n > 0 => {
                let x = x.min(n - 1);
                let (l, r) = f.clone().split_at(x);
                steps += huge_focus(l, m, a, a + x, rng, depth + 1)?;
                steps += huge_focus(r, m, a + x, b, rng, depth + 1)?;
            }
            2 if n > 0 => {
                let x = x.min(n - 1);
                let (l, r) = f.split_at(x);
                if rng.chance(1, 2) {
                    f = l;
                    b = a + x;
                } else {
                    f = r;
                    a += x;
                }
            }
            _ => {}
        }
        if a == b {
            break;
        }
    }
    Ok(steps)
}

type Writes = std::collections::BTreeMap<usize, u64>;
fn huge_focus_mut(f: &mut Fm<u64>, m: &Rope, w: &mut Writes, a: usize, b: usize, next: &mut u64, rng: &mut Rng, depth: usize, budget: u64) -> Result<u64, String> {
    let n = b - a;
    let mut steps = 0;
    let mut at = rng.position(n);
    for _ in 0..rng.range(1, 5) {
        if steps >= budget {
            break;
        }
        if f.len() != n || f.is_empty() != (n == 0) {
            return Err(format!("part {}..{} has length {}", a, b, f.len()));
        }
        for _ in 0..rng.range(1, 20) {
            steps += 1;
            at = wander(rng, at, n);
            let exp = if at < n { Some(w.get(&(a + at)).copied().unwrap_or_else(|| m.get(a + at))) } else { None };
            let got = f.get(at);
            if got.as_ref().map(|x| **x) != exp {
                return Err(format!("part {}..{}: get({}) is {:?} instead of {:?}", a, b, at, got, exp));
            }
            if let Some(x) = got {
                if w.len() < 60 && rng.chance(1, 4) {
                    *next += 1;
                    *x = *next;
                    w.insert(a + at, *next);
                }
            }
        }
        if depth < 5 {
            let x = if rng.chance(1, 2) { at } else { rng.position(n) };
            let (mut l, mut r) = f.split_at(x);
            for _ in 0..rng.range(1, 3) {
                let left = budget.saturating_sub(steps) / 2 + 1;
                if rng.chance(1, 2) {
                    steps += huge_focus_mut(&mut l, m, w, a, a + x, next, rng, depth + 1, left)?;
                } else {
                    steps += huge_focus_mut(&mut r, m, w, a + x, b, next, rng, depth + 1, left)?;
                }
            }
        }
    }
    Ok(steps)
}

pub fn case_huge(seed: u64, mode: Huge) -> Out {
    let shape = mode == Huge::Shape;
    reset_monitors();
    let mut rng = Rng::new(seed);
    // With debug assertions the library walks whole trees when it splits them.
    let cap = 1usize << rng.range(14, if cfg!(debug_assertions) { 24 } else { 44 });
    let mut pool: Vec<(V<u64>, Rope)> = vec![];
    let mut longest = 0;
    let mut next = 1u64;
    let mut info = Info::default();
    let mut log: VecDeque<String> = VecDeque::new();
    let mut fp = seed;
    let ops = rng.range(20, 90);
    for opno in 0..ops {
        let kinds = if matches!(mode, Huge::Focus | Huge::FocusMut | Huge::Iter | Huge::Isolation) { 18 } else { 13 };
        let op = if pool.is_empty() { 0 } else { rng.below(kinds) };
        let i = rng.below(pool.len());
        let n = pool.get(i).map(|p| p.1.len()).unwrap_or(0);
        let mine = match mode {
            Huge::Shape | Huge::Isolation => false,
            Huge::Deque => matches!(op, 9 | 10),
            Huge::Edit => matches!(op, 1..=8 | 11),
            Huge::Access => op == 12,
            Huge::Focus | Huge::FocusMut | Huge::Iter => op >= 13,
        };
        phase(mine);
        let r: Result<(usize, Option<usize>), String> = guard(|| match op {
            0 => {
                let k = [1, 63, 64, 65, 128, 500, 1000, 4096, 4097, 5000][rng.below(10)] + rng.below(3);
                let b: Vec<u64> = (0..k as u64).map(|x| next + x).collect();
                next += k as u64;
                let v: V<u64> = b.iter().copied().collect();
                log.push_back(format!("new {}", k));
                pool.push((v, Rope::Base(Rc::new(b), 0, k)));
                (pool.len() - 1, None)
            }
            1 | 2 | 3 => {
                // Doubling, or joining two of the pool.
                let j = if op == 1 { i } else { rng.below(pool.len()) };
                let (ov, om) = pool[j].clone();
                if n + om.len() > cap {
                    return (i, None);
                }
                log.push_back(format!("{} [{}]{} with [{}]{}", if op == 3 { "prepend" } else { "append" }, i, n, j, om.len()));
                if op == 3 {
                    pool[i].0.prepend(ov);
                    pool[i].1 = Rope::cat(&om, &pool[i].1);
                } else {
                    pool[i].0.append(ov);
                    pool[i].1 = Rope::cat(&pool[i].1, &om);
                }
                (i, None)
            }
            4 | 5 => {
                let at = rng.position(n);
                log.push_back(format!("split_off [{}]{} at {}", i, n, at));
                let r = pool[i].0.split_off(at);
                let rm = pool[i].1.slice(at, n);
                pool[i].1 = pool[i].1.slice(0, at);
                pool.push((r, rm));
                (i, Some(pool.len() - 1))
            }
            6 => {
                let (a, b) = rng.subrange(n);
                log.push_back(format!("extract_slice [{}]{} {}..{}", i, n, a, b));
                let r = pool[i].0.extract_slice(a..b);
                let m = pool[i].1.clone();
                pool[i].1 = Rope::cat(&m.slice(0, a), &m.slice(b, n));
                pool.push((r, m.slice(a, b)));
                (i, Some(pool.len() - 1))
            }
            7 => {
                let at = rng.position(n);
                log.push_back(format!("insert [{}]{} at {}", i, n, at));
                next += 1;
                pool[i].0.insert(at, next);
                let m = pool[i].1.clone();
                pool[i].1 = Rope::cat(&Rope::cat(&m.slice(0, at), &Rope::Base(Rc::new(vec![next]), 0, 1)), &m.slice(at, n));
                (i, None)
            }
            8 if n > 0 => {
                let at = rng.position(n - 1);
                log.push_back(format!("remove [{}]{} at {}", i, n, at));
                let got = pool[i].0.remove(at);
                let m = pool[i].1.clone();
                if got != Some(m.get(at)) {
                    panic!("remove({}) of {} gave {:?} instead of {}", at, n, got, m.get(at));
                }
                pool[i].1 = Rope::cat(&m.slice(0, at), &m.slice(at + 1, n));
                (i, None)
            }
            9 => {
                let k = rng.below(200);
                log.push_back(format!("push [{}]{} x{}", i, n, k));
                let front = rng.chance(1, 2);
                let mut b: Vec<u64> = vec![];
                for _ in 0..k {
                    next += 1;
                    b.push(next);
                    if front { pool[i].0.push_front(next) } else { pool[i].0.push_back(next) }
                }
                if front { b.reverse(); }
                let b = Rope::Base(Rc::new(b), 0, k);
                pool[i].1 = if front { Rope::cat(&b, &pool[i].1) } else { Rope::cat(&pool[i].1, &b) };
                (i, None)
            }
            10 => {
                let k = rng.below(n.min(300) + 1);
                log.push_back(format!("pop [{}]{} x{}", i, n, k));
                let front = rng.chance(1, 2);
                for x in 0..k {
                    let (got, exp) = if front { (pool[i].0.pop_front(), pool[i].1.get(x)) } else { (pool[i].0.pop_back(), pool[i].1.get(n - 1 - x)) };
                    if got != Some(exp) {
                        panic!("pop {} of {} gave {:?} instead of {}", x, n, got, exp);
                    }
                }
                pool[i].1 = if front { pool[i].1.slice(k, n) } else { pool[i].1.slice(0, n - k) };
                (i, None)
            }
            11 => {
                let bits = rng.below(40);
                let k = (rng.next() as usize) & ((1 << bits) - 1);
                let k = k.min(cap);
                log.push_back(format!("constant {}", k));
                next += 1;
                let v: V<u64> = V::constant_vec_of_length(next, k);
                if v.len() != k {
                    panic!("constant_vec_of_length({}) has {}", k, v.len());
                }
                let mut m = Rope::empty();
                let mut acc = Rope::Base(Rc::new(vec![next]), 0, 1);
                let mut left = k;
                while left > 0 {
                    if left & 1 == 1 { m = Rope::cat(&m, &acc); }
                    acc = Rope::cat(&acc, &acc);
                    left >>= 1;
                }
                pool.push((v, m));
                (pool.len() - 1, None)
            }
            13.. if mode == Huge::Focus => {
                log.push_back(format!("focus [{}]{}", i, n));
                let (v, m) = &pool[i];
                let r = if rng.chance(1, 2) {
                    huge_focus(v.focus(), m, 0, n, &mut rng, 0)
                } else {
                    let (a, b) = rng.subrange(n);
                    huge_focus(Fo::narrowed_tree(v, a..b), m, a, b, &mut rng, 0)
                };
                match r {
                    Ok(k) => info.add("focus steps", k),
                    Err(e) => panic!("over {}: {}", n, e),
                }
                (i, None)
            }
            13.. if mode == Huge::FocusMut || mode == Huge::Isolation => {
                log.push_back(format!("focus_mut [{}]{}", i, n));
                let mut w = Writes::new();
                let m = pool[i].1.clone();
                let r = {
                    let mut f = pool[i].0.focus_mut();
                    huge_focus_mut(&mut f, &m, &mut w, 0, n, &mut next, &mut rng, 0, 600)
                };
                match r {
                    Ok(k) => info.add("focus_mut steps", k),
                    Err(e) => panic!("over {}: {}", n, e),
                }
                let mut m = m;
                for (at, x) in &w {
                    m = Rope::cat(&Rope::cat(&m.slice(0, *at), &Rope::Base(Rc::new(vec![*x]), 0, 1)), &m.slice(at + 1, n));
                }
                pool[i].1 = m;
                for (at, x) in &w {
                    if pool[i].0.get(*at) != Some(x) {
                        panic!("get({}) of {} is {:?} instead of the written {}", at, n, pool[i].0.get(*at), x);
                    }
                }
                (i, None)
            }
            13.. if mode == Huge::Iter => {
                // Some way in from both ends, with exact lengths.
                log.push_back(format!("iterate [{}]{}", i, n));
                let (v, m) = &mut pool[i];
                let mut w = Writes::new();
                let many = rng.below(3000).min(n);
                let bias = rng.below(11);
                let how = rng.below(3);
                let (mut lo, mut hi) = (0, n);
                macro_rules! ends {
                    ($it:expr, $see:expr) => {{
                        let mut it = $it;
                        for _ in 0..many {
                            let front = rng.below(10) < bias;
                            let got = if front { it.next() } else { it.next_back() };
                            let p = if front { lo += 1; lo - 1 } else { hi -= 1; hi };
                            match got {
                                Some(x) => $see(x, p),
                                None => panic!("iteration over {} ends with {}..{} to go", n, lo, hi),
                            }
                            if lo % 64 == 0 && (it.len() != hi - lo || it.size_hint() != (hi - lo, Some(hi - lo))) {
                                panic!("iteration over {} says {} to go instead of {}", n, it.len(), hi - lo);
                            }
                        }
                    }};
                }
                match how {
                    0 => ends!(v.iter(), |x: &u64, p: usize| if *x != m.get(p) { panic!("position {} of {} yields {} instead of {}", p, n, x, m.get(p)) }),
                    1 => ends!(v.clone().into_iter(), |x: u64, p: usize| if x != m.get(p) { panic!("position {} of {} yields {} instead of {}", p, n, x, m.get(p)) }),
                    _ => ends!(v.iter_mut(), |x: &mut u64, p: usize| {
                        if *x != m.get(p) { panic!("position {} of {} yields {} instead of {}", p, n, x, m.get(p)) }
                        if p % 97 == 0 && w.len() < 40 {
                            next += 1;
                            *x = next;
                            w.insert(p, next);
                        }
                    }),
                }
                for (at, x) in &w {
                    *m = Rope::cat(&Rope::cat(&m.slice(0, *at), &Rope::Base(Rc::new(vec![*x]), 0, 1)), &m.slice(at + 1, n));
                    if v.get(*at) != Some(x) {
                        panic!("get({}) of {} is {:?} instead of the written {}", at, n, v.get(*at), x);
                    }
                }
                info.add("iteration steps", many as u64);
                (i, None)
            }
            _ => {
                if n == 0 { return (i, None); }
                let at = rng.position(n - 1);
                next += 1;
                log.push_back(format!("write [{}]{} at {}", i, n, at));
                let m = pool[i].1.clone();
                let x = pool[i].0.get_mut(at).unwrap();
                if *x != m.get(at) {
                    panic!("get_mut({}) of {} gave {} instead of {}", at, n, *x, m.get(at));
                }
                *x = next;
                pool[i].1 = Rope::cat(&Rope::cat(&m.slice(0, at), &Rope::Base(Rc::new(vec![next]), 0, 1)), &m.slice(at + 1, n));
                (i, None)
            }
        });
        while log.len() > 14 {
            log.pop_front();
        }
        let head = || format!("{} of u64, long vectors, seed {}, operation {}; last operations: {}", KIND, seed, opno, log.iter().cloned().collect::<Vec<_>>().join("; "));
        let touched = match r {
            Ok(t) => t,
            Err(e) => {
                let m = format!("{}: {}", e, head());
                std::mem::forget(pool);
                return if mine { Out::Violated(m) } else { Out::Inconclusive(m) };
            }
        };
        info.add("operations", 1);
        longest = pool.iter().map(|p| p.1.len()).fold(longest, usize::max);
        for t in std::iter::once(touched.0).chain(touched.1) {
            let (v, m) = &pool[t];
            let n = m.len();
            fp = mix(fp, n as u64 ^ (op as u64) << 50);
            info.max("length", n as u64);
            if shape {
                if let Err(e) = check_shape(v, n, longest, opno + 1, &mut info) {
                    return Out::Violated(format!("{}: {}", e, head()));
                }
                continue;
            }
            let r = guard(|| {
                if v.len() != n || v.is_empty() != (n == 0) {
                    return Some(format!("len {} instead of {}", v.len(), n));
                }
                if n > 0 && (v.front() != Some(&m.get(0)) || v.back() != Some(&m.get(n - 1))) {
                    return Some("front or back differs".to_string());
                }
                for _ in 0..20 {
                    let p = rng.position(n.saturating_sub(1));
                    if n > 0 && v.get(p) != Some(&m.get(p)) {
                        return Some(format!("get({}) of {} is {:?} instead of {}", p, n, v.get(p), m.get(p)));
                    }
                }
                for (k, x) in v.iter().take(70).enumerate() {
                    if *x != m.get(k) { return Some(format!("iteration at {} of {}", k, n)); }
                }
                for (k, x) in v.iter().rev().take(70).enumerate() {
                    if *x != m.get(n - 1 - k) { return Some(format!("reverse iteration at {} of {}", k, n)); }
                }
                None
            });
            info.add("observations", 162);
            match r {
                Ok(None) => {}
                Ok(Some(e)) | Err(e) => {
                    let m = format!("{}: {}", e, head());
                    std::mem::forget(pool);
                    return if mine { Out::Violated(m) } else { Out::Inconclusive(m) };
                }
            }
        }
        if mode == Huge::Isolation {
            for t in 0..pool.len() {
                if t == touched.0 || Some(t) == touched.1 {
                    continue;
                }
                let (v, m) = &pool[t];
                let n = m.len();
                let r = guard(|| {
                    if v.len() != n {
                        return Some(format!("has {} elements instead of {}", v.len(), n));
                    }
                    for k in 0..24 {
                        // The ends, and all over.
                        let p = match k {
                            _ if n == 0 => break,
                            0..=3 => (k * librrb::RRB_WIDTH / 2).min(n - 1),
                            4..=7 => n - 1 - ((k - 4) * librrb::RRB_WIDTH / 2).min(n - 1),
                            _ => rng.position(n - 1),
                        };
                        if v.get(p) != Some(&m.get(p)) {
                            return Some(format!("at {} of {} is {:?} instead of {}", p, n, v.get(p), m.get(p)));
                        }
                    }
                    None
                });
                info.add("bystander checks", 1);
                if let Ok(Some(e)) | Err(e) = r {
                    let m = format!("another vector ([{}]) changed: {}: {}", t, e, head());
                    std::mem::forget(pool);
                    return Out::Violated(m);
                }
            }
        }
        if pool.len() > 6 {
            let j = rng.below(pool.len());
            pool.swap_remove(j);
        }
    }
    info.fp = fp;
    info.trivial = info.counts["max length"] <= librrb::RRB_WIDTH as u64;
    info.add("long-vector cases", 1);
    info.sample = format!("{} of u64, long vectors, seed {}: {}", KIND, seed, log.iter().rev().take(6).rev().cloned().collect::<Vec<_>>().join("; "));
    Out::Held(info)
}

// ================================================================ searches in long vectors (C10)
pub fn case_huge_search(seed: u64) -> Out {
    reset_monitors();
    let mut rng = Rng::new(seed);
    phase(false);
    // Runs of equal elements, ascending by tens.
    let runs = 1 + rng.below(30);
    let bits = if cfg!(debug_assertions) { 18 } else { 36 };
    let mut v: V<u64> = V::new();
    let mut start = vec![0usize];
    for r in 0..runs {
        let len = 1 + (rng.next() as usize & ((1 << rng.below(bits)) - 1));
        start.push(start[r] + len);
        let x = V::constant_vec_of_length(10 * r as u64, len);
        if let Err(e) = guard(|| v.append(x)) {
            return Out::Inconclusive(e);
        }
    }
    let n = start[runs];
    let right = guard(|| v.len() == n && (0..runs).all(|r| v.get(start[r]) == Some(&(10 * r as u64)) && v.get(start[r + 1] - 1) == Some(&(10 * r as u64))));
    if right != Ok(true) {
        return Out::Inconclusive("the vector under test came out wrong".into());
    }
    phase(true);
    // Position of the first element not below x, and of the first above x.
    let low = |x: u64| start[(((x + 9) / 10) as usize).min(runs)];
    let high = |x: u64| start[((x / 10 + 1) as usize).min(runs)];
    let answer = |s: usize, e: usize, a: usize, b: usize| {
        let (s, e) = (s.clamp(a, b), e.clamp(a, b));
        if s < e { Ok(s..e) } else { Err(s) }
    };
    let mut fp = seed;
    let rounds = rng.range(10, 60);
    let head = format!("{} of u64, seed {}: {} sorted elements in {} runs", KIND, seed, n, runs);
    for _ in 0..rounds {
        let pick = |rng: &mut Rng| if rng.chance(2, 3) { 10 * rng.below(runs) as u64 } else { rng.below(10 * runs + 10) as u64 };
        let (x, y) = (pick(&mut rng), pick(&mut rng));
        let edge = |rng: &mut Rng| if rng.chance(1, 2) { rng.position(n) } else { (start[rng.below(runs + 1)] + rng.below(3)).saturating_sub(1).min(n) };
        let (p, q) = (edge(&mut rng), edge(&mut rng));
        let (a, b) = (p.min(q), p.max(q));
        let (lo, hi) = bounds(&mut rng, a, b, n);
        fp = mix(fp, x ^ (a as u64) << 20 ^ b as u64);
        let how = rng.below(6);
        let r = guard(|| match how {
            0 => (v.equal_range(&x), answer(low(x), high(x), 0, n)),
            1 => (v.equal_range_in_range(&x, (lo, hi)), answer(low(x), high(x), a, b)),
            2 => (v.equal_range_in_range_by(&|z: &u64| z.cmp(&x), (lo, hi)), answer(low(x), high(x), a, b)),
            3 => (v.between_range(Bound::Included(&x), Bound::Included(&y)), answer(low(x), high(y).max(low(x)), 0, n)),
            4 => (v.between_range_in_range(Bound::Excluded(&x), Bound::Excluded(&y), (lo, hi)), answer(high(x), low(y).max(high(x)), a, b)),
            _ => {
                let at = rng.position(n - 1);
                let z = *v.get(at).unwrap();
                let t = (z / 10) as usize;
                (Ok(v.equal_range_for_index_by(at, &|e: &u64| e.cmp(&z))), Ok(start[t]..start[t + 1]))
            }
        });
        match r {
            Ok((g, e)) if g == e => {}
            r => return Out::Violated(format!("{}: search {} for {} and {} in {}..{}: {:?}", head, how, x, y, a, b, r)),
        }
    }
    let mut info = Info { fp, ..Info::default() };
    info.add("searches in long vectors", rounds as u64);
    info.max("length", n as u64);
    info.sample = head;
    Out::Held(info)
}

// ================================================================ C17 cost
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Counted(u64, [u64; 3]);
pub static COPIES: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
impl Clone for Counted {
    fn clone(&self) -> Self {
        COPIES.fetch_add(1, Relaxed);
        Counted(self.0, self.1)
    }
}
impl Elem for Counted {
    const NAME: &'static str = "counted";
    fn mk(v: u64) -> Self {
        Counted(v, [v; 3])
    }
    fn val(&self) -> u64 {
        self.0
    }
}

pub fn case_cost(seed: u64, max: usize) -> Out {
    reset_monitors();
    let mut rng = Rng::new(seed);
    let w = librrb::RRB_WIDTH;
    phase(false);
    // Long enough that a full copy stands out: at least 4 full levels' worth of what an edit may copy.
    let n = rng.range(max / 4, max);
    let vals: Vec<u64> = (0..n as u64).collect();
    let mut v: V<Counted> = match guard(|| build_shaped::<Counted>(&mut rng, &vals, 0)) {
        Ok(v) if v.len() == n => v,
        Ok(_) => return Out::Inconclusive("the vector under test came out wrong".into()),
        Err(e) => return Out::Inconclusive(e),
    };
    let mut info = Info::default();
    let mut fp = mix(seed, n as u64);
    let leaf = std::mem::size_of::<Counted>() * w;
    // A node: children pointers or elements, sizes, and bookkeeping.
    let inner = 2 * w * std::mem::size_of::<usize>() * 2 + 512;
    let h = ((n as f64).ln() / ((w / 2) as f64).ln()).ceil() as usize + 2;
    let mut sample = String::new();
    let mut twin = false;
    for _ in 0..rng.range(3, 10) {
        let n = v.len();
        if n < max / 8 {
            break;
        }
        let shared = rng.chance(2, 3);
        let (c0, a0) = (COPIES.load(Relaxed), ALLOC_TOTAL.load(Relaxed));
        let keep = if shared { Some(v.clone()) } else { None };
        let (c1, a1) = (COPIES.load(Relaxed), ALLOC_TOTAL.load(Relaxed));
        if shared {
            if c1 != c0 {
                return Out::Violated(format!("{}, seed {}: cloning a vector of {} copied {} elements", KIND, seed, n, c1 - c0));
            }
            if (a1 - a0) as usize > 64 * (h + 4) * 4 {
                return Out::Violated(format!("{}, seed {}: cloning a vector of {} allocated {} bytes", KIND, seed, n, a1 - a0));
            }
            info.max("bytes allocated by clone", a1 - a0);
            info.add("clones measured", 1);
        }
        let op = rng.below(12);
        let name = ["push_back", "push_front", "pop_back", "pop_front", "get_mut", "front_mut/back_mut", "focus_mut write", "split_off", "append clone", "insert", "remove", "extract_slice"][op];
        let at = rng.position(n - 1);
        let mut extra: Vec<V<Counted>> = vec![];
        let (oc, om) = (Counted::mk(1), Counted::mk(2));
        let other = if op == 8 && shared { keep.clone() } else { None };
        let (c2, a2) = (COPIES.load(Relaxed), ALLOC_TOTAL.load(Relaxed));
        let r = guard(|| match op {
            0 => v.push_back(oc),
            1 => v.push_front(oc),
            2 => { v.pop_back(); }
            3 => { v.pop_front(); }
            4 => *v.get_mut(at).unwrap() = oc,
            5 => { *v.front_mut().unwrap() = oc; *v.back_mut().unwrap() = om; }
            6 => *v.focus_mut().index(at) = oc,
            7 => extra.push(v.split_off(at)),
            8 => match other {
                Some(o) => v.append(o),
                None => { let x = v.split_off(at); v.prepend(x); }
            },
            9 => v.insert(at, oc),
            10 => { v.remove(at); }
            _ => { let x = v.extract_slice(at..at + (n - at) / 2); extra.push(x); }
        });
        let (c3, a3) = (COPIES.load(Relaxed), ALLOC_TOTAL.load(Relaxed));
        if let Err(e) = r {
            return Out::Inconclusive(format!("{} failed: {}", name, e));
        }
        let (copies, bytes) = ((c3 - c2) as usize, (a3 - a2) as usize);
        info.max(&format!("copies by {}{}", name, if shared { " when shared" } else { "" }), copies as u64);
        info.max(&format!("bytes by {}{}", name, if shared { " when shared" } else { "" }), bytes as u64);
        info.add(name, 1);
        fp = mix(fp, (op * 2 + shared as usize) as u64 ^ (at as u64) << 8);
        let point = op <= 6;
        // One path of nodes and a few leaves for point edits; a path of fully repacked nodes for the others.
        let (copy_bound, byte_bound) = if point {
            (4 * w, 4 * leaf + 3 * (h + 2) * inner)
        } else {
            (3 * w * w, 3 * w * leaf + 3 * w * (h + 2) * inner)
        };
        // After being joined with its own clone, a vector shares nodes with itself for good.
        let copy_bound = if shared || twin { copy_bound } else { 0 };
        twin |= op == 8 && shared;
        let msg = || format!("{}, seed {}: {} on {} vector of {} at {}", KIND, seed, name, if shared { "a shared" } else { "an unshared" }, n, at);
        if copies > copy_bound {
            return Out::Violated(format!("{} cloned {} elements (bound {})", msg(), copies, copy_bound));
        }
        if bytes > byte_bound {
            return Out::Violated(format!("{} allocated {} bytes (bound {})", msg(), bytes, byte_bound));
        }
        info.add("edits measured", 1);
        sample = format!("{}: {} copies, {} bytes", msg(), copies, bytes);
        drop(keep);
        if let Some(x) = extra.pop() {
            if x.len() > v.len() || rng.chance(1, 3) {
                v = x;
            }
        }
        if v.len() > 2 * max {
            v.slice_from_start(max);
        }
        // The rest may still be shared with what was split off, dropped here.
        drop(extra);
    }
    info.fp = fp;
    info.max("length", n as u64);
    info.sample = sample;
    Out::Held(info)
}

// ================================================================ C15 panics in user code
pub fn case_panic(seed: u64, max: usize) -> Out {
    reset_monitors();
    let mut rng = Rng::new(seed);
    let n = size(&mut rng, max);
    let op = rng.below(33);
    let name = [
        "sort_by", "sort", "sort_range_by_key", "dual_sort_by", "push_back", "push_front", "pop_back", "pop_front", "get_mut", "iter_mut", "focus_mut", "reverse", "append", "split_off", "insert", "remove", "collect", "into_iter", "search", "compare/hash", "constant", "get_mut_guarded",
        "slice_from_start", "slice_to_end", "extract_slice", "reverse_range", "drop", "into_iter both ends", "clone_from", "overwrite", "pop and drop", "dual_sort_range_by_key", "splice",
    ][op];
    let (keys, _) = pattern(&mut rng, n);
    let sorting = op <= 3 || op == 31;
    let pair = op == 3 || op == 31;
    let vals: Vec<u64> = keys.iter().enumerate().map(|(i, k)| if op == 18 { i as u64 } else { k << 24 | i as u64 }).collect();
    let shape_seed = rng.next();
    let (a, b) = rng.subrange(n);
    let at = rng.position(n.saturating_sub(1));
    let shared = !sorting || rng.chance(1, 2);
    let mask = match op {
        0 | 2 | 3 | 16 | 18 | 31 => F_CALL | F_CLONE,
        1 => F_CMP | F_CLONE,
        19 => F_EQ | F_CMP | F_HASH,
        22 | 23 | 24 | 32 => if rng.chance(1, 2) { F_CLONE } else { F_DROP },
        26..=30 => F_DROP,
        _ => F_CLONE,
    };
    let mut info = Info::default();
    let mut points: Vec<u64> = vec![u64::MAX >> 2];
    let mut first = true;
    let mut injected = 0u64;
    let mut leafwise = 0;
    let head = format!("{} of tracked, seed {}: {} on {} elements", KIND, seed, name, n);
    while let Some(k) = points.pop() {
        reset_monitors();
        let mut r2 = Rng::new(shape_seed);
        let mut v: V<Tr> = match guard(|| build_shaped::<Tr>(&mut r2, &vals, 0)) {
            Ok(v) => v,
            Err(e) => return Out::Inconclusive(e),
        };
        let vals2: Vec<u64> = (0..n as u64).map(|x| x + (1 << 50)).collect();
        let mut dual: V<Tr> = if pair { build_shaped(&mut r2, &vals2, 0) } else { V::new() };
        let sib = if shared { Some((v.clone(), dual.clone())) } else { None };
        // A second sibling sharing only parts.
        let sib2 = if shared && r2.chance(1, 2) {
            let mut c = v.clone();
            match guard(|| c.split_off(n / 2)) {
                Ok(x) => Some(x),
                Err(e) => return Out::Inconclusive(e),
            }
        } else {
            None
        };
        phase(true);
        let before = CALLBACKS.load(SeqCst);
        let src: Vec<Tr> = if op == 16 { vals.iter().map(|x| Tr::mk(*x)).collect() } else { vec![] };
        let mut out: Option<V<Tr>> = None;
        let e = Tr::mk(77);
        arm(mask, k);
        let r = guard(|| match op {
            0 => v.sort_range_by(&|x: &Tr, y: &Tr| { fuse(F_CALL); x.val().cmp(&y.val()) }, a..b),
            1 => v.sort(),
            2 => v.sort_range_by_key(&|x: &Tr| { fuse(F_CALL); x.val() >> 26 }, a..b),
            3 => v.dual_sort_by(&|x: &Tr, y: &Tr| { fuse(F_CALL); x.val().cmp(&y.val()) }, &mut dual),
            4 => v.push_back(e),
            5 => v.push_front(e),
            6 => { v.pop_back(); }
            7 => { v.pop_front(); }
            8 => { if let Some(x) = v.get_mut(at) { *x = e; } }
            9 => { for x in v.iter_mut() { let _ = x.val(); } }
            10 => {
                let mut f = v.focus_mut();
                let (mut l, mut r) = f.split_at(at);
                for k in 0..n {
                    let x = if k < at { l.index(k) } else { r.index(k - at) };
                    if k % 7 == 0 { std::mem::swap(x, &mut Tr::mk(5)); }
                }
            }
            11 => v.reverse(),
            12 => { let c = v.clone(); if seed % 2 == 0 { v.append(c) } else { v.prepend(c) } }
            13 => { let x = v.split_off(at); out = Some(x); }
            14 => v.insert(at, e),
            15 => { v.remove(at); }
            16 => { let x: V<Tr> = src.into_iter().map(|x| { fuse(F_CALL); x }).collect(); out = Some(x); }
            17 => { let c = v.clone(); let mut k = 0; for x in c { let _ = x.val(); k += 1; if k > at { break; } } }
            18 => {
                let t = at as u64;
                let _ = v.equal_range_by(&|x: &Tr| { fuse(F_CALL); x.val().cmp(&t) });
                let _ = v.equal_range_for_index_by(at, &|x: &Tr| { fuse(F_CALL); (x.val() / 10).cmp(&(t / 10)) });
            }
            19 => {
                use std::hash::{Hash, Hasher};
                let s = &sib.as_ref().unwrap().0;
                let _ = (v == *s, v.cmp(s), v.partial_cmp(s));
                let mut h = std::collections::hash_map::DefaultHasher::new();
                v.hash(&mut h);
                let _ = h.finish();
            }
            20 => { let x = V::constant_vec_of_length(e, at + 1); out = Some(x); }
            21 => { if let Some(mut g) = v.get_mut_guarded(at) { *g = e; } }
            22 => v.slice_from_start(at),
            23 => v.slice_to_end(at),
            24 => drop(v.extract_slice(a..b)),
            25 => v.reverse_range(a..b),
            26 => drop(std::mem::replace(&mut v, V::new())),
            27 => {
                let mut it = v.clone().into_iter();
                for k in 0..at + 1 {
                    drop(if (seed >> (k % 60)) & 1 == 0 { it.next() } else { it.next_back() });
                }
            }
            28 => { let c: V<Tr> = vals[..at.min(n)].iter().map(|x| Tr::mk(*x)).collect(); v.clone_from(&c); }
            29 => { for x in v.iter_mut() { *x = Tr::mk(3); } }
            30 => { for k in 0..at { if k % 2 == 0 { drop(v.pop_back()) } else { drop(v.pop_front()) } } }
            31 => v.dual_sort_range_by_key(&|x: &Tr| { fuse(F_CALL); x.val() >> 26 }, a..b, &mut dual),
            _ => {
                let t = v.split_off(at);
                v.slice_to_end(at / 2);
                v.append(t);
            }
        });
        disarm();
        let calls = CALLBACKS.load(SeqCst) - before;
        let place = format!("{}, callback {} panics (range {}..{}, at {})", head, k, a, b, at);
        if first {
            first = false;
            if let Err(e) = r {
                return Out::Inconclusive(format!("{}: fails by itself: {}", head, e));
            }
            info.add("callbacks seen", calls);
            leafwise = calls;
            if calls == 0 {
                break;
            }
            let limit = if cfg!(miri) { 3 } else { 40 };
            if calls <= limit {
                points.extend(0..calls);
            } else {
                for i in 0..limit {
                    points.push(match i % 4 { 0 => rng.next() % calls.min(20), 1 => calls - 1 - rng.next() % calls.min(20), _ => rng.next() % calls });
                }
                points.sort();
                points.dedup();
            }
        } else if r.is_err() {
            injected += 1;
        }
        let panicked = r.is_err();
        // Bystanders.
        if let Some((s, d)) = &sib {
            match obs_drain(s, false) {
                Ok(x) if x == vals => {}
                Ok(x) => return Out::Violated(format!("{}: a clone made before changed: {}", place, diff(&x, &vals).unwrap())),
                Err(e) => return Out::Violated(format!("{}: a clone made before is unusable: {}", place, e)),
            }
            if pair && obs_drain(d, true) != Ok(vals2.clone()) {
                return Out::Violated(format!("{}: a clone of the second vector changed", place));
            }
        }
        if let Some(s) = &sib2 {
            if obs_drain(s, true) != Ok(vals[n / 2..].to_vec()) {
                return Out::Violated(format!("{}: a vector sharing a part changed", place));
            }
        }
        if sorting && panicked {
            let none = vec![];
            for (x, orig) in [(&v, &vals), (&dual, if pair { &vals2 } else { &none })] {
                let got = guard(|| x.iter().map(|e| e.val()).collect::<Vec<u64>>());
                match got {
                    Ok(mut g) => {
                        let mut o = (*orig).clone();
                        g.sort();
                        o.sort();
                        if g != o {
                            return Out::Violated(format!("{}: the vector no longer holds its elements", place));
                        }
                    }
                    Err(e) => return Out::Violated(format!("{}: the vector is unusable: {}", place, e)),
                }
                match obs_drain(x, false) {
                    Ok(d) if d.len() == orig.len() => {}
                    _ => return Out::Violated(format!("{}: the vector cannot be popped empty", place)),
                }
            }
        }
        // What does not move elements around leaves them all in place; so does a push or pop whose
        // only work with elements was to copy the leaf that it works on.
        let w = librrb::RRB_WIDTH as u64;
        let small = (n as u64) < w - 1;
        let big = n as u64 > 4 * w * w && leafwise >= 2 && leafwise < w;
        let stays = match op {
            4..=7 => small || big,
            8 | 9 | 16..=21 | 27 => true,
            10 | 11 | 25 => true,
            _ => false,
        };
        if stays && panicked {
            let len = v.len();
            let got = guard(|| {
                let a: Vec<u64> = v.iter().take(n + 100).map(|x| x.val()).collect();
                let b: Vec<u64> = (0..v.len().min(n + 100)).map(|i| v.get(i).map(|x| x.val()).unwrap_or(u64::MAX)).collect();
                (a, b)
            });
            let (got, by_get) = match got {
                Ok(g) => g,
                Err(e) => return Out::Violated(format!("{}: the vector is unusable: {}", place, e)),
            };
            if got != by_get || got.len() != len {
                return Out::Violated(format!("{}: len is {}, iteration gives {} elements and get {}", place, len, got.len(), by_get.len()));
            }
            let fine = match op {
                10 => got.len() == n && got.iter().enumerate().all(|(i, x)| *x == vals[i] || (i % 7 == 0 && *x == 5)),
                11 | 25 => {
                    let (mut g, mut o) = (got.clone(), vals.clone());
                    g.sort();
                    o.sort();
                    g == o
                }
                _ => got == vals,
            };
            if !fine {
                return Out::Violated(format!("{}: the vector no longer holds its elements ({} of {})", place, got.len(), n));
            }
            info.add("contents kept over a panic", 1);
        }
        // Use and drop what is left. Panics are allowed here, corruption is not.
        if panicked {
            let mut keep = Some(v);
            let _ = guard(|| {
                let v = keep.as_mut().unwrap();
                let l = v.len();
                for p in [0, l / 2, l.saturating_sub(1)] {
                    let _ = v.get(p).map(|x| x.val());
                }
                for x in v.iter().take(300) {
                    let _ = x.val();
                }
            });
            let _ = guard(|| {
                let v = keep.as_mut().unwrap();
                v.push_back(Tr::mk(1));
                v.push_front(Tr::mk(2));
                for _ in 0..70 {
                    let _ = v.pop_back().map(|x| x.val());
                    let _ = v.pop_front().map(|x| x.val());
                }
            });
            let c = guard(|| keep.as_ref().unwrap().clone()).ok();
            if let Err(e) = guard(move || drop((keep, c))) {
                return Out::Violated(format!("{}: dropping the vector: {}", place, e));
            }
        } else {
            drop(v);
        }
        if let Err(e) = guard(move || drop((dual, sib, sib2, out))) {
            return Out::Violated(format!("{}: dropping: {}", place, e));
        }
        if let Some(e) = reported() {
            return Out::Violated(format!("{}: {}", place, e));
        }
        if TR_LIVE.load(SeqCst) < 0 {
            return Out::Violated(format!("{}: more elements dropped than created", place));
        }
    }
    info.fp = mix(seed, mix(op as u64, n as u64));
    info.trivial = injected == 0;
    info.add("panics injected", injected);
    info.add(&format!("injected in {}", name), injected);
    info.max("length", n as u64);
    info.sample = format!("{}: {} panic points", head, injected);
    Out::Held(info)
}

// ================================================================ C13 user code that keeps no promises
/// Comparators and keys without an order, iterators that lie about their length, foci, iterators and
/// guards that are forgotten. Nothing is expected of the results, but only sound memory may be seen.
pub fn case_hostile<E: Elem>(seed: u64, max: usize) -> Out {
    use std::cell::{Cell, RefCell};
    reset_monitors();
    let mut rng = Rng::new(seed);
    let n = size(&mut rng, max);
    let vals: Vec<u64> = (0..n as u64).map(|x| x * 3).collect();
    let mut v: V<E> = match guard(|| build_shaped(&mut rng, &vals, 0)) {
        Ok(v) => v,
        Err(e) => return Out::Inconclusive(e),
    };
    let mut other: V<E> = match guard(|| build_shaped(&mut rng, &vals, 0)) {
        Ok(v) => v,
        Err(e) => return Out::Inconclusive(e),
    };
    let mut keep: Vec<V<E>> = vec![];
    let mut fp = mix(seed, n as u64);
    let mut info = Info::default();
    phase(true);
    struct Liar<I>(I, usize);
    impl<I: Iterator> Iterator for Liar<I> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            self.0.next()
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            (self.1, Some(self.1))
        }
    }
    let mut panics = 0u64;
    let rounds = rng.range(3, if cfg!(miri) { 6 } else { 20 });
    for _ in 0..rounds {
        if rng.chance(1, 3) {
            keep.push(v.clone());
            keep.truncate(3);
        }
        let n = v.len();
        let m = n.min(other.len());
        let (a, b) = rng.subrange(n);
        let (c, d) = rng.subrange(m);
        let at = rng.position(n);
        let op = rng.below(18);
        fp = mix(fp, op as u64 ^ (a as u64) << 8 ^ (b as u64) << 30);
        let left = Cell::new(60 * n + 200);
        let inner = RefCell::new(Rng::new(rng.next()));
        let bias = 1 + rng.below(3);
        let spend = || {
            if left.get() == 0 {
                panic!("enough");
            }
            left.set(left.get() - 1);
        };
        let order = |x: &E, y: &E| {
            let _ = (x.val(), y.val());
            spend();
            match inner.borrow_mut().below(2 + bias) {
                0 => std::cmp::Ordering::Less,
                1 => std::cmp::Ordering::Greater,
                _ => std::cmp::Ordering::Equal,
            }
        };
        let side = |x: &E| order(x, x);
        let key = |x: &E| {
            let _ = x.val();
            spend();
            inner.borrow_mut().below(5)
        };
        let r = guard(|| match op {
            0 | 1 => v.sort_range_by(&order, a..b),
            2 => v.sort_range_by_key(&key, a..b),
            3 | 4 => v.dual_sort_range_by(&order, c..d, &mut other),
            5 => v.dual_sort_range_by_key(&key, c..d, &mut other),
            6 => { let _ = v.equal_range_by(&side); }
            7 => { let _ = v.equal_range_in_range_by(&side, a..b); }
            8 => { let _ = v.equal_range_for_index_by(at, &side); }
            9 => {
                let lie = [0, 1, usize::MAX, usize::MAX / 2, 3][inner.borrow_mut().below(5)];
                let x: V<E> = Liar((0..at.min(300) as u64).map(E::mk), lie).collect();
                other = x;
            }
            10 => {
                let mut f = v.focus_mut();
                for k in [at / 2, 0, n / 2] { if let Some(x) = f.get(k) { *x = E::mk(k as u64); } }
                std::mem::forget(f);
            }
            11 => {
                let mut f = v.focus_mut();
                if let Some(x) = f.get(at / 3) { *x = E::mk(1); }
                {
                    let (mut l, mut r) = f.split_at(at);
                    if let Some(x) = l.get(0) { *x = E::mk(2); }
                    if let Some(x) = r.get(0) { *x = E::mk(3); }
                    if bias == 1 { std::mem::forget(l); }
                    if bias != 2 { std::mem::forget(r); }
                }
                if let Some(x) = f.get(at / 2) { *x = E::mk(4); }
                if inner.borrow_mut().chance(1, 2) { std::mem::forget(f); }
            }
            12 => {
                let mut it = v.iter_mut();
                for k in 0..at { if let Some(x) = it.next() { if k % 5 == 0 { *x = E::mk(9); } } }
                std::mem::forget(it);
            }
            13 => {
                let mut it = v.clone().into_iter();
                for k in 0..at { let _ = if k % 2 == 0 { it.next() } else { it.next_back() }.map(|x| x.val()); }
                std::mem::forget(it);
            }
            14 => {
                if let Some(mut g) = v.get_mut_guarded(a) {
                    *g = E::mk(11);
                    std::mem::forget(g);
                }
            }
            15 => {
                let mut f = v.focus();
                f.narrow(a..b);
                let _ = f.get(0).map(|x| x.val());
                std::mem::forget(f);
            }
            16 => {
                let mut it = v.iter();
                let _ = it.next().map(|x| x.val());
                let _ = it.next_back().map(|x| x.val());
                std::mem::forget(it);
                std::mem::forget(v.clone());
            }
            _ => {
                let r = v.split_off(at);
                v.prepend(r);
            }
        });
        panics += r.is_err() as u64;
        info.add(["unordered sorts", "unordered sorts", "unordered keys", "unordered dual sorts", "unordered dual sorts", "unordered keys", "unordered searches", "unordered searches", "unordered searches", "lying lengths", "forgotten foci", "forgotten parts", "forgotten iterators", "forgotten iterators", "forgotten guards", "forgotten foci", "forgotten clones", "moves"][op], 1);
        // Read everything.
        for x in keep.iter().chain([&v, &other]) {
            let _ = guard(|| {
                let mut s = 0u64;
                for e in x.iter() {
                    s = s.wrapping_add(e.val());
                }
                for p in [0, at / 2, at] {
                    s = s.wrapping_add(x.get(p).map_or(0, |e| e.val()));
                }
                std::hint::black_box(s)
            });
        }
        if let Some(e) = reported() {
            std::mem::forget((v, other, keep));
            return Out::Violated(format!("{} of {}, seed {}: after hostile call {} over {} elements: {}", KIND, E::NAME, seed, op, n, e));
        }
    }
    let _ = guard(|| {
        v.push_back(E::mk(1));
        v.push_front(E::mk(2));
        while let Some(x) = v.pop_back() {
            let _ = x.val();
        }
    });
    let _ = guard(move || drop((v, other, keep)));
    if let Some(e) = reported() {
        return Out::Violated(format!("{} of {}, seed {}: dropping after hostile calls: {}", KIND, E::NAME, seed, e));
    }
    info.fp = fp;
    info.trivial = n < 2;
    info.add("panics in hostile calls", panics);
    info.sample = format!("{} of {}, seed {}: {} hostile calls on {} elements", KIND, E::NAME, seed, rounds, n);
    Out::Held(info)
}
