// Included once per reference-counting kind: V, Fo, Fm and KIND are defined by the includer.
use crate::base::*;
use crate::profile::*;
use std::collections::VecDeque;
use std::ops::Bound;
use std::rc::Rc;

pub struct Slot<E: Elem> {
    pub v: V<E>,
    pub m: Rc<Vec<u64>>,
}
impl<E: Elem> Slot<E> {
    pub fn empty() -> Self {
        Slot { v: V::new(), m: Rc::new(vec![]) }
    }
    fn mm(&mut self) -> &mut Vec<u64> {
        Rc::make_mut(&mut self.m)
    }
}

/// The contents by popping a clone: does not depend on positional lookup.
pub fn obs_drain<E: Elem>(v: &V<E>, back: bool) -> Result<Vec<u64>, String> {
    guard(|| {
        let mut c = v.clone();
        let mut out = Vec::new();
        if back {
            while let Some(x) = c.pop_back() {
                out.push(x.val());
            }
            out.reverse();
        } else {
            while let Some(x) = c.pop_front() {
                out.push(x.val());
            }
        }
        if !c.is_empty() {
            panic!("vector claims {} elements after popping all", c.len());
        }
        out
    })
}

pub fn diff(got: &[u64], want: &[u64]) -> Option<String> {
    if got == want {
        return None;
    }
    if got.len() != want.len() {
        return Some(format!("{} elements instead of {}", got.len(), want.len()));
    }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap();
    Some(format!("element {} of {} is {} instead of {}", i, want.len(), got[i], want[i]))
}

pub fn bounds(rng: &mut Rng, a: usize, b: usize, n: usize) -> (Bound<usize>, Bound<usize>) {
    // The positions a..b of a sequence of n, with a bound kind that can express it.
    let lo = match rng.below(4) {
        0 if a > 0 => Bound::Excluded(a - 1),
        1 if a == 0 => Bound::Unbounded,
        _ => Bound::Included(a),
    };
    let hi = match rng.below(4) {
        0 if b > 0 => Bound::Included(b - 1),
        1 if b == n => Bound::Unbounded,
        _ => Bound::Excluded(b),
    };
    (lo, hi)
}

/// A range that reaches outside of a sequence of n.
pub fn outside(rng: &mut Rng, n: usize) -> (Bound<usize>, Bound<usize>) {
    let over = if rng.chance(1, 2) { n + 1 + rng.below(100) } else { n + 1 };
    let lo = match rng.below(4) {
        0 => Bound::Unbounded,
        1 => Bound::Included(rng.position(over)),
        2 => Bound::Excluded(rng.position(n)),
        _ => Bound::Included(rng.position(n)),
    };
    let hi = match rng.below(4) {
        0 => Bound::Included(usize::MAX - rng.below(2)),
        1 => Bound::Excluded(usize::MAX - rng.below(2)),
        2 => Bound::Included(over - 1),
        _ => Bound::Excluded(over),
    };
    (lo, hi)
}

pub struct World<E: Elem> {
    pub slots: Vec<Slot<E>>,
    pub rng: Rng,
    pub next: u64,
    pub max_len: usize,
    pub info: Info,
    pub trace: VecDeque<String>,
    pub fp: u64,
    pub nops: usize,
    pub concats: usize,
    /// The most elements any vector of the program has had.
    pub longest: usize,
    pub full_every: usize,
    pub touched: Vec<usize>,
    pub last: usize,
}

type R<T> = Result<T, Bad>;

macro_rules! want {
    ($class:expr, $cond:expr, $($arg:tt)*) => {
        if !$cond {
            return Err(Bad::new($class, format!($($arg)*)));
        }
    };
}

impl<E: Elem> World<E> {
    pub fn new(seed: u64, max_len: usize) -> Self {
        World {
            slots: vec![Slot::empty()],
            rng: Rng::new(seed),
            next: 1,
            max_len,
            info: Info::default(),
            trace: VecDeque::new(),
            fp: seed,
            nops: 0,
            concats: 0,
            longest: 0,
            full_every: 8,
            touched: vec![],
            last: 0,
        }
    }

    pub fn note(&mut self, s: String) {
        if self.trace.len() >= 40 {
            self.trace.pop_front();
        }
        self.trace.push_back(s);
    }

    pub fn fresh(&mut self) -> (E, u64) {
        let v = self.next;
        self.next += 1;
        (E::mk(v), E::norm(v))
    }

    fn call<T>(&self, class: Class, what: &str, f: impl FnOnce() -> T) -> R<T> {
        guard(f).map_err(|e| Bad::new(class, format!("{}: {}", what, e)))
    }

    // ------------------------------------------------------------ observation
    fn observer(&self, class: Class, s: &Slot<E>, msg: String) -> Bad {
        let ok = matches!(obs_drain(&s.v, false), Ok(d) if d == *s.m);
        let mut b = Bad::new(class, msg);
        b.observer_only = ok;
        b
    }

    pub fn check_cheap(&mut self, i: usize) -> R<()> {
        let mut rng = self.rng.clone();
        let s = &self.slots[i];
        let n = s.m.len();
        want!(Class::Deque, s.v.len() == n, "len is {} instead of {}", s.v.len(), n);
        want!(Class::Deque, s.v.is_empty() == (n == 0), "is_empty is wrong at length {}", n);
        let f = self.call(Class::Deque, "front", || s.v.front().map(|x| x.val()))?;
        want!(Class::Deque, f == s.m.first().copied(), "front is {:?} instead of {:?}", f, s.m.first());
        let b = self.call(Class::Deque, "back", || s.v.back().map(|x| x.val()))?;
        want!(Class::Deque, b == s.m.last().copied(), "back is {:?} instead of {:?}", b, s.m.last());
        for _ in 0..6 {
            let p = rng.position(n);
            match guard(|| s.v.get(p).map(|x| x.val())) {
                Ok(g) if g == s.m.get(p).copied() => {}
                Ok(g) => return Err(self.observer(Class::Access, s, format!("get({}) of {} is {:?} instead of {:?}", p, n, g, s.m.get(p)))),
                Err(e) => return Err(self.observer(Class::Access, s, format!("get({}) of {}: {}", p, n, e))),
            }
        }
        self.rng.next();
        self.info.add("observations", 10);
        Ok(())
    }

    pub fn check_full(&mut self, i: usize) -> R<()> {
        self.check_cheap(i)?;
        let s = &self.slots[i];
        let n = s.m.len();
        match guard(|| (0..n).map(|p| s.v.get(p).map(|x| x.val()).unwrap()).collect::<Vec<u64>>()) {
            Ok(g) => {
                if let Some(d) = diff(&g, &s.m) {
                    return Err(self.observer(Class::Access, s, format!("by get: {}", d)));
                }
            }
            Err(e) => return Err(self.observer(Class::Access, s, format!("get of all positions: {}", e))),
        }
        match guard(|| {
            let mut out = Vec::with_capacity(n);
            for x in s.v.iter() {
                if out.len() > n {
                    break;
                }
                out.push(x.val());
            }
            out
        }) {
            Ok(g) => {
                if let Some(d) = diff(&g, &s.m) {
                    return Err(self.observer(Class::Iter, s, format!("by iter: {}", d)));
                }
            }
            Err(e) => return Err(self.observer(Class::Iter, s, format!("iter: {}", e))),
        }
        self.info.add("observations", 2 * n as u64);
        self.info.add("full checks", 1);
        Ok(())
    }

    /// Like check_full, and pops everything from both ends of clones.
    pub fn check_deep(&mut self, i: usize) -> R<()> {
        self.check_full(i)?;
        let s = &self.slots[i];
        for back in [false, true] {
            let d = obs_drain(&s.v, back).map_err(|e| Bad::new(Class::Deque, format!("popping all: {}", e)))?;
            if let Some(d) = diff(&d, &s.m) {
                return Err(Bad::new(Class::Deque, format!("by popping all: {}", d)));
            }
        }
        self.info.add("drains", 2);
        Ok(())
    }

    // ------------------------------------------------------------ operations
    fn burst(&mut self, n: usize) -> usize {
        let w = librrb::RRB_WIDTH;
        let k = match self.rng.below(11) {
            10 if self.max_len > 50_000 => self.rng.below(self.max_len / 2),
            9 if self.max_len > 50_000 && self.rng.chance(1, 2) => self.rng.below(self.max_len / 8),
            10 => self.rng.below(w * w / 2),
            0..=3 => 1 + self.rng.below(3),
            4 => w - 2 + self.rng.below(5),
            5 => self.rng.below(w),
            6 => w * (1 + self.rng.below(4)) + self.rng.below(3),
            7 => self.rng.below(4 * w),
            8 => n / 2,
            _ => self.rng.below(n + 2 * w),
        };
        k.min(self.max_len)
    }

    pub fn make(&mut self, k: usize) -> Slot<E> {
        // A fresh vector of k elements, made in one of several ways.
        let mut s = Slot { v: V::new(), m: Rc::new(Vec::with_capacity(k)) };
        match self.rng.below(4) {
            // Short ones with the macros.
            3 if k < 4 => {
                let f: Vec<(E, u64)> = (0..k).map(|_| self.fresh()).collect();
                s.m = Rc::new(f.iter().map(|x| x.1).collect());
                let mut f = f.into_iter().map(|x| x.0);
                let mut one = || f.next().unwrap();
                s.v = match k {
                    0 => literal![],
                    1 => literal![one()],
                    2 => literal![one(), one(),],
                    _ => literal![one(), one(), one()],
                };
            }
            0 => {
                let mut es = Vec::with_capacity(k);
                for _ in 0..k {
                    let (e, v) = self.fresh();
                    es.push(e);
                    s.mm().push(v);
                }
                s.v = es.into_iter().collect();
            }
            1 => {
                for _ in 0..k {
                    let (e, v) = self.fresh();
                    s.v.push_front(e);
                    s.mm().push(v);
                }
                s.mm().reverse();
            }
            2 => {
                let mut m = VecDeque::new();
                for _ in 0..k {
                    let (e, v) = self.fresh();
                    if self.rng.chance(1, 2) {
                        s.v.push_front(e);
                        m.push_front(v);
                    } else {
                        s.v.push_back(e);
                        m.push_back(v);
                    }
                }
                s.m = Rc::new(m.into_iter().collect());
            }
            _ => {
                for _ in 0..k {
                    let (e, v) = self.fresh();
                    s.v.push_back(e);
                    s.mm().push(v);
                }
            }
        }
        s
    }

    pub fn op_deque(&mut self, i: usize) -> R<Vec<usize>> {
        const C: Class = Class::Deque;
        let n = self.slots[i].m.len();
        let kind = self.rng.below(9);
        let k = self.burst(n);
        let name = ["push_back", "push_front", "pop_back", "pop_front", "mixed", "front_mut", "back_mut", "churn", "singleton"][kind];
        self.note(format!("{}[{}] x{} (len {})", name, i, k, n));
        self.info.add(name, 1);
        let grow = n + k <= self.max_len;
        match kind {
            0 | 1 if grow => {
                let mut pushed = Vec::with_capacity(k);
                for _ in 0..k {
                    let (e, v) = self.fresh();
                    let s = &mut self.slots[i];
                    guard(|| if kind == 0 { s.v.push_back(e) } else { s.v.push_front(e) }).map_err(|e| Bad::new(C, format!("{}: {}", name, e)))?;
                    pushed.push(v);
                    want!(C, s.v.len() == n + pushed.len(), "len after {} on {} is {}", name, n + pushed.len() - 1, s.v.len());
                }
                let s = &mut self.slots[i];
                if kind == 0 {
                    s.mm().extend(pushed);
                } else {
                    pushed.reverse();
                    pushed.extend(s.m.iter());
                    s.m = Rc::new(pushed);
                }
            }
            0..=3 => {
                let back = kind % 2 == 0;
                let s = &mut self.slots[i];
                let m = Rc::make_mut(&mut s.m);
                let mut at = 0;
                let mut end = m.len();
                for _ in 0..k {
                    let got = guard(|| if back { s.v.pop_back() } else { s.v.pop_front() }).map_err(|e| Bad::new(C, format!("{}: {}", name, e)))?;
                    let exp = if at == end {
                        None
                    } else if back {
                        end -= 1;
                        Some(m[end])
                    } else {
                        at += 1;
                        Some(m[at - 1])
                    };
                    let got = got.map(|x| x.val());
                    want!(C, got == exp, "{} gave {:?} instead of {:?}", name, got, exp);
                    want!(C, s.v.len() == end - at, "len after {} is {} instead of {}", name, s.v.len(), end - at);
                }
                m.truncate(end);
                m.drain(..at);
            }
            4 | 7 => {
                // Interleaved, around the present length: 4 wanders, 7 goes to and fro.
                let mut m: VecDeque<u64> = self.slots[i].m.iter().copied().collect();
                let bias = self.rng.range(1, 9);
                for step in 0..k {
                    let push = if kind == 7 { (step / (1 + k / 4)) % 2 == 0 } else { self.rng.chance(bias, 10) };
                    let back = self.rng.chance(1, 2);
                    if push && m.len() < self.max_len {
                        let (e, v) = self.fresh();
                        let s = &mut self.slots[i];
                        guard(|| if back { s.v.push_back(e) } else { s.v.push_front(e) }).map_err(|e| Bad::new(C, format!("push: {}", e)))?;
                        if back { m.push_back(v) } else { m.push_front(v) }
                    } else {
                        let s = &mut self.slots[i];
                        let got = guard(|| if back { s.v.pop_back() } else { s.v.pop_front() }).map_err(|e| Bad::new(C, format!("pop: {}", e)))?;
                        let exp = if back { m.pop_back() } else { m.pop_front() };
                        let got = got.map(|x| x.val());
                        want!(C, got == exp, "pop gave {:?} instead of {:?}", got, exp);
                    }
                    let s = &self.slots[i];
                    let fb = guard(|| (s.v.front().map(|x| x.val()), s.v.back().map(|x| x.val()))).map_err(|e| Bad::new(C, format!("front/back: {}", e)))?;
                    want!(C, fb == (m.front().copied(), m.back().copied()) && s.v.len() == m.len(), "after a push or pop, front and back are {:?} instead of {:?}, len {} instead of {}", fb, (m.front(), m.back()), s.v.len(), m.len());
                }
                self.slots[i].m = Rc::new(m.into_iter().collect());
            }
            5 | 6 => {
                let (e, v) = self.fresh();
                let s = &mut self.slots[i];
                let got = guard(|| {
                    let r = if kind == 5 { s.v.front_mut() } else { s.v.back_mut() };
                    r.map(|x| std::mem::replace(x, e).val())
                })
                .map_err(|e| Bad::new(C, format!("{}: {}", name, e)))?;
                let m = s.mm();
                let exp = if m.is_empty() {
                    None
                } else {
                    let p = if kind == 5 { 0 } else { m.len() - 1 };
                    Some(std::mem::replace(&mut m[p], v))
                };
                want!(C, got == exp, "{} saw {:?} instead of {:?}", name, got, exp);
            }
            _ => {
                let (e, v) = self.fresh();
                let x = self.call(C, name, || V::singleton(e))?;
                self.slots[i] = Slot { v: x, m: Rc::new(vec![v]) };
            }
        }
        Ok(vec![i])
    }

    pub fn op_edit(&mut self, i: usize, slots: usize) -> R<Vec<usize>> {
        const C: Class = Class::Edit;
        let n = self.slots[i].m.len();
        let kind = self.rng.weighted(&[5, 4, 5, 3, 3, 5, 4, 4, 1, 2, 2, 3]);
        let name = ["append", "prepend", "split_off", "slice_from_start", "slice_to_end", "extract_slice", "insert", "remove", "reverse", "reverse_range", "constant", "shuffle-cat"][kind];
        self.info.add(name, 1);
        let mut touched = vec![i];
        match kind {
            0 | 1 => {
                // The other side: a slot moved, a clone of a slot, of itself, or something fresh.
                let pick = self.rng.below(6);
                let other = match pick {
                    0 => {
                        let j = self.rng.below(self.slots.len());
                        if j == i { Slot::empty() } else {
                            touched.push(j);
                            std::mem::replace(&mut self.slots[j], Slot::empty())
                        }
                    }
                    1 => {
                        let j = self.rng.below(self.slots.len());
                        Slot { v: self.slots[j].v.clone(), m: self.slots[j].m.clone() }
                    }
                    2 => Slot { v: self.slots[i].v.clone(), m: self.slots[i].m.clone() },
                    3 => { let k = self.rng.below(4); self.make(k) }
                    _ => { let k = self.burst(n); self.make(k) }
                };
                self.note(format!("{}[{}] source {} len {} (len {})", name, i, pick, other.m.len(), n));
                if n + other.m.len() > self.max_len {
                    self.note("too long, dropped".into());
                    return Ok(touched);
                }
                self.concats += 1;
                let s = &mut self.slots[i];
                let Slot { v: ov, m: om } = other;
                guard(|| if kind == 0 { s.v.append(ov) } else { s.v.prepend(ov) }).map_err(|e| Bad::new(C, format!("{}: {}", name, e)))?;
                if kind == 0 {
                    s.mm().extend(om.iter());
                } else {
                    let mut m = (*om).clone();
                    m.extend(s.m.iter());
                    s.m = Rc::new(m);
                }
            }
            2 => {
                let at = if self.rng.chance(1, 12) { n + self.rng.below(100) } else { self.rng.position(n) };
                self.note(format!("split_off[{}]({}) (len {})", i, at, n));
                let s = &mut self.slots[i];
                let r = guard(|| s.v.split_off(at)).map_err(|e| Bad::new(C, format!("split_off({}) of {}: {}", at, n, e)))?;
                let rm = s.mm().split_off(at.min(n));
                let j = self.put(Slot { v: r, m: Rc::new(rm) }, slots, i);
                touched.push(j);
            }
            3 | 4 => {
                let at = if self.rng.chance(1, 12) { n + self.rng.below(100) } else { self.rng.position(n) };
                self.note(format!("{}[{}]({}) (len {})", name, i, at, n));
                let s = &mut self.slots[i];
                guard(|| if kind == 3 { s.v.slice_from_start(at) } else { s.v.slice_to_end(at) }).map_err(|e| Bad::new(C, format!("{}({}) of {}: {}", name, at, n, e)))?;
                let m = s.mm();
                if kind == 3 { m.truncate(at) } else { m.drain(..at.min(n)); }
            }
            5 => {
                let (a, b) = self.rng.subrange(n);
                let (lo, hi) = if self.rng.chance(1, 12) {
                    let over = if self.rng.chance(1, 3) { usize::MAX - self.rng.below(2) } else { n + self.rng.below(50) };
                    (Bound::Included(a), if self.rng.chance(1, 2) { Bound::Excluded(over) } else { Bound::Included(over) })
                } else {
                    bounds(&mut self.rng, a, b, n)
                };
                let b = match hi { Bound::Excluded(x) => x.min(n), Bound::Included(x) => x.saturating_add(1).min(n), Bound::Unbounded => n };
                let form = self.rng.below(3);
                self.note(format!("extract_slice[{}]({:?},{:?}) (len {})", i, lo, hi, n));
                let s = &mut self.slots[i];
                let r = guard(|| match (form, lo, hi) {
                    (0, Bound::Included(x), Bound::Excluded(y)) => s.v.extract_slice(x..y),
                    (0, Bound::Included(x), Bound::Unbounded) => s.v.extract_slice(x..),
                    (0, Bound::Unbounded, Bound::Excluded(y)) => s.v.extract_slice(..y),
                    (0, Bound::Included(x), Bound::Included(y)) => s.v.extract_slice(x..=y),
                    _ => s.v.extract_slice((lo, hi)),
                })
                .map_err(|e| Bad::new(C, format!("extract_slice({:?},{:?}) of {}: {}", lo, hi, n, e)))?;
                let rm: Vec<u64> = s.mm().drain(a..b).collect();
                let j = self.put(Slot { v: r, m: Rc::new(rm) }, slots, i);
                touched.push(j);
            }
            6 => {
                let times = if self.rng.chance(1, 4) { self.rng.range(2, 30) } else { 1 };
                for _ in 0..times {
                    let n = self.slots[i].m.len();
                    if n >= self.max_len {
                        break;
                    }
                    let at = if self.rng.chance(1, 12) { n + self.rng.below(20) } else { self.rng.position(n) };
                    self.note(format!("insert[{}]({}) (len {})", i, at, n));
                    let (e, v) = self.fresh();
                    let s = &mut self.slots[i];
                    guard(|| s.v.insert(at, e)).map_err(|e| Bad::new(C, format!("insert({}) of {}: {}", at, n, e)))?;
                    s.mm().insert(at.min(n), v);
                    want!(C, s.v.len() == n + 1, "len after insert({}) of {} is {}", at, n, s.v.len());
                }
            }
            7 => {
                let times = if self.rng.chance(1, 4) { self.rng.range(2, 30) } else { 1 };
                for _ in 0..times {
                    let n = self.slots[i].m.len();
                    let at = if self.rng.chance(1, 12) { n + self.rng.below(20) } else { self.rng.position(n) };
                    self.note(format!("remove[{}]({}) (len {})", i, at, n));
                    let s = &mut self.slots[i];
                    let got = guard(|| s.v.remove(at).map(|x| x.val())).map_err(|e| Bad::new(C, format!("remove({}) of {}: {}", at, n, e)))?;
                    let exp = if at < n { Some(s.mm().remove(at)) } else { None };
                    want!(C, got == exp, "remove({}) of {} gave {:?} instead of {:?}", at, n, got, exp);
                    want!(C, s.v.len() == s.m.len(), "len after remove({}) of {} is {}", at, n, s.v.len());
                }
            }
            8 => {
                self.note(format!("reverse[{}] (len {})", i, n));
                let s = &mut self.slots[i];
                guard(|| s.v.reverse()).map_err(|e| Bad::new(C, format!("reverse of {}: {}", n, e)))?;
                s.mm().reverse();
            }
            9 => {
                let (a, b) = self.rng.subrange(n);
                if self.rng.chance(1, 20) {
                    let (lo, hi) = outside(&mut self.rng, n);
                    self.note(format!("reverse_range[{}]({:?},{:?}) (len {})", i, lo, hi, n));
                    let s = &mut self.slots[i];
                    want!(C, guard(|| s.v.reverse_range((lo, hi))).is_err(), "reverse_range({:?},{:?}) of {} does not panic", lo, hi, n);
                }
                let (lo, hi) = bounds(&mut self.rng, a, b, n);
                self.note(format!("reverse_range[{}]({:?},{:?}) (len {})", i, lo, hi, n));
                let s = &mut self.slots[i];
                guard(|| s.v.reverse_range((lo, hi))).map_err(|e| Bad::new(C, format!("reverse_range({:?},{:?}) of {}: {}", lo, hi, n, e)))?;
                s.mm()[a..b].reverse();
            }
            10 => {
                let k = self.burst(n);
                let (e, v) = self.fresh();
                self.note(format!("constant[{}] len {}", i, k));
                let x = self.call(C, "constant_vec_of_length", || V::constant_vec_of_length(e, k))?;
                self.slots[i] = Slot { v: x, m: Rc::new(vec![v; k]) };
            }
            _ => {
                // Cut into pieces at random points and glue them in another order.
                let cuts = self.rng.range(1, 6);
                let mut parts = vec![std::mem::replace(&mut self.slots[i], Slot::empty())];
                for _ in 0..cuts {
                    let j = self.rng.below(parts.len());
                    let len = parts[j].m.len();
                    let at = self.rng.position(len);
                    let p = &mut parts[j];
                    let r = guard(|| p.v.split_off(at)).map_err(|e| Bad::new(C, format!("split_off({}) of {}: {}", at, len, e)))?;
                    let rm = p.mm().split_off(at);
                    parts.push(Slot { v: r, m: Rc::new(rm) });
                }
                self.note(format!("cut [{}] at {} places and reorder {:?} (len {})", i, cuts, parts.iter().map(|p| p.m.len()).collect::<Vec<_>>(), n));
                let mut acc = Slot::empty();
                while !parts.is_empty() {
                    let j = self.rng.below(parts.len());
                    let p = parts.swap_remove(j);
                    self.concats += 1;
                    let pv = p.v;
                    if self.rng.chance(1, 2) {
                        guard(|| acc.v.append(pv)).map_err(|e| Bad::new(C, format!("append: {}", e)))?;
                        acc.mm().extend(p.m.iter());
                    } else {
                        guard(|| acc.v.prepend(pv)).map_err(|e| Bad::new(C, format!("prepend: {}", e)))?;
                        let mut m = (*p.m).clone();
                        m.extend(acc.m.iter());
                        acc.m = Rc::new(m);
                    }
                }
                self.slots[i] = acc;
            }
        }
        Ok(touched)
    }

    /// Stores a slot, in place of a random other one if there are too many. Returns where.
    fn put(&mut self, s: Slot<E>, slots: usize, keep: usize) -> usize {
        if self.slots.len() < slots {
            self.slots.push(s);
            self.slots.len() - 1
        } else {
            let mut j = self.rng.below(self.slots.len());
            if j == keep {
                j = (j + 1) % self.slots.len();
            }
            if j == keep {
                self.slots.push(s);
                return self.slots.len() - 1;
            }
            self.slots[j] = s;
            j
        }
    }

    pub fn op_access(&mut self, i: usize) -> R<Vec<usize>> {
        const C: Class = Class::Access;
        let n = self.slots[i].m.len();
        let kind = self.rng.below(8);
        let name = ["get", "index", "get_mut", "get_mut_guarded", "index_mut", "out of bounds", "sweep write", "guard read"][kind];
        self.info.add(name, 1);
        self.note(format!("{}[{}] (len {})", name, i, n));
        let times = self.rng.range(1, 12);
        match kind {
            0 | 1 | 7 => {
                for _ in 0..times {
                    let p = self.rng.position(n.saturating_sub(1));
                    if n == 0 {
                        break;
                    }
                    let s = &mut self.slots[i];
                    let got = guard(|| match kind {
                        0 => s.v.get(p).map(|x| x.val()),
                        1 => Some(s.v[p].val()),
                        _ => s.v.get_mut_guarded(p).map(|g| g.val()),
                    });
                    let exp = s.m[p];
                    match got {
                        Ok(Some(x)) if x == exp => {}
                        r => return Err(Bad::new(C, format!("{}({}) of {} gave {:?} instead of {}", name, p, n, r, exp))),
                    }
                }
            }
            2 | 3 | 4 => {
                for _ in 0..times {
                    if n == 0 {
                        break;
                    }
                    let p = self.rng.position(n - 1);
                    let (e, v) = self.fresh();
                    let s = &mut self.slots[i];
                    let got = guard(|| match kind {
                        2 => s.v.get_mut(p).map(|x| std::mem::replace(x, e).val()),
                        3 => s.v.get_mut_guarded(p).map(|mut g| std::mem::replace(&mut *g, e).val()),
                        _ => Some(std::mem::replace(&mut s.v[p], e).val()),
                    });
                    let exp = std::mem::replace(&mut s.mm()[p], v);
                    match got {
                        Ok(Some(x)) if x == exp => {}
                        r => return Err(Bad::new(C, format!("{}({}) of {} saw {:?} instead of {}", name, p, n, r, exp))),
                    }
                    let s = &self.slots[i];
                    match guard(|| s.v.get(p).map(|x| x.val())) {
                        Ok(Some(x)) if x == v => {}
                        r => return Err(Bad::new(C, format!("get({}) of {} after a write by {} gave {:?} instead of {}", p, n, name, r, v))),
                    }
                }
            }
            5 => {
                let ps = [n, n + 1, n + self.rng.below(10_000), usize::MAX, usize::MAX / 2];
                for p in ps {
                    let s = &mut self.slots[i];
                    want!(C, matches!(guard(|| s.v.get(p).is_none()), Ok(true)), "get({}) of {} is not None", p, n);
                    want!(C, matches!(guard(|| s.v.get_mut(p).is_none()), Ok(true)), "get_mut({}) of {} is not None", p, n);
                    want!(C, matches!(guard(|| s.v.get_mut_guarded(p).is_none()), Ok(true)), "get_mut_guarded({}) of {} is not None", p, n);
                    want!(C, guard(|| s.v[p].val()).is_err(), "index {} of {} does not panic", p, n);
                    want!(C, guard(|| { let _ = &mut s.v[p]; }).is_err(), "mutable index {} of {} does not panic", p, n);
                }
            }
            _ => {
                let (a, b) = self.rng.subrange(n);
                let step = 1 + self.rng.below(7);
                let mut p = a;
                while p < b.min(a + 2000) {
                    let (e, v) = self.fresh();
                    let s = &mut self.slots[i];
                    match guard(|| s.v.get_mut(p).map(|x| std::mem::replace(x, e).val())) {
                        Ok(Some(x)) if x == s.m[p] => {}
                        r => return Err(Bad::new(C, format!("get_mut({}) of {} saw {:?} instead of {}", p, n, r, s.m[p]))),
                    }
                    s.mm()[p] = v;
                    p += step;
                }
            }
        }
        Ok(vec![i])
    }

    pub fn op_clones(&mut self, i: usize, slots: usize) -> R<Vec<usize>> {
        match self.rng.below(4) {
            0 if self.slots.len() > 1 => {
                self.note(format!("drop[{}]", i));
                self.info.add("drop", 1);
                let s = self.slots.swap_remove(i);
                self.call(Class::Clones, "drop", move || drop(s))?;
                Ok(vec![])
            }
            1 if self.slots.len() > 1 => {
                let j = self.rng.below(self.slots.len());
                self.note(format!("clone[{}] over [{}]", i, j));
                self.info.add("clone_from", 1);
                let c = self.call(Class::Clones, "clone", || self.slots[i].v.clone())?;
                let m = self.slots[i].m.clone();
                self.slots[j] = Slot { v: c, m };
                Ok(vec![i, j])
            }
            _ => {
                self.note(format!("clone[{}]", i));
                self.info.add("clone", 1);
                let c = self.call(Class::Clones, "clone", || self.slots[i].v.clone())?;
                let m = self.slots[i].m.clone();
                let j = self.put(Slot { v: c, m }, slots, i);
                Ok(vec![i, j])
            }
        }
    }

    pub fn op_iter(&mut self, i: usize) -> R<Vec<usize>> {
        const C: Class = Class::Iter;
        let n = self.slots[i].m.len();
        let kind = self.rng.below(9);
        let name = ["iter both ends", "iter_mut both ends", "into_iter both ends", "iter fwd", "iter rev", "iter_mut all", "for loops", "into_iter partial", "adapters"][kind];
        self.info.add(name, 1);
        self.note(format!("{}[{}] (len {})", name, i, n));
        let mut rng = self.rng.clone();
        self.rng.next();
        let bias = rng.range(0, 10);
        let stop = if rng.chance(1, 4) { rng.below(n + 1) } else { usize::MAX };
        let mut next = self.next;
        // Runs a schedule of next, next_back, nth and nth_back against the expected window lo..hi.
        macro_rules! schedule {
            ($it:expr, $get:expr) => {{
                let mut it = $it;
                let (mut lo, mut hi) = (0usize, n);
                let mut done = 0;
                let mut extra = 3;
                let mut run = 0;
                let mut front = true;
                let mut err = None;
                loop {
                    if it.len() != hi - lo || it.size_hint() != (hi - lo, Some(hi - lo)) {
                        err = Some(format!("remaining length is {} / {:?} instead of {}", it.len(), it.size_hint(), hi - lo));
                        break;
                    }
                    if done >= stop {
                        break;
                    }
                    if run == 0 {
                        front = rng.below(10) < bias;
                        run = if rng.chance(1, 3) { 1 + rng.below(2 * librrb::RRB_WIDTH) } else { 1 + rng.below(3) };
                    }
                    run -= 1;
                    let mut skip = 0;
                    if rng.chance(1, 12) {
                        // Leaves some out, sometimes more than there are.
                        skip = 1 + match rng.below(4) { 0 => rng.below(hi - lo + 2), 1 => rng.below(2 * librrb::RRB_WIDTH), _ => rng.below(4) };
                    }
                    let got = match (skip, front) {
                        (0, true) => it.next(),
                        (0, false) => it.next_back(),
                        (_, true) => it.nth(skip),
                        (_, false) => it.nth_back(skip),
                    };
                    let skip = skip.min(hi - lo);
                    if front { lo += skip } else { hi -= skip }
                    if lo == hi {
                        if got.is_some() {
                            err = Some("yields an element after the last".to_string());
                            break;
                        }
                        if extra == 0 {
                            break;
                        }
                        extra -= 1;
                        continue;
                    }
                    let p = if front { lo += 1; lo - 1 } else { hi -= 1; hi };
                    match got {
                        None => {
                            err = Some(format!("ends early, {} elements before the end", hi - lo + 1));
                            break;
                        }
                        Some(x) => {
                            if let Some(e) = $get(x, p) {
                                err = Some(e);
                                break;
                            }
                        }
                    }
                    done += 1;
                }
                // What is left goes to a method that consumes the iterator.
                let left = hi - lo;
                match if err.is_some() { 9 } else { rng.below(12) } {
                    0 => {
                        let c = it.count();
                        if c != left {
                            err = Some(format!("count() is {} with {} left", c, left));
                        }
                    }
                    1 => match it.last() {
                        None if left == 0 => {}
                        None => err = Some(format!("last() is None with {} left", left)),
                        Some(_) if left == 0 => err = Some("last() gives an element when none is left".to_string()),
                        Some(x) => err = $get(x, hi - 1),
                    },
                    k @ 2..=7 => {
                        let mut at = 0;
                        let back = matches!(k, 3 | 5 | 7);
                        let mut one = |x, at: usize| {
                            if at >= left {
                                Some(format!("a {} method goes on after the {} that are left", if back { "backward" } else { "forward" }, left))
                            } else {
                                $get(x, if back { hi - 1 - at } else { lo + at })
                            }
                        };
                        match k {
                            2 => err = it.fold(None, |e: Option<String>, x| { let r = one(x, at); at += 1; e.or(r) }),
                            3 => err = it.rfold(None, |e: Option<String>, x| { let r = one(x, at); at += 1; e.or(r) }),
                            4 => for x in it {
                                if err.is_none() { err = one(x, at); }
                                at += 1;
                            },
                            5 => for x in it.rev() {
                                if err.is_none() { err = one(x, at); }
                                at += 1;
                            },
                            6 => {
                                // Stops halfway and goes on.
                                let stop = rng.below(left + 1);
                                let r: Result<(), ()> = it.try_for_each(|x| {
                                    if err.is_none() { err = one(x, at); }
                                    at += 1;
                                    if at > stop { Err(()) } else { Ok(()) }
                                });
                                let _ = r;
                                if it.len() + at != left && err.is_none() {
                                    err = Some(format!("{} left after {} of {}", it.len(), at, left));
                                }
                                it.for_each(|x| {
                                    if err.is_none() { err = one(x, at); }
                                    at += 1;
                                });
                            }
                            _ => {
                                let stop = rng.below(left + 1);
                                let r: Result<(), ()> = it.try_rfold((), |_, x| {
                                    if err.is_none() { err = one(x, at); }
                                    at += 1;
                                    if at > stop { Err(()) } else { Ok(()) }
                                });
                                let _ = r;
                                if it.len() + at != left && err.is_none() {
                                    err = Some(format!("{} left after {} of {} from the back", it.len(), at, left));
                                }
                                it.rev().for_each(|x| {
                                    if err.is_none() { err = one(x, at); }
                                    at += 1;
                                });
                            }
                        }
                        if err.is_none() && at != left {
                            err = Some(format!("a consuming method yields {} of {}", at, left));
                        }
                    }
                    _ => {}
                }
                err
            }};
        }
        let s = &mut self.slots[i];
        let m = s.m.clone();
        let mut newm: Option<Vec<u64>> = None;
        let see = |got: u64, p: usize| if got == m[p] { None } else { Some(format!("position {} of {} yields {} instead of {}", p, n, got, m[p])) };
        let res: Result<Option<String>, String> = match kind {
            0 => guard(|| schedule!(s.v.iter(), |x: &E, p: usize| see(x.val(), p))),
            1 => {
                let mut nm = (*m).clone();
                let r = guard(|| {
                    schedule!(s.v.iter_mut(), |x: &mut E, p: usize| {
                        let r = see(x.val(), p);
                        if next % 3 != 0 {
                            *x = E::mk(next);
                            nm[p] = E::norm(next);
                        }
                        next += 1;
                        r
                    })
                });
                newm = Some(nm);
                r
            }
            2 | 7 => {
                let c = s.v.clone();
                guard(|| schedule!(c.into_iter(), |x: E, p: usize| see(x.val(), p)))
            }
            3 | 4 => guard(|| {
                let mut k = 0;
                if kind == 3 {
                    for x in s.v.iter() {
                        if k >= n || x.val() != m[k] { return Some(format!("forward iteration differs at {} of {}", k, n)); }
                        k += 1;
                    }
                } else {
                    for x in s.v.iter().rev() {
                        if k >= n || x.val() != m[n - 1 - k] { return Some(format!("backward iteration differs at {} from the end of {}", k, n)); }
                        k += 1;
                    }
                }
                if k != n { Some(format!("iteration yields {} of {}", k, n)) } else { None }
            }),
            5 => {
                let mut nm = (*m).clone();
                let rev = rng.chance(1, 2);
                // Under Stacked Borrows this is a known finding, which has a workload of its own.
                let both_ends = rng.chance(1, 2) && !stacked_borrows();
                let bias = rng.below(11);
                let r = guard(|| {
                    // Hold all references at once, then write through them.
                    let mut all: Vec<&mut E> = if both_ends {
                        let mut it = s.v.iter_mut();
                        let (mut a, mut b) = (vec![], vec![]);
                        loop {
                            let front = rng.below(10) < bias;
                            let got = if front { it.next() } else { it.next_back() };
                            match got {
                                Some(x) => if front { a.push(x) } else { b.push(x) },
                                None => break,
                            }
                        }
                        b.reverse();
                        a.extend(b);
                        a
                    } else if rev { s.v.iter_mut().rev().collect() } else { s.v.iter_mut().collect() };
                    if rev && !both_ends { all.reverse(); }
                    if all.len() != n { return Some(format!("iter_mut yields {} of {}", all.len(), n)); }
                    for (p, x) in all.iter_mut().enumerate() {
                        if let Some(e) = see(x.val(), p) { return Some(e); }
                        if p % 2 == 0 {
                            **x = E::mk(next);
                            nm[p] = E::norm(next);
                            next += 1;
                        }
                    }
                    for (p, x) in all.iter().enumerate() {
                        if x.val() != nm[p] { return Some(format!("a reference to position {} shows {} after writing {}", p, x.val(), nm[p])); }
                    }
                    None
                });
                newm = Some(nm);
                r
            }
            6 => {
                let mut nm = (*m).clone();
                let r = guard(|| {
                    let mut k = 0;
                    for x in &s.v {
                        if k >= n { return Some("for loop over & yields too many".to_string()); }
                        if let Some(e) = see(x.val(), k) { return Some(e); }
                        k += 1;
                    }
                    if k != n { return Some(format!("for loop over & yields {} of {}", k, n)); }
                    k = 0;
                    for x in &mut s.v {
                        if k >= n { return Some("for loop over &mut yields too many".to_string()); }
                        if let Some(e) = see(x.val(), k) { return Some(e); }
                        *x = E::mk(next);
                        nm[k] = E::norm(next);
                        next += 1;
                        k += 1;
                    }
                    if k != n { return Some(format!("for loop over &mut yields {} of {}", k, n)); }
                    k = 0;
                    for x in s.v.clone() {
                        if k >= n || x.val() != nm[k] { return Some(format!("for loop by value differs at {} of {}", k, n)); }
                        k += 1;
                    }
                    if k != n { Some(format!("for loop by value yields {} of {}", k, n)) } else { None }
                });
                newm = Some(nm);
                r
            }
            _ => {
                let skip = rng.below(n + 2);
                let by = 1 + rng.below(70);
                guard(|| {
                    let a: Vec<u64> = s.v.iter().skip(skip).step_by(by).map(|x| x.val()).collect();
                    let b: Vec<u64> = m.iter().skip(skip).step_by(by).copied().collect();
                    if a != b { return Some(format!("iter().skip({}).step_by({}) differs", skip, by)); }
                    if s.v.iter().count() != n { return Some("count() differs".to_string()); }
                    if s.v.iter().last().map(|x| x.val()) != m.last().copied() { return Some("last() differs".to_string()); }
                    let mut it = s.v.iter();
                    if it.nth(skip).map(|x| x.val()) != m.get(skip).copied() { return Some(format!("nth({}) differs", skip)); }
                    let mut it = s.v.iter();
                    if it.nth_back(skip).map(|x| x.val()) != m.iter().nth_back(skip).copied() { return Some(format!("nth_back({}) differs", skip)); }
                    // A clone of an iterator starts where the original stands, and is independent of it.
                    let mut it = s.v.iter();
                    let (a, b) = (rng.below(n + 1), rng.below(n + 1));
                    let (lo, hi) = (a.min(b), a.max(b));
                    if lo > 0 { it.nth(lo - 1); }
                    if hi < n { it.nth_back(n - 1 - hi); }
                    let copy = it.clone();
                    let seen = rng.below(hi - lo + 1);
                    let mut p = lo;
                    for x in it.by_ref().take(seen) {
                        if let Some(e) = see(x.val(), p) { return Some(e); }
                        p += 1;
                    }
                    if n < 200 { let _ = format!("{:?}", it).len(); }
                    for (at, it) in [(lo, copy), (p, it)] {
                        if it.len() != hi - at { return Some(format!("a cloned iterator has {} left instead of {}", it.len(), hi - at)); }
                        if let Some(e) = it.zip(at..).map(|(x, p)| see(x.val(), p)).find(|e| e.is_some()) { return e; }
                    }
                    // A clone of the vector as an owned iterator, zipped with a borrowed reverse one.
                    let z: Vec<(u64, u64)> = s.v.clone().into_iter().zip(s.v.iter().rev()).map(|(a, b)| (a.val(), b.val())).collect();
                    let y: Vec<(u64, u64)> = m.iter().copied().zip(m.iter().rev().copied()).collect();
                    if z != y { return Some("zip of forward and backward iteration differs".to_string()); }
                    None
                })
            }
        };
        self.next = next;
        match res {
            Ok(None) => {}
            Ok(Some(e)) => return Err(Bad::new(C, format!("{}: {}", name, e))),
            Err(e) => return Err(Bad::new(C, format!("{} of {}: {}", name, n, e))),
        }
        if let Some(nm) = newm {
            self.slots[i].m = Rc::new(nm);
        }
        Ok(vec![i])
    }

    pub fn op_focus(&mut self, i: usize) -> R<Vec<usize>> {
        let n = self.slots[i].m.len();
        self.note(format!("focus[{}] (len {})", i, n));
        self.info.add("focus", 1);
        let mut rng = self.rng.clone();
        self.rng.next();
        let s = &self.slots[i];
        let mut steps = 0;
        let (a, b) = rng.subrange(n);
        let r = guard(|| match rng.below(3) {
            0 => drive_focus::<E>(Fo::new(&s.v), &s.m, &mut rng, 0, &mut steps),
            1 => {
                // Positions beyond the end mean the end.
                let past = if b == n && rng.chance(1, 3) { [b + 1, b + 70, usize::MAX][rng.below(3)] } else { b };
                if a < b && rng.chance(1, 10) {
                    let mut g = Fo::narrowed_tree(&s.v, past..a);
                    if g.len() != 0 || (0..5).any(|p| g.get(p).is_some()) {
                        return Err(format!("a focus on {}..{} of {} has length {}", past, a, n, g.len()));
                    }
                }
                drive_focus::<E>(Fo::narrowed_tree(&s.v, a..past), &s.m[a..b], &mut rng, 0, &mut steps)
            }
            _ => drive_focus::<E>(s.v.focus(), &s.m, &mut rng, 0, &mut steps),
        });
        self.info.add("focus steps", steps);
        match r {
            Ok(Ok(())) => Ok(vec![i]),
            Ok(Err(e)) => Err(Bad::new(Class::Focus, format!("focus over {}: {}", n, e))),
            Err(e) => Err(Bad::new(Class::Focus, format!("focus over {}: {}", n, e))),
        }
    }

    pub fn op_focus_mut(&mut self, i: usize) -> R<Vec<usize>> {
        let n = self.slots[i].m.len();
        self.note(format!("focus_mut[{}] (len {})", i, n));
        self.info.add("focus_mut", 1);
        let mut rng = self.rng.clone();
        self.rng.next();
        let mut next = self.next;
        let s = &mut self.slots[i];
        let mut nm = (*s.m).clone();
        let mut steps = 0;
        let budget = 10 + rng.below(120);
        let r = guard(|| {
            let mut f = s.v.focus_mut();
            drive_focus_mut::<E>(&mut f, &mut nm, &mut rng, 0, budget, &mut next, &mut steps)
        });
        self.next = next;
        self.info.add("focus_mut steps", steps);
        match r {
            Ok(Ok(())) => {
                self.slots[i].m = Rc::new(nm);
                Ok(vec![i])
            }
            Ok(Err(e)) => Err(Bad::new(Class::FocusMut, format!("focus_mut over {}: {}", n, e))),
            Err(e) => Err(Bad::new(Class::FocusMut, format!("focus_mut over {}: {}", n, e))),
        }
    }

    pub fn op_sort(&mut self, i: usize) -> R<Vec<usize>> {
        let n = self.slots[i].m.len();
        if n > 3000 {
            return Ok(vec![]);
        }
        let (a, b) = self.rng.subrange(n);
        let k = self.rng.range(1, 8);
        let md = 1 + self.rng.below(1 << k) as u64;
        self.note(format!("sort[{}] {}..{} mod {} (len {})", i, a, b, md, n));
        self.info.add("sort", 1);
        let s = &mut self.slots[i];
        guard(|| s.v.sort_range_by(&|x: &E, y: &E| (x.val() % md, x.val()).cmp(&(y.val() % md, y.val())), a..b)).map_err(|e| Bad::new(Class::Sort, format!("sort_range_by({}..{}) of {}: {}", a, b, n, e)))?;
        s.mm()[a..b].sort_by_key(|x| (x % md, *x));
        Ok(vec![i])
    }

    pub fn op_build(&mut self, i: usize) -> R<Vec<usize>> {
        let n = self.slots[i].m.len();
        let k = self.burst(n);
        self.note(format!("build[{}] {}", i, k));
        self.info.add("build", 1);
        let made = guard(|| self.make(k)).map_err(|e| Bad::new(Class::Build, format!("building a vector of {}: {}", k, e)))?;
        self.slots[i] = made;
        Ok(vec![i])
    }

    pub fn op_compare(&mut self, i: usize) -> R<Vec<usize>> {
        let j = self.rng.below(self.slots.len());
        self.info.add("compare", 1);
        let (a, b) = (&self.slots[i], &self.slots[j]);
        let got = self.call(Class::Compare, "comparison", || (a.v == b.v, a.v.cmp(&b.v)))?;
        if E::VALUED {
            // Same elements, so the order of the values decides.
            let key = |m: &Vec<u64>| m.iter().map(|x| E::mk(*x)).collect::<Vec<E>>();
            let exp = if E::NAME == "u8" { (a.m == b.m, a.m.cmp(&b.m)) } else { let (x, y) = (key(&a.m), key(&b.m)); (x == y, x.cmp(&y)) };
            want!(Class::Compare, got == exp, "comparison gave {:?} instead of {:?}", got, exp);
        }
        Ok(vec![])
    }

    // ------------------------------------------------------------ programs
    pub fn step(&mut self, p: &Profile) -> R<()> {
        let i = self.rng.below(self.slots.len());
        let mut class = self.rng.weighted(&p.weights);
        // Random cutting leaves little; most of the time start again from something.
        if p.weights[8] > 0 && self.slots[i].m.len() < 3 && self.rng.chance(2, 3) {
            class = 8;
        }
        self.nops += 1;
        let cls: Class = CLASS_LIST[class];
        phase(match p.monitor {
            Monitor::Contents | Monitor::Shape => p.monitor == Monitor::Contents && p.owned.contains(&cls),
            Monitor::Isolation => false,
            Monitor::Ownership | Monitor::Memory => true,
        });
        let touched = match class {
            0 => self.op_deque(i),
            1 => self.op_edit(i, p.slots),
            2 => self.op_access(i),
            3 => self.op_clones(i, p.slots),
            4 => self.op_iter(i),
            5 => self.op_focus(i),
            6 => self.op_focus_mut(i),
            7 => self.op_sort(i),
            8 => self.op_build(i),
            _ => self.op_compare(i),
        }?;
        self.touched = touched.clone();
        self.last = class;
        for &t in &touched {
            let n = self.slots[t].m.len();
            self.fp = mix(self.fp, (class as u64) << 40 | n as u64);
            self.info.max("length", n as u64);
            let r = match p.monitor {
                Monitor::Memory => Ok(()),
                Monitor::Shape | Monitor::Ownership => self.check_cheap(t),
                Monitor::Isolation => self.check_full(t),
                Monitor::Contents => {
                    if n <= 300 {
                        if self.rng.chance(1, 4) { self.check_deep(t) } else { self.check_full(t) }
                    } else if self.rng.chance(1, 1 + n / (400 * self.full_every)) {
                        self.check_full(t)
                    } else {
                        self.check_cheap(t)
                    }
                }
            };
            // What is wrong with a vector an operation just produced is that operation's doing,
            // unless only the observer is wrong.
            r.map_err(|mut b| {
                b.msg = format!("after {:?} operation: {}", cls, b.msg);
                if !b.observer_only {
                    b.class = cls;
                }
                b
            })?;
        }
        if p.monitor == Monitor::Isolation {
            for t in 0..self.slots.len() {
                if !touched.contains(&t) {
                    self.info.add("bystander checks", 1);
                    self.check_full(t).map_err(|mut b| {
                        b.isolation = true;
                        b.msg = format!("another vector ([{}]) changed: {}", t, b.msg);
                        b
                    })?;
                }
            }
        }
        if p.monitor == Monitor::Shape {
            self.longest = self.slots.iter().map(|s| s.m.len()).fold(self.longest, usize::max);
            for &t in &touched {
                let (v, n) = (&self.slots[t].v, self.slots[t].m.len());
                check_shape(v, n, self.longest, self.concats + self.nops, &mut self.info).map_err(|e| {
                    let mut b = Bad::new(cls, format!("tree of length {}: {}", n, e));
                    b.shape = true;
                    b
                })?;
            }
        }
        if let Some(e) = reported() {
            return Err(Bad::new(cls, e));
        }
        Ok(())
    }
}

#[cfg(librrb_verif)]
pub fn check_shape<E: Elem>(v: &V<E>, n: usize, longest: usize, ops: usize, info: &mut Info) -> Result<(), String> {
    use librrb::Side;
    let w = librrb::RRB_WIDTH;
    let mut seen = std::collections::HashSet::new();
    let mut err: Option<String> = None;
    let mut total = 0usize;
    let mut left: Vec<(usize, usize, bool)> = vec![];
    let mut right: Vec<(usize, usize, bool)> = vec![];
    let mut root = (0, 0, false);
    let mut nodes = 0u64;
    librrb::verif_hooks::visit(v, &mut |x| {
        nodes += 1;
        if err.is_some() {
            return false;
        }
        let mut bad = |e: String| err = Some(format!("{} (spine {:?}, depth {}, level {}, slots {})", e, x.spine, x.depth, x.level, x.slots));
        if x.slots + x.free_slots != w {
            bad(format!("{} slots and {} free", x.slots, x.free_slots));
            return false;
        }
        if x.leaf != (x.level == 0) {
            bad("leaf at a level other than 0, or inner node at level 0".into());
        }
        if x.depth == 0 {
            total += x.len;
            match x.spine {
                Some((Side::Front, i)) => {
                    if i != left.len() { bad("spine order".into()); }
                    if x.level != i { bad(format!("left spine node {} has another level", i)); }
                    if i == 0 && x.slots == 0 { bad("left spine leaf is empty".into()); }
                    if i > 0 && x.free_slots < 1 { bad("left spine node is full".into()); }
                    left.push((x.level, x.slots, x.leaf));
                }
                Some((Side::Back, i)) => {
                    // The right spine is visited from the top down.
                    if right.last().map_or(false, |r: &(usize, usize, bool)| r.0 != i + 1) { bad("spine order".into()); }
                    if x.level != i { bad(format!("right spine node {} has another level", i)); }
                    if i == 0 && x.slots == 0 { bad("right spine leaf is empty".into()); }
                    if i > 0 && x.free_slots < 1 { bad("right spine node is full".into()); }
                    right.push((x.level, x.slots, x.leaf));
                }
                None => {
                    root = (x.level, x.slots, x.leaf);
                    if !x.leaf && x.free_slots < 2 { bad("inner root has less than two free slots".into()); }
                }
            }
        } else if x.slots == 0 || x.len == 0 {
            bad("empty node below the spine".into());
        }
        if x.leaf {
            if x.len != x.slots { bad("leaf length".into()); }
            return false;
        }
        if x.children.len() != x.slots {
            bad(format!("{} reachable children", x.children.len()));
            return false;
        }
        let mut at = 0;
        for (k, c) in x.children.iter().enumerate() {
            let (_, level, slots, len, ref range) = *c;
            if level + 1 != x.level { bad(format!("child {} has level {}", k, level)); }
            if slots == 0 || slots > w { bad(format!("child {} has {} slots", k, slots)); }
            if range.start != at || range.end != at + len { bad(format!("child {} has {} elements but the range {:?}, expected start {}", k, len, range, at)); }
            at += len;
        }
        if at != x.len { bad(format!("children have {} elements, node says {}", at, x.len)); }
        seen.insert(x.addr)
    });
    if let Some(e) = err {
        return Err(e);
    }
    if left.len() != right.len() {
        return Err(format!("spines of {} and {} nodes", left.len(), right.len()));
    }
    if root.0 != left.len() {
        return Err(format!("root level {} over spines of {}", root.0, left.len()));
    }
    if total != n || v.len() != n {
        return Err(format!("nodes hold {} elements, vector says {}, expected {}", total, v.len(), n));
    }
    if !root.2 && root.1 == 0 {
        let (l, r) = (left.last().unwrap().1, right.first().unwrap().1);
        if l.max(r) - l.min(r) >= 2 {
            return Err(format!("empty root over spine tops of {} and {} slots", l, r));
        }
        let min = if root.0 == 1 { w } else { w - 2 };
        if l + r < min {
            return Err(format!("empty root over spine tops of {} and {} slots that fit one node", l, r));
        }
    }
    // Height: logarithmic in the length, with base half the width, and in the history. A piece of a
    // long vector may be as tall as that.
    let h = left.len();
    let bound = height_bound(longest, ops);
    info.max("height", h as u64);
    info.max(&format!("nodes"), nodes);
    info.add("shapes checked", 1);
    info.add(&format!("shapes of height {}", h), 1);
    let nat = natural_height(n);
    info.max("height above that of a packed tree", h.saturating_sub(nat) as u64);
    if h > bound {
        return Err(format!("height {} for {} elements, of at most {}, after {} operations (bound {})", h, n, longest, ops, bound));
    }
    Ok(())
}
/// Without the hook only what the shape leads to is observed: a write after a clone copies the nodes
/// above the element written, at most a few blocks for each level.
#[cfg(not(librrb_verif))]
pub fn check_shape<E: Elem>(v: &V<E>, n: usize, longest: usize, ops: usize, info: &mut Info) -> Result<(), String> {
    if v.len() != n {
        return Err(format!("length {} instead of {}", v.len(), n));
    }
    if n == 0 {
        return Ok(());
    }
    let w = librrb::RRB_WIDTH;
    let bound = height_bound(longest, ops);
    for p in [0, n / 3, n / 2, n - 1] {
        let mut c = v.clone();
        let before = ALLOC_BLOCKS.load(Relaxed);
        if c.get_mut(p).is_none() {
            return Err(format!("get_mut({}) of {} is None", p, n));
        }
        let blocks = (ALLOC_BLOCKS.load(Relaxed) - before).max(0) as usize;
        info.max("blocks copied by a write after a clone", blocks as u64);
        if blocks > 3 * (bound + 1) + w + 8 {
            return Err(format!("a write at {} of {} after a clone copies {} blocks", p, n, blocks));
        }
    }
    info.add("depths checked without the hook", 1);
    Ok(())
}

#[allow(dead_code)]
fn natural_height(n: usize) -> usize {
    let mut h = 0;
    let mut c = librrb::RRB_WIDTH as u128;
    while c < n as u128 {
        c *= librrb::RRB_WIDTH as u128;
        h += 1;
    }
    h
}
#[allow(dead_code)]
fn height_bound(n: usize, ops: usize) -> usize {
    let half = (librrb::RRB_WIDTH / 2) as f64;
    2 + ((n.max(1) as f64).ln() / half.ln()).ceil() as usize + ((1 + ops) as f64).log2().ceil() as usize / 4
}

/// Reads through a focus in any order, narrowing, splitting and cloning it.
pub fn drive_focus<E: Elem>(f: Fo<E>, m: &[u64], rng: &mut Rng, depth: usize, steps: &mut u64) -> Result<(), String> {
    let mut f = f;
    let mut m = m;
    let rounds = rng.range(2, 30);
    for _ in 0..rounds {
        *steps += 1;
        let n = m.len();
        if f.len() != n || f.is_empty() != (n == 0) {
            return Err(format!("len {} is_empty {} of a window of {}", f.len(), f.is_empty(), n));
        }
        match rng.below(14) {
            0 => {
                for p in [n, n + 1, n + rng.below(200), n + rng.below(100000), usize::MAX] {
                    if let Some(x) = f.get(p) {
                        return Err(format!("get({}) of a window of {} gives {}", p, n, x.val()));
                    }
                }
            }
            1 => {
                // Linear run, forwards or backwards.
                let (a, b) = rng.subrange(n);
                let b = b.min(a + 400);
                let rev = rng.chance(1, 2);
                for k in a..b {
                    let p = if rev { b - 1 - (k - a) } else { k };
                    let got = f.get(p).map(|x| x.val());
                    if got != Some(m[p]) {
                        return Err(format!("get({}) of a window of {} gives {:?} instead of {}", p, n, got, m[p]));
                    }
                }
            }
            2 if n > 0 => {
                let p = rng.position(n - 1);
                let got = f.index(p).val();
                if got != m[p] {
                    return Err(format!("index({}) of a window of {} gives {} instead of {}", p, n, got, m[p]));
                }
            }
            3 => {
                if guard(|| { f.clone().index(n); }).is_ok() {
                    return Err(format!("index({}) of a window of {} does not panic", n, n));
                }
            }
            4 | 5 if rng.chance(1, 2) => {
                let (a, b) = rng.subrange(n);
                let (lo, hi) = bounds(rng, a, b, n);
                f.narrow((lo, hi));
                m = &m[a..b];
            }
            6 if n > 0 && depth < 5 => {
                let p = rng.position(n - 1);
                let (l, r) = f.clone().split_at(p);
                drive_focus::<E>(l, &m[..p], rng, depth + 1, steps)?;
                drive_focus::<E>(r, &m[p..], rng, depth + 1, steps)?;
            }
            7 if n > 0 && depth < 5 => {
                let p = rng.position(n - 1);
                let (l, r) = f.split_at(p);
                if rng.chance(1, 2) {
                    f = l;
                    m = &m[..p];
                } else {
                    f = r;
                    m = &m[p..];
                }
            }
            8 => {
                // A copy with the same cached position must be independent.
                let mut g = f.clone();
                if depth == 0 && n < 200 {
                    let _ = format!("{:?}", g).len();
                }
                for _ in 0..4 {
                    let p = rng.position(n);
                    let got = g.get(p).map(|x| x.val());
                    if got != m.get(p).copied() {
                        return Err(format!("get({}) of a cloned window of {} gives {:?} instead of {:?}", p, n, got, m.get(p)));
                    }
                }
            }
            9 if rng.chance(1, 3) => {
                let over = n + 1 + rng.below(50);
                let mut g = f.clone();
                if guard(|| g.narrow(0..over)).is_ok() {
                    return Err(format!("narrowing a window of {} to 0..{} does not panic (it now has {})", n, over, g.len()));
                }
                // A range that includes too much, or that ends before it starts.
                let mut g = f.clone();
                let (lo, hi) = outside(rng, n);
                if guard(|| g.narrow((lo, hi))).is_ok() {
                    return Err(format!("narrowing a window of {} to ({:?},{:?}) does not panic", n, lo, hi));
                }
                let (a, b) = rng.subrange(n);
                if a < b {
                    let mut g = f.clone();
                    let lo = if rng.chance(1, 8) { Bound::Excluded(usize::MAX) } else { Bound::Included(b) };
                    if guard(|| g.narrow((lo, Bound::Excluded(a)))).is_ok() {
                        let seen = guard(|| (g.len(), (0..n.min(40)).chain([n, n + 1]).any(|p| g.get(p).is_some())));
                        if seen != Ok((0, false)) {
                            return Err(format!("a window of {} narrowed to ({:?},{}) shows {:?}", n, lo, a, seen));
                        }
                    }
                }
                let g = f.clone();
                if guard(|| { let _ = g.split_at(over); }).is_ok() {
                    return Err(format!("splitting a window of {} at {} does not panic", n, over));
                }
            }
            _ => {
                for _ in 0..rng.range(1, 8) {
                    let p = rng.position(n);
                    let got = f.get(p).map(|x| x.val());
                    if got != m.get(p).copied() {
                        return Err(format!("get({}) of a window of {} gives {:?} instead of {:?}", p, n, got, m.get(p)));
                    }
                }
            }
        }
    }
    Ok(())
}

/// Reads and writes through a mutable focus and nested splits of it, interleaved.
pub fn drive_focus_mut<E: Elem>(f: &mut Fm<E>, m: &mut [u64], rng: &mut Rng, depth: usize, budget: usize, next: &mut u64, steps: &mut u64) -> Result<(), String> {
    let mut left_budget = budget;
    let n = m.len();
    while left_budget > 0 {
        left_budget -= 1;
        *steps += 1;
        if f.len() != n || f.is_empty() != (n == 0) {
            return Err(format!("len {} is_empty {} of a part of {}", f.len(), f.is_empty(), n));
        }
        match rng.below(10) {
            0 => {
                for p in [n, n + 1, n + rng.below(300), usize::MAX] {
                    if let Some(x) = f.get(p) {
                        return Err(format!("get({}) of a part of {} gives {}", p, n, x.val()));
                    }
                }
            }
            1 | 2 => {
                let (a, b) = rng.subrange(n);
                let b = b.min(a + 200);
                let rev = rng.chance(1, 2);
                let write = rng.chance(1, 2);
                for k in a..b {
                    let p = if rev { b - 1 - (k - a) } else { k };
                    match f.get(p) {
                        Some(x) if x.val() == m[p] => {
                            if write {
                                *x = E::mk(*next);
                                m[p] = E::norm(*next);
                                *next += 1;
                            }
                        }
                        r => return Err(format!("get({}) of a part of {} gives {:?} instead of {}", p, n, r.map(|x| x.val()), m[p])),
                    }
                }
            }
            3 | 4 if depth < 5 && left_budget > 2 => {
                let p = rng.position(n);
                let part = rng.below(left_budget);
                left_budget -= part;
                let (mut l, mut r) = f.split_at(p);
                let (ml, mr) = m.split_at_mut(p);
                let mut todo = part;
                while todo > 0 {
                    let chunk = todo.min(1 + rng.below(6));
                    todo -= chunk;
                    match rng.below(5) {
                        0 | 1 => drive_focus_mut::<E>(&mut l, ml, rng, depth + 1, chunk, next, steps)?,
                        2 | 3 => drive_focus_mut::<E>(&mut r, mr, rng, depth + 1, chunk, next, steps)?,
                        _ => {
                            // Exchange two elements across the parts, both borrowed at once.
                            if !ml.is_empty() && !mr.is_empty() {
                                let (a, b) = (rng.position(ml.len() - 1), rng.position(mr.len() - 1));
                                let x = l.index(a);
                                let y = r.index(b);
                                if x.val() != ml[a] || y.val() != mr[b] {
                                    return Err(format!("parts at {} and {} show {} and {} instead of {} and {}", a, b, x.val(), y.val(), ml[a], mr[b]));
                                }
                                std::mem::swap(x, y);
                                std::mem::swap(&mut ml[a], &mut mr[b]);
                            }
                        }
                    }
                }
            }
            5 if n > 0 => {
                let p = rng.position(n - 1);
                let x = f.index(p);
                if x.val() != m[p] {
                    return Err(format!("index({}) of a part of {} gives {} instead of {}", p, n, x.val(), m[p]));
                }
                *x = E::mk(*next);
                m[p] = E::norm(*next);
                *next += 1;
            }
            _ => {
                for _ in 0..rng.range(1, 6) {
                    let p = rng.position(n);
                    match f.get(p) {
                        None if p == n => {}
                        Some(x) if p < n && x.val() == m[p] => {
                            if rng.chance(1, 2) {
                                *x = E::mk(*next);
                                m[p] = E::norm(*next);
                                *next += 1;
                            }
                        }
                        r => return Err(format!("get({}) of a part of {} gives {:?} instead of {:?}", p, n, r.map(|x| x.val()), m.get(p))),
                    }
                }
            }
        }
    }
    Ok(())
}

const TRIALS: usize = 13;
/// One way of using a vector after which nothing but its contents may matter.
fn trial<E: Elem>(v: &V<E>, m: &[u64], how: usize) -> Result<(), String> {
    let n = m.len();
    let mut rng = Rng::new(n as u64 * 31 + how as u64);
    let same = |g: Vec<u64>| match diff(&g, m) {
        Some(d) => Err(d),
        None => Ok(()),
    };
    guard(|| match how {
        0 => same(obs_drain(v, false)?),
        1 => same(obs_drain(v, true)?),
        2 => same((0..n + 1).filter_map(|p| v.get(p).map(|x| x.val())).collect()),
        3 => same(v.iter().take(n + 1).map(|x| x.val()).collect()),
        4 => {
            let mut g: Vec<u64> = v.iter().rev().take(n + 1).map(|x| x.val()).collect();
            g.reverse();
            same(g)
        }
        5 => same(v.clone().into_iter().take(n + 1).map(|x| x.val()).collect()),
        6 => {
            let mut f = v.focus();
            same((0..n + 1).filter_map(|p| f.get(p).map(|x| x.val())).collect())
        }
        7 => {
            let mut c = v.clone();
            let mut f = c.focus_mut();
            same((0..n + 1).filter_map(|p| f.get(p).map(|x| x.val())).collect())
        }
        8 | 9 => {
            let mut c = v.clone();
            for _ in 0..2 * librrb::RRB_WIDTH + 2 {
                if how == 8 { c.push_back(E::mk(1)) } else { c.push_front(E::mk(1)) }
            }
            for _ in 0..2 * librrb::RRB_WIDTH + 2 {
                let x = if how == 8 { c.pop_back() } else { c.pop_front() };
                if x.map(|x| x.val()) != Some(E::norm(1)) {
                    return Err("pushed and popped".into());
                }
            }
            same(obs_drain(&c, how == 9)?)
        }
        10 => {
            let mut c = v.clone();
            for _ in 0..4 {
                let r = c.split_off(rng.position(n));
                c.append(r);
            }
            same(obs_drain(&c, false)?)
        }
        11 => {
            let mut c = v.clone();
            c.append(v.clone());
            c.slice_from_start(n);
            same(obs_drain(&c, true)?)
        }
        _ => {
            let mut c = v.clone();
            let p = rng.position(n);
            c.insert(p, E::mk(1));
            c.remove(p);
            same(obs_drain(&c, false)?)
        }
    })
    .and_then(|r| r)
}

fn begin<E: Elem>(seed: u64, p: &Profile) -> (World<E>, usize) {
    reset_monitors();
    let mut w: World<E> = World::new(seed, p.max_len);
    if cfg!(miri) {
        w.full_every = 1;
    }
    let nops = w.rng.range(p.ops.0, p.ops.1);
    if p.max_len > 50_000 {
        let k = w.rng.range(4000, p.max_len / 2);
        if let Ok(s) = guard(|| w.make(k)) {
            w.slots[0] = s;
        }
    }
    (w, nops)
}

/// Something went wrong at a call of another property. The program is run again; after every
/// operation each vector is used in many ways, and whatever fails is tried on a newly built vector of
/// the same contents. If that works, the operation is to blame: it left a vector that reads right, or
/// used to, but does not behave like the sequence it should be.
fn diagnose<E: Elem>(seed: u64, p: &Profile) -> Option<String> {
    let (mut w, nops) = begin::<E>(seed, p);
    let mut found = None;
    'all: for _ in 0..nops {
        let stop = w.step(p).is_err();
        if stop {
            break;
        }
        for (i, s) in w.slots.iter().enumerate() {
            for how in 0..TRIALS {
                let Err(e) = trial(&s.v, &s.m, how) else { continue };
                let fresh = guard(|| s.m.iter().map(|x| E::mk(*x)).collect::<V<E>>());
                let Ok(fresh) = fresh else { continue };
                let right = trial(&fresh, &s.m, how).is_ok();
                std::mem::forget(fresh);
                if right {
                    found = Some((i, how, e));
                    break 'all;
                }
            }
        }
    }
    let (i, how, e) = found.unwrap_or_else(|| (usize::MAX, 0, String::new()));
    let r = if i == usize::MAX {
        None
    } else {
        let here = w.touched.contains(&i);
        let cls = CLASS_LIST[w.last];
        let mine = match p.monitor {
            Monitor::Contents => here && p.owned.contains(&cls),
            Monitor::Isolation => !here,
            _ => false,
        };
        if mine {
            Some(format!("operation {} ({:?}) left vector [{}] in a state in which use {} fails, but not on a vector built anew: {}; last operations: {}",
                w.nops, cls, i, how, e, w.trace.iter().rev().take(12).rev().cloned().collect::<Vec<_>>().join("; ")))
        } else {
            None
        }
    };
    std::mem::forget(w);
    r
}

/// Runs a whole program under a profile.
pub fn run_world<E: Elem>(seed: u64, p: &Profile) -> Out {
    let (mut w, nops) = begin::<E>(seed, p);
    let mut bad = None;
    let heap0 = (ALLOC_LIVE.load(std::sync::atomic::Ordering::SeqCst), ALLOC_BLOCKS.load(std::sync::atomic::Ordering::SeqCst));
    let _ = heap0;
    for _ in 0..nops {
        if let Err(b) = w.step(p) {
            bad = Some(b);
            break;
        }
    }
    if bad.is_none() && p.monitor == Monitor::Contents {
        for i in 0..w.slots.len() {
            if let Err(b) = w.check_deep(i) {
                bad = Some(b);
                break;
            }
        }
    }
    let head = format!("{} of {}, seed {}, operation {}", KIND, E::NAME, seed, w.nops);
    let tail: Vec<String> = w.trace.iter().cloned().collect();
    if let Some(b) = bad {
        let msg = format!("{}: {}; last operations: {}", head, b.msg, tail.iter().rev().take(12).rev().cloned().collect::<Vec<_>>().join("; "));
        let rep = reported();
        // Whatever is broken in there must not run destructors.
        std::mem::forget(w);
        let viol = match p.monitor {
            Monitor::Contents => p.owned.contains(&b.class),
            Monitor::Isolation => b.isolation,
            Monitor::Shape => b.shape,
            Monitor::Ownership | Monitor::Memory => rep.is_some(),
        };
        if viol {
            return Out::Violated(msg);
        }
        if matches!(p.monitor, Monitor::Contents | Monitor::Isolation) && !cfg!(miri) {
            if let Some(d) = diagnose::<E>(seed, p) {
                return Out::Violated(format!("{} of {}, seed {}: {}", KIND, E::NAME, seed, d));
            }
        }
        return Out::Inconclusive(msg);
    }
    let mut info = std::mem::take(&mut w.info);
    info.fp = w.fp;
    info.trivial = w.nops < 3 || info.counts.get("max length").copied().unwrap_or(0) <= librrb::RRB_WIDTH as u64;
    info.add("operations", w.nops as u64);
    info.sample = format!("{}: {}", head, tail.iter().rev().take(6).rev().cloned().collect::<Vec<_>>().join("; "));
    if let Err(e) = guard(|| drop(w)) {
        return Out::Violated(format!("{}: dropping everything: {}", head, e));
    }
    if let Some(e) = reported() {
        return Out::Violated(format!("{}: {}", head, e));
    }
    use std::sync::atomic::Ordering::SeqCst;
    if p.monitor == Monitor::Ownership {
        let (t, z) = (TR_LIVE.load(SeqCst), ZST_LIVE.load(SeqCst));
        if t != 0 || z != 0 {
            return Out::Violated(format!("{}: {} elements still alive after everything was dropped; last operations: {}", head, t + z, tail.join("; ")));
        }
        info.add("elements followed", TR_BORN.load(SeqCst));
    }
    Out::Held(info)
}
