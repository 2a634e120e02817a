//! Containers against a plain variable / Vec / BTreeMap: every history of operations, subscriptions and polls.
use crate::conc::Task;
use crate::rt::*;
use crate::vecs::same;
use crate::vsrc::*;
use futures_signals::signal::*;
use futures_signals::signal_map::*;
use futures_signals::signal_vec::*;
use std::collections::BTreeMap;
use std::ops::Bound;
use std::pin::Pin;
use std::task::{Context, Poll};

// ------------------------------------------------------------------ C03
struct SigTask<S: Signal> {
    s: S,
    t: Task<S::Item>,
}
trait Follow {
    /// poll until Pending or the end; `dirty`: a value is due
    fn follow(&mut self, dirty: bool, cur: u32, seen: &str);
    /// it must end, after yielding exactly these values
    fn finish(&mut self, v: Option<u32>);
    fn ended(&self) -> bool;
}
impl<S: Signal<Item = u32> + Unpin> Follow for SigTask<S> {
    fn follow(&mut self, dirty: bool, cur: u32, what: &str) {
        check(self.t.asleep() != dirty, "Mutable: a waiting task is woken exactly when there is a new value");
        let n = self.t.log.len();
        let s = &mut self.s;
        while self.t.step(|cx| Pin::new(&mut *s).poll_change(cx)) {}
        check(self.t.log.len() == n + dirty as usize, what);
        if dirty {
            check(self.t.log[n] == cur, "Mutable: a signal yields another value than the current one");
        }
    }
    fn finish(&mut self, v: Option<u32>) {
        check(!self.t.asleep(), "Mutable: a waiting signal is not woken by the drop of the last handle");
        let n = self.t.log.len();
        let s = &mut self.s;
        while self.t.step(|cx| Pin::new(&mut *s).poll_change(cx)) {}
        check(self.t.ended, "Mutable: a signal does not end with the last handle");
        check(self.t.log.len() == n + v.is_some() as usize && (v.is_none() || self.t.log[n] == v.unwrap()), "Mutable: wrong values at the end of a signal");
    }
    fn ended(&self) -> bool {
        self.t.ended
    }
}
fn follow<S: Signal<Item = u32> + Unpin + 'static>(s: S) -> Box<dyn Follow> {
    Box::new(SigTask { s, t: Task::new() })
}
/// params: operations, 1: the second Mutable has a signal too, kinds of signal (0 one arbitrary, 1 all three)
#[no_mangle]
pub extern "C" fn h_mutable_seq() {
    no_leak(|| {
        let (mut va, mut vb) = (any_u32(), any_u32());
        let a = if flip() { Mutable::new(va) } else { Mutable::from(va) };
        let b = Mutable::new(vb);
        let c = a.clone();
        let ro = a.read_only();
        let mut sigs: Vec<(Box<dyn Follow>, bool, bool)> = vec![];
        let make = |k: usize, m: &ReadOnlyMutable<u32>| match k {
            0 => follow(m.signal()),
            1 => follow(m.signal_cloned()),
            _ => follow(m.signal_ref(|x| *x)),
        };
        if param(2) == 0 {
            sigs.push((make(pick(0, 2), &a), true, true));
        } else {
            for k in 0..3 {
                sigs.push((make(k, &ro), true, true));
            }
        }
        if param(1) == 1 {
            sigs.push((make(0, &b), true, false));
        }
        for _ in 0..param(0) {
            let v = any_u32();
            // the handle used for the operation
            let h = if flip() { &a } else { &c };
            let (mut wa, mut wb) = (true, false);
            match pick(0, 8) {
                0 => {
                    h.set(v);
                    va = v;
                }
                1 => {
                    let old = h.replace(v);
                    check(old == va, "Mutable: replace does not return the old value");
                    va = v;
                }
                2 => {
                    let old = h.replace_with(|x| {
                        check(*x == va, "Mutable: replace_with does not pass the current value");
                        *x = x.wrapping_add(1);
                        v
                    });
                    check(old == va.wrapping_add(1), "Mutable: replace_with does not return the old value");
                    va = v;
                }
                3 => {
                    if flip() {
                        h.swap(&b);
                    } else {
                        b.swap(h);
                    }
                    std::mem::swap(&mut va, &mut vb);
                    wb = true;
                }
                4 => {
                    // an arbitrary condition over both values
                    let k = any_u32();
                    let f = |x: u32, y: u32| x ^ y < k;
                    h.set_if(v, |x, y| {
                        check(*x == va && *y == v, "Mutable: set_if does not pass the current and the new value");
                        f(*x, *y)
                    });
                    wa = f(va, v);
                    if wa {
                        va = v
                    }
                }
                5 => {
                    h.set_neq(v);
                    wa = va != v;
                    va = v;
                }
                6 => {
                    let mut l = h.lock_mut();
                    check(*l == va, "Mutable: lock_mut does not show the current value");
                    *l = v;
                    check(*l == v, "Mutable: lock_mut does not show the written value");
                    drop(l);
                    va = v;
                }
                7 => {
                    let l = h.lock_mut();
                    check(*l == va, "Mutable: lock_mut does not show the current value");
                    drop(l);
                    wa = false;
                }
                _ => {
                    check(*h.lock_ref() == va, "Mutable: lock_ref does not show the current value");
                    wa = false;
                }
            }
            check(a.get() == va && c.get_cloned() == va && ro.get() == va && *ro.lock_ref() == va, "Mutable: a handle shows another value than the last one written");
            check(b.get() == vb && *b.lock_ref() == vb, "Mutable: an operation changes the wrong Mutable");
            for (s, dirty, of_a) in sigs.iter_mut() {
                *dirty |= if *of_a { wa } else { wb };
                if flip() {
                    s.follow(*dirty, if *of_a { va } else { vb }, "Mutable: a signal does not yield exactly once after writes");
                    *dirty = false;
                }
            }
        }
        for (s, dirty, of_a) in sigs.iter_mut() {
            s.follow(*dirty, if *of_a { va } else { vb }, "Mutable: a signal does not yield exactly once after writes");
            check(!s.ended(), "Mutable: a signal ends although a handle is alive");
        }
        drop(a);
        for (s, _, of_a) in sigs.iter_mut() {
            if *of_a {
                s.follow(false, va, "Mutable: a signal yields a value although nothing was written");
                check(!s.ended(), "Mutable: a signal ends although a handle is alive");
            }
        }
        drop(c);
        drop(b);
        check(ro.get() == va, "Mutable: a read-only view changes when the last handle is dropped");
        for (s, _, _) in sigs.iter_mut() {
            s.finish(None);
        }
        // a signal taken after the end yields the value and ends
        make(pick(0, 2), &ro).finish(Some(va));
        cover("end");
    })
}

// ------------------------------------------------------------------ C09
/// params: length at most, length of a replacement at most
#[no_mangle]
pub extern "C" fn h_apply_to_vec() {
    no_leak(|| {
        let n = pick(0, param(0));
        let mut v: Vec<Box<u32>> = (0..n).map(|_| Box::new(any_u32())).collect();
        let mut want: Vec<u32> = v.iter().map(|x| **x).collect();
        let d = any_diff(0, n, n + 1, param(1), any_u32);
        map_diff(clone_diff(&d), Box::new).apply_to_vec(&mut v);
        replay(&mut want, d);
        let got: Vec<u32> = v.iter().map(|x| **x).collect();
        same(&got, &want, "apply_to_vec: not the documented list operation");
        cover("end");
    })
}

// ------------------------------------------------------------------ C07
/// A subscriber: a task that follows a MutableVec and replays its changes.
struct VecSub<T> {
    s: MutableSignalVec<T>,
    t: Task<()>,
    out: Vec<T>,
    /// nothing is pending
    settled: bool,
}
impl<T> VecSub<T> {
    fn new(s: MutableSignalVec<T>) -> Self {
        VecSub { s, t: Task::new(), out: vec![], settled: false }
    }
    /// poll until Pending or the end
    fn drain(&mut self) {
        let (s, out) = (&mut self.s, &mut self.out);
        while self.t.step(|cx| {
            Pin::new(&mut *s).poll_vec_change(cx).map(|d| {
                d.map(|d| replay(&mut *out, d))
            })
        }) {}
        self.settled = true;
    }
}
/// A choice that is left out (sixth parameter 1: longer histories, but the subscribers exist from the start and
/// are polled at the end; 2: they are polled after every operation; 3: like 1, but the first one may go away).
fn maybe(x: bool) -> bool {
    match param(5) {
        0 => flip(),
        1 | 3 => x,
        _ => true,
    }
}
/// the first subscriber goes away now
fn leaves() -> bool {
    param(3) == 1 && (if param(5) == 3 { flip() } else { maybe(false) })
}
/// elements: Copy, and the same without Copy
pub trait El: Clone {
    fn any() -> Self;
    fn get(&self) -> u32;
    fn sub(m: &MutableVec<Self>) -> MutableSignalVec<Self>;
    fn push(l: &mut MutableVecLockMut<Self>, v: Self);
    fn insert(l: &mut MutableVecLockMut<Self>, i: usize, v: Self);
    fn set(l: &mut MutableVecLockMut<Self>, i: usize, v: Self);
    fn replace(l: &mut MutableVecLockMut<Self>, v: Vec<Self>);
}
impl El for u32 {
    fn any() -> u32 {
        any_u32()
    }
    fn get(&self) -> u32 {
        *self
    }
    fn sub(m: &MutableVec<u32>) -> MutableSignalVec<u32> {
        m.signal_vec()
    }
    fn push(l: &mut MutableVecLockMut<u32>, v: u32) {
        l.push(v)
    }
    fn insert(l: &mut MutableVecLockMut<u32>, i: usize, v: u32) {
        l.insert(i, v)
    }
    fn set(l: &mut MutableVecLockMut<u32>, i: usize, v: u32) {
        l.set(i, v)
    }
    fn replace(l: &mut MutableVecLockMut<u32>, v: Vec<u32>) {
        l.replace(v)
    }
}
/// a heap value: lost, doubled or freed ones are seen by the memory checks
#[derive(Clone)]
pub struct Hv(Box<u32>);
impl El for Hv {
    fn any() -> Hv {
        Hv(Box::new(any_u32()))
    }
    fn get(&self) -> u32 {
        *self.0
    }
    fn sub(m: &MutableVec<Hv>) -> MutableSignalVec<Hv> {
        m.signal_vec_cloned()
    }
    fn push(l: &mut MutableVecLockMut<Hv>, v: Hv) {
        l.push_cloned(v)
    }
    fn insert(l: &mut MutableVecLockMut<Hv>, i: usize, v: Hv) {
        l.insert_cloned(i, v)
    }
    fn set(l: &mut MutableVecLockMut<Hv>, i: usize, v: Hv) {
        l.set_cloned(i, v)
    }
    fn replace(l: &mut MutableVecLockMut<Hv>, v: Vec<Hv>) {
        l.replace_cloned(v)
    }
}
fn vals<T: El>(v: &[T]) -> Vec<u32> {
    v.iter().map(|x| x.get()).collect()
}
/// One arbitrary operation on a MutableVec; returns whether it is one that changes nothing.
fn vec_op<T: El>(m: &MutableVec<T>, model: &mut Vec<u32>, max_len: usize) -> bool {
    let n = model.len();
    let mut kinds = [0u8; 17];
    let mut c = 0;
    for k in 0..17u8 {
        if match k {
            0 | 2 => n < max_len,
            3 | 4 => n > 0,
            5 | 6 => n > 1,
            _ => true,
        } {
            kinds[c] = k;
            c += 1;
        }
    }
    let mut l = m.lock_mut();
    let few = |model: &[u32]| pick(0, (max_len - model.len().min(max_len)).min(2));
    match kinds[pick(0, c - 1)] {
        0 => {
            let v = T::any();
            model.push(v.get());
            T::push(&mut l, v);
            false
        }
        1 => {
            let r = l.pop();
            let w = model.pop();
            check(r.map(|x| x.get()) == w, "MutableVec: pop returns another value than Vec's");
            w.is_none()
        }
        2 => {
            let i = pick(0, n);
            let v = T::any();
            model.push(v.get());
            model[i..].rotate_right(1);
            T::insert(&mut l, i, v);
            false
        }
        3 => {
            let i = pick(0, n - 1);
            let v = T::any();
            model[i] = v.get();
            T::set(&mut l, i, v);
            false
        }
        4 => {
            let i = pick(0, n - 1);
            let r = l.remove(i);
            model[i..].rotate_left(1);
            check(Some(r.get()) == model.pop(), "MutableVec: remove returns another value than Vec's");
            false
        }
        5 => {
            let (i, j) = (pick(0, n - 1), pick(0, n - 1));
            if i < j {
                model[i..=j].rotate_left(1);
            } else {
                model[j..=i].rotate_right(1);
            }
            l.move_from_to(i, j);
            i == j
        }
        6 => {
            let (i, j) = (pick(0, n - 1), pick(0, n - 1));
            model.swap(i, j);
            l.swap(i, j);
            i == j
        }
        7 => {
            l.clear();
            model.clear();
            n == 0
        }
        8 => {
            let k = any_u32();
            let f = |x: u32| x ^ k < 1 << 31;
            let mut calls = 0;
            l.retain(|x| {
                check(x.get() == model[calls], "MutableVec: retain visits the wrong elements");
                calls += 1;
                f(x.get())
            });
            check(calls == n, "MutableVec: retain does not visit every element once");
            model.retain(|x| f(*x));
            model.len() == n
        }
        9 => {
            let (i, j) = (pick(0, n), pick(0, n));
            if i > j {
                return true;
            }
            let d: Vec<u32> = match pick(0, 6) {
                0 => vals(&l.drain(i..j).collect::<Vec<T>>()),
                1 if j > i => vals(&l.drain(i..=j - 1).collect::<Vec<T>>()),
                2 if j == n => vals(&l.drain(i..).collect::<Vec<T>>()),
                3 if i == 0 => vals(&l.drain(..j).collect::<Vec<T>>()),
                4 if i > 0 => vals(&l.drain((Bound::Excluded(i - 1), Bound::Excluded(j))).collect::<Vec<T>>()),
                5 if i == 0 && j == n => vals(&l.drain(..).collect::<Vec<T>>()),
                // not all of the drained values are taken
                _ => {
                    let mut d = l.drain(i..j);
                    let x = d.next().map(|x| x.get());
                    drop(d);
                    let mut r: Vec<u32> = model[i..j].to_vec();
                    if let Some(x) = x {
                        r[0] = x;
                    }
                    r
                }
            };
            same(&d, &model[i..j], "MutableVec: drain yields other values than Vec's");
            model.drain(i..j);
            i == j
        }
        10 => {
            let k = pick(0, n + 1);
            l.truncate(k);
            model.truncate(k);
            k >= n
        }
        11 => {
            l.reverse();
            model.reverse();
            n < 2
        }
        12 => {
            let v: Vec<T> = (0..pick(0, 2.min(max_len))).map(|_| T::any()).collect();
            *model = vals(&v);
            T::replace(&mut l, v);
            false
        }
        13 => {
            let v: Vec<T> = (0..few(&model)).map(|_| T::any()).collect();
            model.extend(vals(&v));
            let none = v.is_empty();
            l.extend(v);
            none
        }
        14 => {
            let d = any_diff(0, n, max_len, 2.min(max_len), T::any);
            let none = match &d {
                VecDiff::Move { old_index, new_index } => old_index == new_index,
                VecDiff::Clear {} => n == 0,
                _ => false,
            };
            replay(model, map_diff(clone_diff(&d), |x| x.get()));
            MutableVecLockMut::apply_vec_diff(&mut l, d);
            none
        }
        15 => {
            l.reserve(3);
            check(l.capacity() >= n + 3, "MutableVec: reserve does not reserve");
            l.reserve_exact(4);
            l.shrink_to_fit();
            true
        }
        _ => true,
    }
}
fn mutable_vec<T: El>() {
    no_leak(|| {
        let ops = param(1);
        let max_len = param(0) + 1;
        let init: Vec<T> = (0..pick(0, param(0))).map(|_| T::any()).collect();
        let mut model = vals(&init);
        let m = if maybe(true) { MutableVec::new_with_values(init) } else { MutableVec::from(init) };
        let m2 = m.clone();
        // the subscribers start and stop at arbitrary times
        let mut grave: Vec<Task<()>> = vec![];
        let mut subs: Vec<Option<VecSub<T>>> = vec![];
        for t in 0..ops + 1 {
            while subs.len() < param(2) && maybe(t == 0) {
                subs.push(Some(VecSub::new(T::sub(&m))));
            }
            if subs.len() > 0 && subs[0].is_some() && leaves() {
                // its wakers may still be called
                grave.extend(subs[0].take().map(|s| s.t));
            }
            for s in subs.iter_mut().flatten() {
                if maybe(false) {
                    s.drain();
                    same(&vals(&s.out), &model, "MutableVec: the changes do not rebuild the contents");
                    check(!s.t.ended, "MutableVec: a signal ends although a handle is alive");
                }
            }
            if t == ops {
                break;
            }
            let none = vec_op(if t & 1 == 0 { &m } else { &m2 }, &mut model, max_len);
            same(&vals(&m.lock_ref()), &model, "MutableVec: the contents differ from Vec's");
            same(&vals(m2.lock_ref().as_slice()), &model, "MutableVec: a clone has other contents");
            for s in subs.iter_mut().flatten() {
                if s.settled {
                    check(s.t.asleep() == none, "MutableVec: a waiting task is woken exactly by operations that change something");
                }
                if !none {
                    s.settled = false;
                }
            }
        }
        drop(m);
        for s in subs.iter_mut().flatten() {
            s.drain();
            check(!s.t.ended, "MutableVec: a signal ends although a handle is alive");
        }
        drop(m2);
        for s in subs.iter_mut().flatten() {
            check(!s.t.asleep(), "MutableVec: a waiting task is not woken by the drop of the last handle");
            s.drain();
            check(s.t.ended, "MutableVec: a signal does not end with the last handle");
            same(&vals(&s.out), &model, "MutableVec: the changes do not rebuild the final contents");
        }
        cover("end");
    })
}
/// params: initial length at most, operations, subscribers at most, 1: the first subscriber may go away
#[no_mangle]
pub extern "C" fn h_mutable_vec() {
    mutable_vec::<u32>()
}
#[no_mangle]
pub extern "C" fn h_mutable_vec_cloned() {
    mutable_vec::<Hv>()
}

// ------------------------------------------------------------------ C08
struct MapSub<V> {
    s: MutableSignalMap<u8, V>,
    t: Task<()>,
    out: BTreeMap<u8, V>,
    settled: bool,
}
struct ListSub<S: SignalVec> {
    s: S,
    t: Task<()>,
    out: Vec<S::Item>,
}
impl<S: SignalVec + Unpin> ListSub<S> {
    fn new(s: S) -> Self {
        ListSub { s, t: Task::new(), out: vec![] }
    }
    fn drain(&mut self) {
        let (s, out) = (&mut self.s, &mut self.out);
        while self.t.step(|cx| {
            Pin::new(&mut *s).poll_vec_change(cx).map(|d| {
                d.map(|d| replay(&mut *out, d))
            })
        }) {}
    }
}
impl<V> MapSub<V> {
    fn drain(&mut self) {
        let (s, out) = (&mut self.s, &mut self.out);
        while self.t.step(|cx| {
            Pin::new(&mut *s).poll_map_change(cx).map(|d| {
                d.map(|d| replay_map(&mut *out, d))
            })
        }) {}
        self.settled = true;
    }
}
trait MapEl: El {
    fn sub_map(m: &MutableBTreeMap<u8, Self>) -> MutableSignalMap<u8, Self>;
    fn entries(m: &MutableBTreeMap<u8, Self>) -> MutableBTreeMapEntries<u8, Self>;
    fn put(l: &mut MutableBTreeMapLockMut<u8, Self>, k: u8, v: Self) -> Option<Self>;
    fn replace_map(l: &mut MutableBTreeMapLockMut<u8, Self>, v: BTreeMap<u8, Self>);
}
impl MapEl for u32 {
    fn sub_map(m: &MutableBTreeMap<u8, u32>) -> MutableSignalMap<u8, u32> {
        m.signal_map()
    }
    fn entries(m: &MutableBTreeMap<u8, u32>) -> MutableBTreeMapEntries<u8, u32> {
        m.signal_vec_entries()
    }
    fn put(l: &mut MutableBTreeMapLockMut<u8, u32>, k: u8, v: u32) -> Option<u32> {
        l.insert(k, v)
    }
    fn replace_map(l: &mut MutableBTreeMapLockMut<u8, u32>, v: BTreeMap<u8, u32>) {
        l.replace(v)
    }
}
impl MapEl for Hv {
    fn sub_map(m: &MutableBTreeMap<u8, Hv>) -> MutableSignalMap<u8, Hv> {
        m.signal_map_cloned()
    }
    fn entries(m: &MutableBTreeMap<u8, Hv>) -> MutableBTreeMapEntries<u8, Hv> {
        m.entries_cloned()
    }
    fn put(l: &mut MutableBTreeMapLockMut<u8, Hv>, k: u8, v: Hv) -> Option<Hv> {
        l.insert_cloned(k, v)
    }
    fn replace_map(l: &mut MutableBTreeMapLockMut<u8, Hv>, v: BTreeMap<u8, Hv>) {
        l.replace_cloned(v)
    }
}
type Model = Vec<(u8, u32)>; // in key order
fn any_map<T: MapEl>(max: usize) -> (BTreeMap<u8, T>, Model) {
    let mut m = BTreeMap::new();
    let mut model: Model = vec![];
    for _ in 0..pick(0, max) {
        let k = any_u8();
        if let Some(l) = model.last() {
            assume(l.0 < k);
        }
        let v = T::any();
        model.push((k, v.get()));
        m.insert(k, v);
    }
    (m, model)
}
fn find(model: &Model, k: u8) -> Result<usize, usize> {
    let mut i = 0;
    while i < model.len() && model[i].0 < k {
        i += 1;
    }
    if i < model.len() && model[i].0 == k {
        Ok(i)
    } else {
        Err(i)
    }
}
fn same_map<'a, T: El + 'a>(got: impl Iterator<Item = (u8, &'a T)>, want: &Model, s: &str) {
    let mut ok = true;
    let mut n = 0;
    for (k, v) in got {
        check(n < want.len(), s);
        ok &= k == want[n].0 && v.get() == want[n].1;
        n += 1;
    }
    check(ok && n == want.len(), s);
}
fn map_op<T: MapEl>(m: &MutableBTreeMap<u8, T>, model: &mut Model) -> bool {
    let mut l = m.lock_mut();
    match pick(0, 4) {
        0 => {
            let (k, v) = (any_u8(), T::any());
            let x = v.get();
            let r = T::put(&mut l, k, v).map(|x| x.get());
            match find(model, k) {
                Ok(i) => {
                    check(r == Some(model[i].1), "MutableBTreeMap: insert does not return the old value");
                    model[i].1 = x;
                }
                Err(i) => {
                    check(r.is_none(), "MutableBTreeMap: insert returns a value for an absent key");
                    model.push((k, x));
                    model[i..].rotate_right(1);
                }
            }
            false
        }
        1 => {
            let k = any_u8();
            let r = l.remove(&k).map(|x| x.get());
            match find(model, k) {
                Ok(i) => {
                    model[i..].rotate_left(1);
                    check(r == model.pop().map(|x| x.1), "MutableBTreeMap: remove does not return the value");
                    false
                }
                Err(_) => {
                    check(r.is_none(), "MutableBTreeMap: remove returns a value for an absent key");
                    true
                }
            }
        }
        2 => {
            l.clear();
            let e = model.is_empty();
            model.clear();
            e
        }
        3 => {
            let (map, mo) = any_map::<T>(2);
            T::replace_map(&mut l, map);
            *model = mo;
            false
        }
        _ => {
            let k = any_u8();
            check(l.get(&k).map(|x| x.get()) == find(model, k).ok().map(|i| model[i].1), "MutableBTreeMap: get differs");
            true
        }
    }
}
fn mutable_map<T: MapEl>() {
    no_leak(|| {
        let ops = param(1);
        let (init, mut model) = any_map::<T>(param(0));
        let m = if maybe(true) { MutableBTreeMap::with_values(init) } else { MutableBTreeMap::from(init) };
        let m2 = m.clone();
        let mut grave: Vec<Task<()>> = vec![];
        let mut subs: Vec<Option<MapSub<T>>> = vec![];
        let mut lists = None;
        for t in 0..ops + 1 {
            while subs.len() < param(2) && maybe(t == 0) {
                subs.push(Some(MapSub { s: T::sub_map(&m), t: Task::new(), out: BTreeMap::new(), settled: false }));
            }
            if subs.len() > 0 && subs[0].is_some() && leaves() {
                // its wakers may still be called
                grave.extend(subs[0].take().map(|s| s.t));
            }
            if param(4) == 1 && lists.is_none() && maybe(t == 0) {
                lists = Some((ListSub::new(m.signal_vec_keys()), ListSub::new(T::entries(&m))));
            }
            for s in subs.iter_mut().flatten() {
                if maybe(false) {
                    s.drain();
                    same_map(s.out.iter().map(|(k, v)| (*k, v)), &model, "MutableBTreeMap: the changes do not rebuild the contents");
                    check(!s.t.ended, "MutableBTreeMap: a signal ends although a handle is alive");
                }
            }
            if let Some((k, e)) = lists.as_mut() {
                if maybe(false) {
                    settle_lists(k, e, &model);
                    check(!k.t.ended && !e.t.ended, "MutableBTreeMap: a signal ends although a handle is alive");
                }
            }
            if t == ops {
                break;
            }
            let none = map_op(if t & 1 == 0 { &m } else { &m2 }, &mut model);
            same_map(m.lock_ref().iter().map(|(k, v)| (*k, v)), &model, "MutableBTreeMap: the contents differ from BTreeMap's");
            for s in subs.iter_mut().flatten() {
                if s.settled {
                    check(s.t.asleep() == none, "MutableBTreeMap: a waiting task is woken exactly by operations that change something");
                }
                if !none {
                    s.settled = false;
                }
            }
        }
        drop(m);
        for s in subs.iter_mut().flatten() {
            s.drain();
            check(!s.t.ended, "MutableBTreeMap: a signal ends although a handle is alive");
        }
        drop(m2);
        for s in subs.iter_mut().flatten() {
            check(!s.t.asleep(), "MutableBTreeMap: a waiting task is not woken by the drop of the last handle");
            s.drain();
            check(s.t.ended, "MutableBTreeMap: a signal does not end with the last handle");
            same_map(s.out.iter().map(|(k, v)| (*k, v)), &model, "MutableBTreeMap: the changes do not rebuild the final contents");
        }
        if let Some((k, e)) = lists.as_mut() {
            settle_lists(k, e, &model);
            check(k.t.ended && e.t.ended, "MutableBTreeMap: a vector of keys or entries does not end with the last handle");
        }
        cover("end");
    })
}
fn settle_lists<T: El, K, E>(k: &mut ListSub<K>, e: &mut ListSub<E>, model: &Model)
where
    K: SignalVec<Item = u8> + Unpin,
    E: SignalVec<Item = (u8, T)> + Unpin,
{
    k.drain();
    e.drain();
    check(k.out.len() == model.len(), "signal_vec_keys: not the keys in order");
    let mut ok = true;
    for i in 0..model.len() {
        ok &= k.out[i] == model[i].0;
    }
    check(ok, "signal_vec_keys: not the keys in order");
    same_map(e.out.iter().map(|(k, v)| (*k, v)), model, "signal_vec_entries: not the entries in order");
}
/// params: initial size at most, operations, subscribers at most, 1: the first may go away, 1: keys and entries
#[no_mangle]
pub extern "C" fn h_mutable_map() {
    mutable_map::<u32>()
}
#[no_mangle]
pub extern "C" fn h_mutable_map_cloned() {
    mutable_map::<Hv>()
}
