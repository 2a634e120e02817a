//! Wrappers, constants, debug adaptors; views and conversions of the containers.
use crate::rt::*;
use crate::vecs::same;
use crate::vsrc::*;
use futures_signals::signal::*;
use futures_signals::signal_map::{self, MutableBTreeMap, SignalMap, SignalMapExt};
use futures_signals::signal_vec::{self, MutableVec, SignalVec, SignalVecExt};
use std::borrow::Borrow;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

/// lets an input pass as Send (everything here runs on one thread)
struct Sendable<S>(S);
unsafe impl<S> Send for Sendable<S> {}
impl<S: Unpin> Unpin for Sendable<S> {}
impl<S: Signal + Unpin> Signal for Sendable<S> {
    type Item = S::Item;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<S::Item>> {
        Pin::new(&mut self.0).poll_change(cx)
    }
}
impl<S: SignalVec + Unpin> SignalVec for Sendable<S> {
    type Item = S::Item;
    fn poll_vec_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<signal_vec::VecDiff<S::Item>>> {
        Pin::new(&mut self.0).poll_vec_change(cx)
    }
}

fn kind<T>(p: &Poll<Option<T>>) -> Last {
    match p {
        Poll::Pending => Last::Pend,
        Poll::Ready(None) => Last::End,
        Poll::Ready(Some(_)) => Last::Item,
    }
}
/// Polls until the end or until nothing more can come: every poll must reach the input exactly once, with the
/// current waker, and give what the input gave; `item` compares.
fn passes<T>(ctl: &Ctl, mut poll: impl FnMut(&mut Context) -> Poll<Option<T>>, mut item: impl FnMut(T)) {
    let mut n = 0;
    loop {
        n += 1;
        check(n < 64, "wrapper: no progress");
        let r = poll_with(|cx| poll(cx));
        check(ctl.polls.get() == n, "wrapper: a poll does not reach the input exactly once");
        check(kind(&r) == ctl.last.get(), "wrapper: a poll does not give what the input gave");
        match r {
            Poll::Ready(Some(x)) => item(x),
            Poll::Ready(None) => {
                cover("end");
                return;
            }
            Poll::Pending => {
                ctl.check_registered();
                if ctl.quiet() {
                    cover("quiet");
                    return;
                }
            }
        }
    }
}
/// params: values after the first one, pendings
#[no_mangle]
pub extern "C" fn h_wrap_sig() {
    no_leak(|| {
        let m: Rc<SigModel<u32>> = SigModel::new(param(0), param(1), true);
        let item = |x: u32| check(m.get() == Some(x), "wrapper: not the input's value");
        let mut src = u32_sig(&m);
        match pick(0, 7) {
            0 => {
                let mut s = Box::new(src);
                passes(&m.ctl, |cx| Pin::new(&mut s).poll_change(cx), item)
            }
            1 => {
                let mut s = &mut src;
                passes(&m.ctl, |cx| Pin::new(&mut s).poll_change(cx), item)
            }
            2 => {
                let mut s = Box::pin(src);
                passes(&m.ctl, |cx| Pin::new(&mut s).poll_change(cx), item)
            }
            3 => {
                let mut s = Sendable(src).boxed();
                passes(&m.ctl, |cx| s.as_mut().poll_change(cx), item)
            }
            4 => {
                let mut s = src.boxed_local();
                passes(&m.ctl, |cx| s.poll_change_unpin(cx), item)
            }
            5 => passes(&m.ctl, |cx| src.poll_change_unpin(cx), item),
            6 => {
                let mut s = Box::pin(SignalExt::debug(src));
                passes(&m.ctl, |cx| s.as_mut().poll_change(cx), item)
            }
            _ => {
                let mut s: Box<dyn Signal<Item = u32> + Unpin> = Box::new(src);
                passes(&m.ctl, |cx| s.poll_change_unpin(cx), item)
            }
        }
    })
}
/// params: initial, changes, pendings
#[no_mangle]
pub extern "C" fn h_wrap_vec() {
    no_leak(|| {
        let m: Rc<VecModel<u32>> = VecModel::new(param(0), param(1), param(2), true);
        let out = RefCell::new(vec![]);
        let item = |d| {
            let mut out = out.borrow_mut();
            replay(&mut out, d);
            same(&out, &m.model.borrow(), "wrapper: not the input's change");
        };
        let mut src = u32_src(&m);
        match pick(0, 7) {
            0 => {
                let mut s = Box::new(src);
                passes(&m.ctl, |cx| Pin::new(&mut s).poll_vec_change(cx), item)
            }
            1 => {
                let mut s = &mut src;
                passes(&m.ctl, |cx| Pin::new(&mut s).poll_vec_change(cx), item)
            }
            2 => {
                let mut s = Box::pin(src);
                passes(&m.ctl, |cx| Pin::new(&mut s).poll_vec_change(cx), item)
            }
            3 => {
                let mut s = Sendable(src).boxed();
                passes(&m.ctl, |cx| s.as_mut().poll_vec_change(cx), item)
            }
            4 => {
                let mut s = src.boxed_local();
                passes(&m.ctl, |cx| s.poll_vec_change_unpin(cx), item)
            }
            5 => passes(&m.ctl, |cx| src.poll_vec_change_unpin(cx), item),
            6 => {
                let mut s = Box::pin(SignalVecExt::debug(src));
                passes(&m.ctl, |cx| s.as_mut().poll_vec_change(cx), item)
            }
            _ => {
                let mut s: Box<dyn SignalVec<Item = u32> + Unpin> = Box::new(src);
                passes(&m.ctl, |cx| s.poll_vec_change_unpin(cx), item)
            }
        }
    })
}
/// params: changes, pendings
#[no_mangle]
pub extern "C" fn h_wrap_map() {
    no_leak(|| {
        let m: Rc<MapModel<u32>> = MapModel::new(param(0), param(1), true);
        let out = RefCell::new(BTreeMap::new());
        let item = |d| {
            let mut out = out.borrow_mut();
            replay_map(&mut out, d);
            check(*out == *m.model.borrow(), "wrapper: not the input's change");
        };
        let mut src = MapSrc::new(&m, any_u32, |x: &u32| *x);
        match pick(0, 4) {
            0 => {
                let mut s = Box::new(src);
                passes(&m.ctl, |cx| Pin::new(&mut s).poll_map_change(cx), item)
            }
            1 => {
                let mut s = &mut src;
                passes(&m.ctl, |cx| Pin::new(&mut s).poll_map_change(cx), item)
            }
            2 => {
                let mut s = Box::pin(src);
                passes(&m.ctl, |cx| Pin::new(&mut s).poll_map_change(cx), item)
            }
            3 => passes(&m.ctl, |cx| src.poll_map_change_unpin(cx), item),
            _ => {
                let mut s: Box<dyn SignalMap<Key = u8, Value = u32> + Unpin> = Box::new(src);
                passes(&m.ctl, |cx| s.poll_map_change_unpin(cx), item)
            }
        }
    })
}
/// constants: the contents once, then the end.  params: length
#[no_mangle]
pub extern "C" fn h_always() {
    no_leak(|| match pick(0, 2) {
        0 => {
            let v = any_u32();
            let mut s = always(v);
            check(poll_with(|cx| s.poll_change_unpin(cx)) == Poll::Ready(Some(v)), "always: not the value at first");
            check(poll_with(|cx| s.poll_change_unpin(cx)) == Poll::Ready(None), "always: does not end after its value");
            cover("end");
        }
        1 => {
            let n = pick(0, param(0));
            let want: Vec<u32> = (0..n).map(|_| any_u32()).collect();
            let mut s = signal_vec::always(want.clone());
            let mut out = vec![];
            while let Poll::Ready(Some(d)) = poll_with(|cx| s.poll_vec_change_unpin(cx)) {
                replay(&mut out, d);
            }
            same(&out, &want, "always: not the given vector");
            check(poll_with(|cx| s.poll_vec_change_unpin(cx)) == Poll::Ready(None), "always: does not end");
            cover("end");
        }
        _ => {
            let want = map_of(param(0));
            let mut s = signal_map::always(want.clone());
            let mut out = BTreeMap::new();
            while let Poll::Ready(Some(d)) = poll_with(|cx| s.poll_map_change_unpin(cx)) {
                replay_map(&mut out, d);
            }
            check(out == want, "always: not the given map");
            check(poll_with(|cx| s.poll_map_change_unpin(cx)) == Poll::Ready(None), "always: does not end");
            cover("end");
        }
    })
}
/// a map of up to n symbolic entries
fn map_of(n: usize) -> BTreeMap<u8, u32> {
    let n = pick(0, n);
    let mut m = BTreeMap::new();
    let mut last = None;
    for _ in 0..n {
        let k = any_u8();
        if let Some(l) = last {
            assume(l < k);
        }
        last = Some(k);
        m.insert(k, any_u32());
    }
    m
}
fn vec_of(n: usize) -> Vec<u32> {
    let n = pick(0, n);
    (0..n).map(|_| any_u32()).collect()
}

/// order sensitive, and cheap for the solver
struct H(u64);
impl Hasher for H {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.rotate_left(8) ^ *x as u64;
        }
    }
    fn write_u32(&mut self, x: u32) {
        self.0 = self.0.rotate_left(7) ^ x as u64;
    }
    fn write_u8(&mut self, x: u8) {
        self.0 = self.0.rotate_left(3) ^ x as u64;
    }
    fn write_usize(&mut self, x: usize) {
        self.0 = self.0.rotate_left(13) ^ x as u64;
    }
}
fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = H(0);
    t.hash(&mut h);
    h.0
}
/// comparisons of two views are those of the contents
fn ordered<A: Ord + ?Sized, B: Ord>(a: &A, b: &A, x: &B, y: &B) {
    check(a.cmp(b) == x.cmp(y), "view: cmp is not that of the contents");
    check(a.partial_cmp(b) == x.partial_cmp(y), "view: partial_cmp is not that of the contents");
    check((a == b) == (x == y), "view: == is not that of the contents");
    check((a != b) == (x != y), "view: != is not that of the contents");
    check((a < b) == (x.cmp(y) == Ordering::Less), "view: < is not that of the contents");
    check((a >= b) == (x.cmp(y) != Ordering::Less), "view: >= is not that of the contents");
}
/// params: length of the first vector, of the second
#[no_mangle]
pub extern "C" fn h_views_vec() {
    no_leak(|| {
        let x = vec_of(param(0));
        let y = vec_of(param(1));
        let a = match pick(0, 2) {
            0 => MutableVec::new_with_values(x.clone()),
            1 => MutableVec::from(&x[..]),
            _ => {
                let a = if flip() { MutableVec::with_capacity(3) } else { MutableVec::default() };
                let mut l = a.lock_mut();
                for v in x.iter() {
                    l.push(*v);
                }
                drop(l);
                a
            }
        };
        let b = MutableVec::from(y.clone());
        if flip() {
            let (l, r) = (a.lock_ref(), b.lock_ref());
            ordered(&l, &r, &x, &y);
            check((l == &y[..]) == (x == y), "view: == with a slice is not that of the contents");
            check((l != &y[..]) == (x != y), "view: != with a slice is not that of the contents");
            check(hash_of(&l) == hash_of(&x), "view: not the hash of the contents");
            same(&l, &x, "view: deref is not the contents");
            same(l.as_slice(), &x, "view: as_slice is not the contents");
            same(<_ as Borrow<[u32]>>::borrow(&l), &x, "view: borrow is not the contents");
            same(<_ as AsRef<[u32]>>::as_ref(&l), &x, "view: as_ref is not the contents");
            check(l.capacity() >= x.len(), "view: capacity is less than the length");
            for i in 0..x.len() {
                check(l[i] == x[i], "view: indexing is not that of the contents");
            }
            same(&l[..], &x, "view: indexing with a range is not that of the contents");
        } else {
            let (l, r) = (a.lock_mut(), b.lock_mut());
            ordered(&l, &r, &x, &y);
            check((l == &y[..]) == (x == y), "view: == with a slice is not that of the contents");
            check((l != &y[..]) == (x != y), "view: != with a slice is not that of the contents");
            check(hash_of(&l) == hash_of(&x), "view: not the hash of the contents");
            same(&l, &x, "view: deref is not the contents");
            same(l.as_slice(), &x, "view: as_slice is not the contents");
            same(<_ as Borrow<[u32]>>::borrow(&l), &x, "view: borrow is not the contents");
            same(<_ as AsRef<[u32]>>::as_ref(&l), &x, "view: as_ref is not the contents");
            check(l.capacity() >= x.len(), "view: capacity is less than the length");
            for i in 0..x.len() {
                check(l[i] == x[i], "view: indexing is not that of the contents");
            }
            same(&l[..], &x, "view: indexing with a range is not that of the contents");
        }
        cover("end");
    })
}
/// params: size of the first map, of the second
#[no_mangle]
pub extern "C" fn h_views_map() {
    no_leak(|| {
        let x = map_of(param(0));
        let y = map_of(param(1));
        let a = match pick(0, 2) {
            0 => MutableBTreeMap::with_values(x.clone()),
            1 => MutableBTreeMap::from(x.clone()),
            _ => {
                let a = if flip() { MutableBTreeMap::new() } else { MutableBTreeMap::default() };
                let mut l = a.lock_mut();
                for (k, v) in x.iter().rev() {
                    l.insert(*k, *v);
                }
                drop(l);
                a
            }
        };
        let b = MutableBTreeMap::with_values(y.clone());
        if flip() {
            let (l, r) = (a.lock_ref(), b.lock_ref());
            ordered(&l, &r, &x, &y);
            check((l == y) == (x == y), "view: == with a map is not that of the contents");
            check((l != y) == (x != y), "view: != with a map is not that of the contents");
            check(l.partial_cmp(&y) == Some(x.cmp(&y)), "view: partial_cmp with a map is not that of the contents");
            check(hash_of(&l) == hash_of(&x), "view: not the hash of the contents");
            check(*l == x, "view: deref is not the contents");
            for (k, v) in x.iter() {
                check(l[k] == *v, "view: indexing is not that of the contents");
            }
        } else {
            let (l, r) = (a.lock_mut(), b.lock_mut());
            ordered(&l, &r, &x, &y);
            check((l == y) == (x == y), "view: == with a map is not that of the contents");
            check((l != y) == (x != y), "view: != with a map is not that of the contents");
            check(l.partial_cmp(&y) == Some(x.cmp(&y)), "view: partial_cmp with a map is not that of the contents");
            check(hash_of(&l) == hash_of(&x), "view: not the hash of the contents");
            check(*l == x, "view: deref is not the contents");
            for (k, v) in x.iter() {
                check(l[k] == *v, "view: indexing is not that of the contents");
            }
        }
        cover("end");
    })
}
/// Mutable's constructors and views
#[no_mangle]
pub extern "C" fn h_views_mutable() {
    no_leak(|| {
        let v = any_u32();
        let a = match pick(0, 2) {
            0 => Mutable::new(v),
            1 => Mutable::from(v),
            _ => {
                let a: Mutable<u32> = Mutable::default();
                check(a.get() == 0, "Mutable: default is not the default of the value");
                a.set(v);
                a
            }
        };
        let r = a.read_only();
        check(*a.lock_ref() == v && *r.lock_ref() == v && *r.clone().lock_ref() == v, "Mutable: lock_ref is not the value");
        check(a.get() == v && a.get_cloned() == v && r.get() == v && r.get_cloned() == v, "Mutable: get is not the value");
        let w = any_u32();
        {
            let mut l = a.lock_mut();
            check(*l == v, "Mutable: lock_mut does not show the value");
            *l = w;
            check(*l == w, "Mutable: lock_mut does not show what it wrote");
        }
        let c = a.clone();
        check(c.get() == w && r.get() == w, "Mutable: a write is not seen by the clones");
        drop(a);
        check(c.get() == w && r.get() == w, "Mutable: dropping a handle changes the value");
        drop(c);
        check(r.get() == w, "Mutable: dropping the last handle changes the value");
        cover("end");
    })
}
/// formatted as one letter that depends on the value
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
struct D(u8);
impl std::fmt::Debug for D {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(if self.0 & 1 == 0 { "x" } else { "yy" })
    }
}
/// params: length of the contents
#[no_mangle]
pub extern "C" fn h_views_debug() {
    no_leak(|| {
        let n = pick(0, param(0));
        let x: Vec<D> = (0..n).map(|_| D(any_u8())).collect();
        match pick(0, 2) {
            0 => {
                let v = D(any_u8());
                let a = Mutable::new(v);
                check(format!("{:?}", a) == format!("Mutable({:?})", v), "Debug: not the value of the Mutable");
                check(format!("{:?}", a.read_only()) == format!("ReadOnlyMutable({:?})", v), "Debug: not the value of the ReadOnlyMutable");
                check(format!("{:?}", *a.lock_ref()) == format!("{:?}", v), "Debug: not the value of the lock");
            }
            1 => {
                let a = MutableVec::new_with_values(x.clone());
                check(format!("{:?}", a) == format!("MutableVec({:?})", x), "Debug: not the contents of the MutableVec");
            }
            _ => {
                let m: BTreeMap<u8, D> = x.iter().enumerate().map(|(i, v)| (i as u8, *v)).collect();
                let a = MutableBTreeMap::with_values(m.clone());
                check(format!("{:?}", a) == format!("MutableBTreeMap({:?})", m), "Debug: not the contents of the MutableBTreeMap");
            }
        }
        cover("end");
    })
}
