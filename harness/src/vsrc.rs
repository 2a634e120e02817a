//! Scripted SignalVec / Signal / SignalMap inputs, and the reference replay of their changes.
use crate::rt::*;
use futures_signals::signal::Signal;
use futures_signals::signal_map::{MapDiff, SignalMap};
use futures_signals::signal_vec::{SignalVec, VecDiff};
use futures_core::Stream;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

/// Reference meaning of a VecDiff; an out of range change is a violation.
pub fn replay<T>(v: &mut Vec<T>, d: VecDiff<T>) {
    match d {
        VecDiff::Replace { values } => *v = values,
        VecDiff::InsertAt { index, value } => {
            check(index <= v.len(), "range: InsertAt out of range");
            v.push(value);
            let mut i = v.len() - 1;
            while i > index {
                v.swap(i, i - 1);
                i -= 1;
            }
        }
        VecDiff::UpdateAt { index, value } => {
            check(index < v.len(), "range: UpdateAt out of range");
            v[index] = value;
        }
        VecDiff::RemoveAt { index } => {
            check(index < v.len(), "range: RemoveAt out of range");
            let mut i = index;
            while i + 1 < v.len() {
                v.swap(i, i + 1);
                i += 1;
            }
            v.pop();
        }
        VecDiff::Move { old_index, new_index } => {
            check(old_index < v.len() && new_index < v.len(), "range: Move out of range");
            let mut i = old_index;
            while i < new_index {
                v.swap(i, i + 1);
                i += 1;
            }
            while i > new_index {
                v.swap(i, i - 1);
                i -= 1;
            }
        }
        VecDiff::Push { value } => v.push(value),
        VecDiff::Pop {} => {
            check(!v.is_empty(), "range: Pop of an empty vector");
            v.pop();
        }
        VecDiff::Clear {} => v.clear(),
    }
}

/// An arbitrary change that is valid for `len` elements.
pub fn any_diff<H>(mask: usize, len: usize, max_len: usize, max_rep: usize, mut fresh: impl FnMut() -> H) -> VecDiff<H> {
    let mut kinds = [0u8; 8];
    let mut n = 0;
    let mut add = |k: u8| {
        if mask == 0 || (mask >> k) & 1 == 1 {
            kinds[n] = k;
            n += 1;
        }
    };
    if len < max_len {
        add(1);
        add(5);
    }
    if len > 0 {
        add(2);
        add(3);
        add(4);
        add(6);
    }
    add(0);
    add(7);
    // the masked kinds do not apply to this length
    assume(n > 0);
    match kinds[pick(0, n - 1)] {
        0 => {
            let n = pick(0, max_rep);
            VecDiff::Replace { values: (0..n).map(|_| fresh()).collect() }
        }
        1 => VecDiff::InsertAt { index: pick(0, len), value: fresh() },
        2 => VecDiff::UpdateAt { index: pick(0, len - 1), value: fresh() },
        3 => VecDiff::RemoveAt { index: pick(0, len - 1) },
        4 => VecDiff::Move { old_index: pick(0, len - 1), new_index: pick(0, len - 1) },
        5 => VecDiff::Push { value: fresh() },
        6 => VecDiff::Pop {},
        _ => VecDiff::Clear {},
    }
}
pub fn map_diff<A, B>(d: VecDiff<A>, mut f: impl FnMut(A) -> B) -> VecDiff<B> {
    match d {
        VecDiff::Replace { values } => VecDiff::Replace { values: values.into_iter().map(f).collect() },
        VecDiff::InsertAt { index, value } => VecDiff::InsertAt { index, value: f(value) },
        VecDiff::UpdateAt { index, value } => VecDiff::UpdateAt { index, value: f(value) },
        VecDiff::RemoveAt { index } => VecDiff::RemoveAt { index },
        VecDiff::Move { old_index, new_index } => VecDiff::Move { old_index, new_index },
        VecDiff::Push { value } => VecDiff::Push { value: f(value) },
        VecDiff::Pop {} => VecDiff::Pop {},
        VecDiff::Clear {} => VecDiff::Clear {},
    }
}
pub fn clone_diff<A: Clone>(d: &VecDiff<A>) -> VecDiff<A> {
    match d {
        VecDiff::Replace { values } => VecDiff::Replace { values: values.clone() },
        VecDiff::InsertAt { index, value } => VecDiff::InsertAt { index: *index, value: value.clone() },
        VecDiff::UpdateAt { index, value } => VecDiff::UpdateAt { index: *index, value: value.clone() },
        VecDiff::RemoveAt { index } => VecDiff::RemoveAt { index: *index },
        VecDiff::Move { old_index, new_index } => VecDiff::Move { old_index: *old_index, new_index: *new_index },
        VecDiff::Push { value } => VecDiff::Push { value: value.clone() },
        VecDiff::Pop {} => VecDiff::Pop {},
        VecDiff::Clear {} => VecDiff::Clear {},
    }
}

/// A SignalVec whose changes are arbitrary.  `H` is the handle of an element the model keeps.
pub struct VecModel<H> {
    pub ctl: Rc<Ctl>,
    pub model: RefCell<Vec<H>>,
    pub init: usize,
    pub max_len: usize,
    pub max_rep: usize,
    /// kinds of change that may occur (bit n: kind n of any_diff; 0: all)
    pub mask: usize,
    pub started: Cell<bool>,
    /// number of elements that arrived so far
    pub arrived: Cell<usize>,
    /// number of changes so far
    pub changes: Cell<usize>,
    /// the elements that were replaced by an update
    pub updated: RefCell<Vec<H>>,
}
impl<H> VecModel<H> {
    /// at first Replace of up to `init` elements, then up to `k` arbitrary changes
    pub fn new(init: usize, k: usize, pends: usize, may_end: bool) -> Rc<VecModel<H>> {
        VecModel::with(init, Ctl::new(k + 1, pends, may_end && param(12) & 2 == 0), param(14))
    }
    /// an input that belongs to an element of another input
    pub fn inner(init: usize, k: usize, pends: usize) -> Rc<VecModel<H>> {
        VecModel::with(init, Ctl::inner(1, k, pends), param(13))
    }
    fn with(init: usize, ctl: Rc<Ctl>, mask: usize) -> Rc<VecModel<H>> {
        Rc::new(VecModel {
            ctl,
            mask,
            model: RefCell::new(vec![]),
            init,
            max_len: init + 1,
            max_rep: if init < 2 { init } else { 2 },
            started: Cell::new(false),
            arrived: Cell::new(0),
            updated: RefCell::new(vec![]),
            changes: Cell::new(0),
        })
    }
}
pub struct VecSrc<H, F, G> {
    pub m: Rc<VecModel<H>>,
    pub fresh: F,
    pub conv: G,
    _d: DropMark,
}
impl<H, F, G> VecSrc<H, F, G> {
    pub fn new(m: &Rc<VecModel<H>>, fresh: F, conv: G) -> Self {
        VecSrc { m: m.clone(), fresh, conv, _d: DropMark::new(&m.ctl) }
    }
}
impl<H, F, G> Unpin for VecSrc<H, F, G> {}
impl<H, T, F, G> SignalVec for VecSrc<H, F, G>
where
    H: Clone,
    F: FnMut() -> H,
    G: FnMut(&H) -> T,
{
    type Item = T;
    fn poll_vec_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<VecDiff<T>>> {
        let s = &mut *self;
        match s.m.ctl.step(cx) {
            Act::Pend => Poll::Pending,
            Act::End => Poll::Ready(None),
            Act::Item => {
                let mut model = s.m.model.borrow_mut();
                let d = if s.m.started.get() {
                    any_diff(s.m.mask, model.len(), s.m.max_len, s.m.max_rep, &mut s.fresh)
                } else {
                    s.m.started.set(true);
                    let n = pick(if param(11) == 1 { s.m.init } else { 0 }, s.m.init);
                    VecDiff::Replace { values: (0..n).map(|_| (s.fresh)()).collect() }
                };
                let a = match &d {
                    VecDiff::Replace { values } => values.len(),
                    VecDiff::InsertAt { .. } | VecDiff::UpdateAt { .. } | VecDiff::Push { .. } => 1,
                    _ => 0,
                };
                s.m.arrived.set(s.m.arrived.get() + a);
                s.m.changes.set(s.m.changes.get() + 1);
                if let VecDiff::UpdateAt { index, .. } = &d {
                    s.m.updated.borrow_mut().push(model[*index].clone());
                }
                replay(&mut model, clone_diff(&d));
                drop(model);
                let conv = &mut s.conv;
                Poll::Ready(Some(map_diff(d, |h| conv(&h))))
            }
        }
    }
}
/// plain source of arbitrary u32 elements
pub fn u32_src(m: &Rc<VecModel<u32>>) -> impl SignalVec<Item = u32> + Unpin {
    VecSrc::new(m, any_u32, |x: &u32| *x)
}

/// A Signal whose values are arbitrary.
pub struct SigModel<T> {
    pub ctl: Rc<Ctl>,
    pub cur: RefCell<Option<T>>,
    /// every value so far
    pub log: RefCell<Vec<T>>,
    /// the first poll is always answered with a value
    pub prompt: bool,
}
impl<T> SigModel<T> {
    /// up to `k` values after the first one
    pub fn new(k: usize, pends: usize, may_end: bool) -> Rc<SigModel<T>> {
        Rc::new(SigModel { ctl: Ctl::new(k + 1, pends, may_end), cur: RefCell::new(None), log: RefCell::new(vec![]), prompt: true })
    }
    /// a signal that belongs to an element of another input
    pub fn inner(k: usize, pends: usize) -> Rc<SigModel<T>> {
        Rc::new(SigModel { ctl: Ctl::inner(1, k, pends), cur: RefCell::new(None), log: RefCell::new(vec![]), prompt: true })
    }
    pub fn lax(k: usize, pends: usize, may_end: bool) -> Rc<SigModel<T>> {
        Rc::new(SigModel { ctl: Ctl::new(k + 1, pends, may_end), cur: RefCell::new(None), log: RefCell::new(vec![]), prompt: false })
    }
    pub fn get(&self) -> Option<T>
    where
        T: Clone,
    {
        self.cur.borrow().clone()
    }
}
pub struct SigSrc<H, F, G> {
    pub m: Rc<SigModel<H>>,
    pub fresh: F,
    pub conv: G,
    _d: DropMark,
}
impl<H: Clone, F, G> SigSrc<H, F, G> {
    pub fn new(m: &Rc<SigModel<H>>, fresh: F, conv: G) -> Self {
        SigSrc { m: m.clone(), fresh, conv, _d: DropMark::new(&m.ctl) }
    }
    fn next<T>(&mut self, cx: &mut Context) -> Poll<Option<T>>
    where
        F: FnMut() -> H,
        G: FnMut(&H) -> T,
    {
        let first = self.m.prompt && self.m.ctl.polls.get() == 0;
        let act = if first {
            self.m.ctl.polls.set(1);
            self.m.ctl.take_item();
            self.m.ctl.last.set(Last::Item);
            Act::Item
        } else {
            self.m.ctl.step(cx)
        };
        match act {
            Act::Pend => Poll::Pending,
            Act::End => Poll::Ready(None),
            Act::Item => {
                let h = (self.fresh)();
                let t = (self.conv)(&h);
                self.m.log.borrow_mut().push(h.clone());
                *self.m.cur.borrow_mut() = Some(h);
                Poll::Ready(Some(t))
            }
        }
    }
}
impl<H, F, G> Unpin for SigSrc<H, F, G> {}
impl<H: Clone, T, F, G> Signal for SigSrc<H, F, G>
where
    F: FnMut() -> H,
    G: FnMut(&H) -> T,
{
    type Item = T;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<T>> {
        self.next(cx)
    }
}
impl<H: Clone, T, F, G> Stream for SigSrc<H, F, G>
where
    F: FnMut() -> H,
    G: FnMut(&H) -> T,
{
    type Item = T;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<T>> {
        self.next(cx)
    }
}
pub fn u32_sig(m: &Rc<SigModel<u32>>) -> SigSrc<u32, fn() -> u32, fn(&u32) -> u32> {
    SigSrc::new(m, any_u32, |x: &u32| *x)
}
pub fn u8_sig(m: &Rc<SigModel<u8>>) -> SigSrc<u8, fn() -> u8, fn(&u8) -> u8> {
    SigSrc::new(m, any_u8, |x: &u8| *x)
}
pub fn bool_sig(m: &Rc<SigModel<bool>>) -> SigSrc<bool, fn() -> bool, fn(&bool) -> bool> {
    SigSrc::new(m, any_bool, |x: &bool| *x)
}

/// A Future that completes with an arbitrary value after an arbitrary number (up to a bound) of Pendings,
/// or stays pending for ever.
pub struct FutModel {
    pub ctl: Rc<Ctl>,
    pub out: Cell<u32>,
}
impl FutModel {
    pub fn new(pends: usize) -> Rc<FutModel> {
        Rc::new(FutModel { ctl: Ctl::new(0, pends, true), out: Cell::new(0) })
    }
    pub fn done(&self) -> bool {
        self.ctl.ended()
    }
}
pub struct FutSrc {
    pub m: Rc<FutModel>,
    _d: DropMark,
}
impl FutSrc {
    pub fn new(m: &Rc<FutModel>) -> FutSrc {
        FutSrc { m: m.clone(), _d: DropMark::new(&m.ctl) }
    }
}
impl Future for FutSrc {
    type Output = u32;
    fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<u32> {
        let again = self.m.ctl.ended();
        match self.m.ctl.step(cx) {
            Act::Pend => Poll::Pending,
            _ if again => Poll::Ready(self.m.out.get()),
            _ => {
                let v = any_u32();
                self.m.out.set(v);
                Poll::Ready(v)
            }
        }
    }
}

/// Reference meaning of a MapDiff.
pub fn replay_map<K: Ord, V>(m: &mut BTreeMap<K, V>, d: MapDiff<K, V>) {
    match d {
        MapDiff::Replace { entries } => {
            m.clear();
            for (k, v) in entries {
                check(m.insert(k, v).is_none(), "range: Replace repeats a key");
            }
        }
        MapDiff::Insert { key, value } => check(m.insert(key, value).is_none(), "range: Insert of a present key"),
        MapDiff::Update { key, value } => check(m.insert(key, value).is_some(), "range: Update of an absent key"),
        MapDiff::Remove { key } => check(m.remove(&key).is_some(), "range: Remove of an absent key"),
        MapDiff::Clear {} => m.clear(),
    }
}

/// A SignalMap with symbolic keys whose changes are arbitrary; at most `max_len` keys at once.
pub struct MapModel<H> {
    pub ctl: Rc<Ctl>,
    pub model: RefCell<BTreeMap<u8, H>>,
    pub max_len: usize,
    pub arrived: Cell<usize>,
    pub changes: Cell<usize>,
}
impl<H> MapModel<H> {
    pub fn new(k: usize, pends: usize, may_end: bool) -> Rc<MapModel<H>> {
        Rc::new(MapModel {
            ctl: Ctl::new(k, pends, may_end),
            model: RefCell::new(BTreeMap::new()),
            max_len: 3,
            arrived: Cell::new(0),
            changes: Cell::new(0),
        })
    }
    fn absent(&self) -> u8 {
        let k = any_u8();
        for x in self.model.borrow().keys() {
            assume(*x != k);
        }
        k
    }
    /// an arbitrary present key
    fn present(&self) -> u8 {
        let m = self.model.borrow();
        let i = pick(0, m.len() - 1);
        *m.keys().nth(i).unwrap()
    }
}
pub struct MapSrc<H, F, G> {
    pub m: Rc<MapModel<H>>,
    pub fresh: F,
    pub conv: G,
    _d: DropMark,
}
impl<H, F, G> MapSrc<H, F, G> {
    pub fn new(m: &Rc<MapModel<H>>, fresh: F, conv: G) -> Self {
        MapSrc { m: m.clone(), fresh, conv, _d: DropMark::new(&m.ctl) }
    }
}
impl<H, F, G> Unpin for MapSrc<H, F, G> {}
impl<H, T, F, G> SignalMap for MapSrc<H, F, G>
where
    H: Clone,
    F: FnMut() -> H,
    G: FnMut(&H) -> T,
{
    type Key = u8;
    type Value = T;
    fn poll_map_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<MapDiff<u8, T>>> {
        let s = &mut *self;
        match s.m.ctl.step(cx) {
            Act::Pend => Poll::Pending,
            Act::End => Poll::Ready(None),
            Act::Item => {
                let m = s.m.clone();
                m.changes.set(m.changes.get() + 1);
                let mut fresh = || {
                    m.arrived.set(m.arrived.get() + 1);
                    (s.fresh)()
                };
                let n = m.model.borrow().len();
                let (ins, upd) = (n < m.max_len, n > 0);
                // choices: replace, clear, insert, update, remove
                let mut kinds = [0u8; 5];
                let mut c = 0;
                for (k, ok) in [(0, true), (1, true), (2, ins), (3, upd), (4, upd)] {
                    if ok {
                        kinds[c] = k;
                        c += 1;
                    }
                }
                let d = match kinds[pick(0, c - 1)] {
                    0 => {
                        // entries in key order
                        let n = pick(0, 2);
                        let mut entries: Vec<(u8, H)> = vec![];
                        for _ in 0..n {
                            let k = any_u8();
                            if let Some(l) = entries.last() {
                                assume(l.0 < k);
                            }
                            entries.push((k, fresh()));
                        }
                        let mut model = m.model.borrow_mut();
                        model.clear();
                        for (k, v) in entries.iter() {
                            model.insert(*k, v.clone());
                        }
                        MapDiff::Replace { entries }
                    }
                    1 => {
                        m.model.borrow_mut().clear();
                        MapDiff::Clear {}
                    }
                    2 => {
                        let key = m.absent();
                        let value = fresh();
                        m.model.borrow_mut().insert(key, value.clone());
                        MapDiff::Insert { key, value }
                    }
                    3 => {
                        let key = m.present();
                        let value = fresh();
                        m.model.borrow_mut().insert(key, value.clone());
                        MapDiff::Update { key, value }
                    }
                    _ => {
                        let key = m.present();
                        m.model.borrow_mut().remove(&key);
                        MapDiff::Remove { key }
                    }
                };
                let conv = &mut s.conv;
                Poll::Ready(Some(match d {
                    MapDiff::Replace { entries } => MapDiff::Replace { entries: entries.into_iter().map(|(k, v)| (k, conv(&v))).collect() },
                    MapDiff::Insert { key, value } => MapDiff::Insert { key, value: conv(&value) },
                    MapDiff::Update { key, value } => MapDiff::Update { key, value: conv(&value) },
                    MapDiff::Remove { key } => MapDiff::Remove { key },
                    MapDiff::Clear {} => MapDiff::Clear {},
                }))
            }
        }
    }
}

// ------------------------------------------------------------------ drivers
fn guard(n: &mut usize) {
    *n += 1;
    if *n > 64 {
        fail("stall: the consumer makes no progress");
    }
}
/// Poll a SignalVec until nothing more can come; `settled` compares at every Pending and at the end.
pub fn drive_vec<S: SignalVec + ?Sized>(
    s: &mut Pin<Box<S>>,
    out: &mut Vec<S::Item>,
    mut ctls: impl FnMut(&mut dyn FnMut(&Ctl)),
    mut settled: impl FnMut(&mut Vec<S::Item>, bool),
) -> bool {
    let mut n = 0;
    loop {
        guard(&mut n);
        match poll_with(|cx| s.as_mut().poll_vec_change(cx)) {
            Poll::Ready(Some(d)) => replay(out, d),
            Poll::Ready(None) => {
                settled(out, true);
                return true;
            }
            Poll::Pending if woken() => {} // it asked to be polled again
            Poll::Pending => {
                let mut quiet = true;
                ctls(&mut |c| {
                    c.check_registered();
                    quiet &= c.quiet();
                });
                settled(out, false);
                next_round();
                if quiet && !woken() {
                    return false;
                }
            }
        }
    }
}
pub fn drive_sig<S: Signal + ?Sized>(
    s: &mut Pin<Box<S>>,
    mut on_value: impl FnMut(S::Item),
    mut ctls: impl FnMut(&mut dyn FnMut(&Ctl)),
    mut settled: impl FnMut(bool),
) -> bool {
    let mut n = 0;
    loop {
        guard(&mut n);
        match poll_with(|cx| s.as_mut().poll_change(cx)) {
            Poll::Ready(Some(d)) => on_value(d),
            Poll::Ready(None) => {
                settled(true);
                return true;
            }
            Poll::Pending if woken() => {} // it asked to be polled again
            Poll::Pending => {
                let mut quiet = true;
                ctls(&mut |c| {
                    c.check_registered();
                    quiet &= c.quiet();
                });
                settled(false);
                next_round();
                if quiet && !woken() {
                    return false;
                }
            }
        }
    }
}
/// Poll anything: `step` polls once and says whether that was the end (None: poll again at once).
pub fn drive(
    mut step: impl FnMut(&mut Context) -> Poll<Option<()>>,
    mut ctls: impl FnMut(&mut dyn FnMut(&Ctl)),
    mut settled: impl FnMut(bool),
) -> bool {
    let mut n = 0;
    loop {
        guard(&mut n);
        match poll_with(|cx| step(cx)) {
            Poll::Ready(Some(())) => {}
            Poll::Ready(None) => {
                settled(true);
                return true;
            }
            Poll::Pending if woken() => {} // it asked to be polled again
            Poll::Pending => {
                let mut quiet = true;
                ctls(&mut |c| {
                    c.check_registered();
                    quiet &= c.quiet();
                });
                settled(false);
                next_round();
                if quiet && !woken() {
                    return false;
                }
            }
        }
    }
}
pub fn drive_map<K: Ord, V, S: SignalMap<Key = K, Value = V> + ?Sized>(
    s: &mut Pin<Box<S>>,
    out: &mut BTreeMap<K, V>,
    mut ctls: impl FnMut(&mut dyn FnMut(&Ctl)),
    mut settled: impl FnMut(&mut BTreeMap<K, V>, bool),
) -> bool {
    let mut n = 0;
    loop {
        guard(&mut n);
        match poll_with(|cx| s.as_mut().poll_map_change(cx)) {
            Poll::Ready(Some(d)) => replay_map(out, d),
            Poll::Ready(None) => {
                settled(out, true);
                return true;
            }
            Poll::Pending if woken() => {} // it asked to be polled again
            Poll::Pending => {
                let mut quiet = true;
                ctls(&mut |c| {
                    c.check_registered();
                    quiet &= c.quiet();
                });
                settled(out, false);
                next_round();
                if quiet && !woken() {
                    return false;
                }
            }
        }
    }
}
/// Leak check: everything the body allocated is released when it returns.
pub fn no_leak(f: impl FnOnce()) {
    let a = live();
    f();
    check(live() == a, "leak: memory is still allocated after everything was dropped");
}
