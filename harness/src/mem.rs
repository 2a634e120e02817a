//! C28: values on the heap, reference-counted wakers, handles dropped on any thread.  C29: containers edited by
//! several threads.
use crate::conc::{thread, Task, P};
use crate::rt::*;
use crate::vsrc::{no_leak, replay, replay_map};
use futures_signals::signal::*;
use futures_signals::signal_map::*;
use futures_signals::signal_vec::*;
use futures_signals::cancelable_future;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::Relaxed)
    }
}
/// A task whose wakers live on the heap; every poll has a new one.
struct HTask {
    flag: Option<Arc<Flag>>,
    ended: bool,
    values: Vec<u32>,
    polls: usize,
}
impl HTask {
    fn new() -> HTask {
        HTask { flag: None, ended: false, values: vec![], polls: 0 }
    }
    fn step(&mut self, f: impl FnOnce(&mut Context) -> Poll<Option<u32>>) -> bool {
        if self.ended || self.flag.as_ref().map_or(false, |f| !f.0.load(Ordering::Relaxed)) {
            return false;
        }
        self.polls += 1;
        check(self.polls < 32, "stall: the task is woken for ever");
        let flag = Arc::new(Flag(AtomicBool::new(false)));
        let w = Waker::from(flag.clone());
        match f(&mut Context::from_waker(&w)) {
            Poll::Pending => self.flag = Some(flag),
            Poll::Ready(Some(v)) => {
                self.values.push(v);
                self.flag = None
            }
            Poll::Ready(None) => self.ended = true,
        }
        true
    }
    fn poll_sig<S: Signal + Unpin>(&mut self, s: &mut S) -> bool
    where
        S::Item: Get,
    {
        self.step(|cx| Pin::new(s).poll_change(cx).map(|v| v.map(|v| v.get())))
    }
}
trait Get {
    fn get(&self) -> u32;
}
impl Get for u32 {
    fn get(&self) -> u32 {
        *self
    }
}
impl Get for Box<u32> {
    fn get(&self) -> u32 {
        **self
    }
}
fn fresh() -> Box<u32> {
    Box::new(any_u32())
}
/// Writers, a polling thread that then drops its signal, and a handle dropped elsewhere.
/// params: writes, polls, 0 signal_cloned / 1 signal_ref, 1: the signal is dropped by its thread, 1: another handle
/// is dropped by a third thread, kind of write
#[no_mangle]
pub extern "C" fn h_mem_mutable() {
    no_leak(|| {
        let first = fresh();
        let mut last = *first;
        let m = Mutable::new(first);
        let ro = m.read_only();
        if param(4) == 1 {
            let c = m.clone();
            thread(move || drop(c));
        }
        let mut done: Option<(HTask, Box<dyn FnMut(&mut HTask) -> bool>)> = None;
        let p = P::new(&mut done);
        let mut go: Box<dyn FnMut(&mut HTask) -> bool> = if param(2) == 0 {
            let mut s = m.signal_cloned();
            Box::new(move |t| t.poll_sig(&mut s))
        } else {
            let mut s = m.signal_ref(|x| **x);
            Box::new(move |t| t.poll_sig(&mut s))
        };
        let l = P::new(&mut last);
        thread(move || {
            for _ in 0..param(0) {
                let v = fresh();
                *l.get() = *v;
                match param(5) {
                    0 => m.set(v),
                    1 => drop(m.replace(v)),
                    2 => drop(m.replace_with(|x| {
                        **x = 1;
                        v
                    })),
                    _ => *m.lock_mut() = v,
                }
            }
            drop(m);
        });
        thread(move || {
            let mut t = HTask::new();
            for _ in 0..param(1) {
                if !go(&mut t) {
                    break;
                }
            }
            if param(3) == 0 {
                *p.get() = Some((t, go));
            }
        });
        join_all();
        if let Some((t, go)) = done.as_mut() {
            while go(t) {}
            check(t.ended && t.values.last() == Some(&last), "Mutable: the final value or the end is missed");
        }
        check(**ro.lock_ref() == last, "Mutable: the last value is lost");
        drop(done);
        drop(ro);
        cover("end");
    })
}
/// params: operations of sender 1, of sender 2, polls, 1: the receiver is dropped by its thread
#[no_mangle]
pub extern "C" fn h_mem_channel() {
    no_leak(|| {
        let (tx, rx) = channel(fresh());
        for t in 0..2 {
            if param(t) > 0 {
                let tx = tx.clone();
                thread(move || {
                    let mut txs = vec![tx];
                    for _ in 0..param(t) {
                        let n = txs.len();
                        match pick(0, if n == 0 { 0 } else { 3 }) {
                            _ if n == 0 => {}
                            0 => drop(txs[n - 1].send(fresh())),
                            1 => txs[n - 1].close(),
                            2 => drop(txs.pop()),
                            _ => {
                                let c = txs[n - 1].clone();
                                txs.push(c);
                            }
                        }
                    }
                });
            }
        }
        drop(tx);
        let mut kept = None;
        let p = P::new(&mut kept);
        thread(move || {
            let mut rx = rx;
            let mut t = HTask::new();
            for _ in 0..param(2) {
                if !t.poll_sig(&mut rx) {
                    break;
                }
            }
            if param(3) == 0 {
                *p.get() = Some((t, rx));
            }
        });
        join_all();
        if let Some((t, rx)) = kept.as_mut() {
            while t.poll_sig(rx) {}
            check(t.ended, "channel: the receiver does not end when all senders are gone");
        }
        drop(kept);
        cover("end");
    })
}
/// params: writes, polls of each thread, 1: the first signal is dropped by its thread, 1: the second one is created
/// by its thread
#[no_mangle]
pub extern "C" fn h_mem_broadcast() {
    no_leak(|| {
        let first = fresh();
        let mut last = *first;
        let m = Mutable::new(first);
        let b = m.signal_cloned().broadcast();
        let l = P::new(&mut last);
        thread(move || {
            for _ in 0..param(0) {
                let v = fresh();
                *l.get() = *v;
                m.set(v);
            }
            drop(m);
        });
        let mut kept: Vec<(HTask, Box<dyn FnMut(&mut HTask) -> bool>)> = vec![];
        let mut slots = [None, None];
        for k in 0..2 {
            let p = P::new(&mut slots[k]);
            let b2 = b.clone();
            let early = if k == 1 && param(3) == 1 { None } else { Some(b.signal_ref(|x| **x)) };
            thread(move || {
                let mut go: Box<dyn FnMut(&mut HTask) -> bool> = match early {
                    Some(mut s) => {
                        drop(b2);
                        Box::new(move |t| t.poll_sig(&mut s))
                    }
                    None => {
                        let mut s = Box::pin(b2.signal_cloned());
                        Box::new(move |t| t.poll_sig(&mut s))
                    }
                };
                let mut t = HTask::new();
                for _ in 0..param(1) {
                    if !go(&mut t) {
                        break;
                    }
                }
                if k == 1 || param(2) == 0 {
                    *p.get() = Some((t, go));
                }
            });
        }
        drop(b);
        join_all();
        for s in slots {
            kept.extend(s);
        }
        let mut again = true;
        while again {
            again = false;
            for (t, go) in kept.iter_mut() {
                again |= go(t);
            }
        }
        for (t, _) in kept.iter() {
            check(t.ended && t.values.last() == Some(&last), "Broadcaster: the final value or the end is missed");
        }
        drop(kept);
        cover("end");
    })
}
/// A cancelable future over a signal, cancelled while the signal's source changes and ends on another thread.
/// params: writes, polls
#[no_mangle]
pub extern "C" fn h_mem_cancel() {
    no_leak(|| {
        let m = Mutable::new(fresh());
        let calls = Arc::new(AtomicBool::new(false));
        let c2 = calls.clone();
        let (handle, fut) = cancelable_future(m.signal_cloned().to_future(), move || {
            check(!c2.swap(true, Ordering::Relaxed), "cancelable_future: the callback is called twice");
            fresh()
        });
        thread(move || {
            for _ in 0..param(0) {
                m.set(fresh());
            }
            drop(m);
        });
        thread(move || drop(handle));
        let mut kept = None;
        let p = P::new(&mut kept);
        let poll = |t: &mut HTask, f: &mut Pin<Box<dyn Future<Output = Box<u32>>>>| {
            if t.values.len() > 0 {
                return false;
            }
            t.step(|cx| f.as_mut().poll(cx).map(|v| Some(*v)))
        };
        thread(move || {
            let mut t = HTask::new();
            let mut f: Pin<Box<dyn Future<Output = Box<u32>>>> = Box::pin(fut);
            for _ in 0..param(1) {
                if !poll(&mut t, &mut f) {
                    break;
                }
            }
            *p.get() = Some((t, f));
        });
        join_all();
        let (mut t, mut f) = kept.unwrap();
        while poll(&mut t, &mut f) {}
        check(t.values.len() == 1, "cancelable_future: does not complete");
        drop(t);
        drop(f);
        drop(calls);
        cover("end");
    })
}

// ------------------------------------------------------------------ C29
struct VSub {
    s: MutableSignalVec<u32>,
    t: Task<()>,
    out: Vec<u32>,
}
impl VSub {
    fn new(s: MutableSignalVec<u32>) -> VSub {
        VSub { s, t: Task::new(), out: vec![] }
    }
    fn step(&mut self) -> bool {
        let (s, out) = (&mut self.s, &mut self.out);
        self.t.step(|cx| Pin::new(s).poll_vec_change(cx).map(|d| d.map(|d| replay(out, d))))
    }
}
/// the kind of the i-th edit: a rotation, or any (8)
fn kind(mode: usize, i: usize) -> usize {
    if mode < 8 {
        (mode + i) % 4
    } else {
        pick(0, 3)
    }
}
fn edit(m: &MutableVec<u32>, k: usize, mode: usize) {
    for i in 0..k {
        let mut l = m.lock_mut();
        let n = l.len();
        match kind(mode, i) {
            0 => l.push(any_u32()),
            1 if n > 0 => drop(l.remove(0)),
            2 => l.insert(0, any_u32()),
            3 => l.truncate(1),
            _ => drop(l.pop()),
        }
    }
}
/// params: edits of thread 1, edits of thread 2, polls, 1: the signal is created by the polling thread, mode (8: any edits), 1: a
/// handle is kept by main, 1: another signal is created, polled once and dropped meanwhile
#[no_mangle]
pub extern "C" fn h_vec_conc() {
    no_leak(|| {
        let m = MutableVec::new_with_values(vec![any_u32()]);
        let mut sub = None;
        if param(3) == 0 {
            sub = Some(VSub::new(m.signal_vec()));
        }
        let mut fin: [Vec<u32>; 3] = [vec![], vec![], vec![]];
        let look = P::new(&mut fin);
        let p = P::new(&mut sub);
        let mut spare = None;
        let q = P::new(&mut spare);
        let c = m.clone();
        let keep = m.clone();
        for t in 0..2 {
            if param(t) > 0 {
                let m = m.clone();
                thread(move || {
                    edit(&m, param(t), if param(4) < 8 { param(4) + t as usize } else { 8 });
                    look.get()[t as usize] = m.lock_ref().to_vec();
                    drop(m);
                });
            }
        }
        drop(m);
        thread(move || {
            let s = p.get();
            if s.is_none() {
                *s = Some(VSub::new(c.signal_vec()));
            }
            // another subscriber comes and goes
            let mut other = if param(6) == 1 { Some(VSub::new(c.signal_vec())) } else { None };
            drop(c);
            if let Some(mut o) = other.take() {
                o.step();
                drop(o.s);
                *q.get() = Some(o.t);
            }
            for _ in 0..param(2) {
                if !s.as_mut().unwrap().step() {
                    break;
                }
            }
        });
        // the last handle is dropped by main after the threads, or by whichever thread is the last
        let mut want = None;
        if param(5) == 0 {
            drop(keep);
            join_all();
        } else {
            join_all();
            want = Some(keep.lock_ref().to_vec());
            let s = sub.as_mut().unwrap();
            while s.step() {}
            check(!s.t.ended, "MutableVec: a signal ends although a handle is alive");
            crate::vecs::same(&s.out, want.as_ref().unwrap(), "MutableVec: the changes do not rebuild the contents");
            drop(keep);
        }
        let mut s = sub.unwrap();
        while s.step() {}
        check(s.t.ended, "MutableVec: a signal does not end with the last handle");
        match want {
            Some(w) => crate::vecs::same(&s.out, &w, "MutableVec: the changes do not rebuild the final contents"),
            // the thread that edited last saw the final contents
            None => {
                let mut ok = false;
                for f in fin.iter() {
                    if f.len() == s.out.len() {
                        let mut eq = true;
                        for i in 0..f.len() {
                            eq &= f[i] == s.out[i];
                        }
                        ok |= eq;
                    }
                }
                check(ok, "MutableVec: the changes do not rebuild the final contents");
            }
        }
        cover("end");
    })
}
enum MSig {
    Map(MutableSignalMap<u8, u32>, BTreeMap<u8, u32>),
    Keys(MutableBTreeMapKeys<u8, u32>, Vec<u8>),
    Entries(MutableBTreeMapEntries<u8, u32>, Vec<(u8, u32)>),
}
struct MSub {
    s: MSig,
    t: Task<()>,
}
impl MSub {
    fn new(m: &MutableBTreeMap<u8, u32>) -> MSub {
        let s = match param(5) {
            0 => MSig::Map(m.signal_map(), BTreeMap::new()),
            1 => MSig::Keys(m.signal_vec_keys(), vec![]),
            _ => MSig::Entries(m.signal_vec_entries(), vec![]),
        };
        MSub { s, t: Task::new() }
    }
    fn step(&mut self) -> bool {
        let s = &mut self.s;
        self.t.step(|cx| match s {
            MSig::Map(s, out) => Pin::new(s).poll_map_change(cx).map(|d| d.map(|d| replay_map(out, d))),
            MSig::Keys(s, out) => Pin::new(s).poll_vec_change(cx).map(|d| d.map(|d| replay(out, d))),
            MSig::Entries(s, out) => Pin::new(s).poll_vec_change(cx).map(|d| d.map(|d| replay(out, d))),
        })
    }
    fn shows(&self, want: &[(u8, u32)]) -> bool {
        match &self.s {
            MSig::Map(_, out) => {
                let mut ok = out.len() == want.len();
                for (k, v) in want.iter() {
                    ok &= out.get(k) == Some(v);
                }
                ok
            }
            MSig::Keys(_, out) => {
                let mut ok = out.len() == want.len();
                for (x, y) in out.iter().zip(want) {
                    ok &= *x == y.0;
                }
                ok
            }
            MSig::Entries(_, out) => {
                let mut ok = out.len() == want.len();
                for (x, y) in out.iter().zip(want) {
                    ok &= x.0 == y.0 && x.1 == y.1;
                }
                ok
            }
        }
    }
}
/// params: edits of thread 1, edits of thread 2, polls, 1: the signal is created by the polling thread, mode (8: any edits),
/// 0: signal_map, 1: keys, 2: entries, 1: another signal is created, polled once and dropped meanwhile
#[no_mangle]
pub extern "C" fn h_map_conc() {
    no_leak(|| {
        let m = MutableBTreeMap::with_values(BTreeMap::from([(1u8, any_u32())]));
        let mut sub = None;
        if param(3) == 0 {
            sub = Some(MSub::new(&m));
        }
        let p = P::new(&mut sub);
        let mut spare = None;
        let q = P::new(&mut spare);
        let c = m.clone();
        for t in 0..2 {
            if param(t) > 0 {
                let m = m.clone();
                thread(move || {
                    for i in 0..param(t) {
                        let mut l = m.lock_mut();
                        match kind(if param(4) < 8 { param(4) + t as usize } else { 8 }, i) {
                            0 => drop(l.insert(1, any_u32())),
                            1 => drop(l.insert(2, any_u32())),
                            2 => drop(l.remove(&1)),
                            _ => l.clear(),
                        }
                    }
                    drop(m);
                });
            }
        }
        thread(move || {
            let s = p.get();
            if s.is_none() {
                *s = Some(MSub::new(&c));
            }
            // another subscriber comes and goes
            let mut other = if param(6) == 1 { Some(MSub::new(&c)) } else { None };
            drop(c);
            if let Some(mut o) = other.take() {
                o.step();
                drop(o.s);
                *q.get() = Some(o.t);
            }
            for _ in 0..param(2) {
                if !s.as_mut().unwrap().step() {
                    break;
                }
            }
        });
        join_all();
        let want: Vec<(u8, u32)> = m.lock_ref().iter().map(|(k, v)| (*k, *v)).collect();
        let mut s = sub.unwrap();
        while s.step() {}
        check(!s.t.ended, "MutableBTreeMap: a signal ends although a handle is alive");
        check(s.shows(&want), "MutableBTreeMap: the changes do not rebuild the final contents");
        drop(m);
        while s.step() {}
        check(s.t.ended, "MutableBTreeMap: a signal does not end with the last handle");
        cover("end");
    })
}

// ------------------------------------------------------------------ C33
fn plain(x: &u32) -> u32 {
    *x
}
/// A subscriber: it is polled (or not) and then dropped.
fn visit(poll: bool, mut f: impl FnMut(&mut Context) -> bool) {
    if poll {
        poll_with(|cx| f(cx));
    }
}
/// Subscribers come and go; after the next change nothing of them remains allocated.
/// params: 0 Mutable, 1 MutableVec, 2 MutableBTreeMap, 3 Broadcaster; rounds; subscribers per round at most;
/// 1: another subscriber stays
#[no_mangle]
pub extern "C" fn h_forget() {
    no_leak(|| {
        let (kind, rounds, most, stay) = (param(0), param(1), param(2), param(3) == 1);
        let mut base: Option<usize> = None;
        let mut settled = |first: bool| {
            let l = live();
            match base {
                Some(b) if !first => check(l <= b, "forget: something of a dropped subscriber remains after the next change"),
                _ => base = Some(l),
            }
        };
        let subs = |r: usize| if r == 0 { most } else { pick(1, most) };
        let polled = |r: usize| r == 0 || flip();
        match kind {
            0 => {
                let m = Mutable::new(any_u32());
                let mut keep = if stay { Some(m.signal()) } else { None };
                for r in 0..rounds {
                    let mut v = vec![];
                    for _ in 0..subs(r) {
                        let (p, k) = (polled(r), if r == 0 { 0 } else { pick(0, 2) });
                        let mut s = match k {
                            0 => m.signal().boxed_local(),
                            1 => m.signal_cloned().boxed_local(),
                            _ => m.read_only().signal_ref(plain).boxed_local(),
                        };
                        visit(p, |cx| s.as_mut().poll_change(cx).is_ready());
                        v.push(s);
                    }
                    drop(v);
                    match if r == 0 { 0 } else { pick(0, 2) } {
                        0 => m.set(any_u32()),
                        1 => drop(m.replace(any_u32())),
                        _ => *m.lock_mut() = any_u32(),
                    }
                    if let Some(s) = &mut keep {
                        check(poll_with(|cx| Pin::new(s).poll_change(cx)).is_ready(), "forget: the remaining subscriber misses the change");
                    }
                    settled(r == 0);
                }
            }
            1 => {
                let m = MutableVec::new_with_values(vec![any_u32(), any_u32()]);
                let mut keep = if stay { Some(m.signal_vec()) } else { None };
                for r in 0..rounds {
                    let mut v = vec![];
                    for _ in 0..subs(r) {
                        let p = polled(r);
                        let mut s = m.signal_vec();
                        visit(p, |cx| Pin::new(&mut s).poll_vec_change(cx).is_ready());
                        v.push(s);
                    }
                    if r > 0 && flip() {
                        m.lock_mut().set(1, any_u32());
                    }
                    drop(v);
                    let mut l = m.lock_mut();
                    match if r == 0 { 0 } else { pick(0, 2) } {
                        0 => l.set(0, any_u32()),
                        1 => l.move_from_to(0, 1),
                        _ => l.swap(0, 1),
                    }
                    drop(l);
                    if let Some(s) = &mut keep {
                        let mut n = 0;
                        while poll_with(|cx| Pin::new(&mut *s).poll_vec_change(cx)).is_ready() {
                            n += 1;
                        }
                        check(n > 0, "forget: the remaining subscriber misses the change");
                    }
                    settled(r == 0);
                }
            }
            2 => {
                let m = MutableBTreeMap::new();
                m.lock_mut().insert(1u8, any_u32());
                let mut keep = if stay { Some(m.signal_map()) } else { None };
                for r in 0..rounds {
                    let mut v = vec![];
                    for _ in 0..subs(r) {
                        let (p, k) = (polled(r), if r == 0 { 0 } else { pick(0, 2) });
                        let mut s = match k {
                            0 => (Some(m.signal_map()), None, None),
                            1 => (None, Some(m.signal_vec_keys()), None),
                            _ => (None, None, Some(m.signal_vec_entries())),
                        };
                        visit(p, |cx| match &mut s {
                            (Some(s), _, _) => Pin::new(s).poll_map_change(cx).is_ready(),
                            (_, Some(s), _) => Pin::new(s).poll_vec_change(cx).is_ready(),
                            (_, _, Some(s)) => Pin::new(s).poll_vec_change(cx).is_ready(),
                            _ => unreachable!(),
                        });
                        v.push(s);
                    }
                    drop(v);
                    m.lock_mut().insert(1, any_u32());
                    if let Some(s) = &mut keep {
                        let mut n = 0;
                        while poll_with(|cx| Pin::new(&mut *s).poll_map_change(cx)).is_ready() {
                            n += 1;
                        }
                        check(n > 0, "forget: the remaining subscriber misses the change");
                    }
                    settled(r == 0);
                }
            }
            _ => {
                let m = Mutable::new(any_u32());
                let b = Broadcaster::new(m.signal());
                let mut keep = if stay { Some(b.signal()) } else { None };
                if let Some(s) = &mut keep {
                    while poll_with(|cx| Pin::new(&mut *s).poll_change(cx)).is_ready() {}
                }
                for r in 0..rounds {
                    let mut v = vec![];
                    for _ in 0..subs(r) {
                        let (p, k) = (polled(r), if r == 0 { 0 } else { pick(0, 2) });
                        let mut s = match k {
                            0 => b.signal().boxed_local(),
                            1 => b.signal_cloned().boxed_local(),
                            _ => b.signal_ref(plain).boxed_local(),
                        };
                        visit(p, |cx| s.as_mut().poll_change(cx).is_ready());
                        v.push(s);
                    }
                    // if nobody stays: the source is pending with the broadcaster's waker
                    if !stay {
                        let mut s = b.signal().boxed_local();
                        while poll_with(|cx| s.as_mut().poll_change(cx)).is_ready() {}
                        v.push(s);
                    }
                    drop(v);
                    m.set(any_u32());
                    if let Some(s) = &mut keep {
                        check(poll_with(|cx| Pin::new(&mut *s).poll_change(cx)).is_ready(), "forget: the remaining subscriber misses the change");
                        while poll_with(|cx| Pin::new(&mut *s).poll_change(cx)).is_ready() {}
                    }
                    settled(r == 0);
                }
            }
        }
        cover("end");
    })
}
