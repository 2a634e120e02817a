//! Shared-state code under every interleaving of several threads.
use crate::rt::*;
use crate::vsrc::no_leak;
use futures_signals::signal::*;
use futures_signals::{cancelable_future, CancelableFutureHandle};
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

// ------------------------------------------------------------------ tasks
const POLLS: usize = 64;
static VT: RawWakerVTable = RawWakerVTable::new(
    |d| RawWaker::new(d, &VT),
    |d| wake(d),
    |d| wake(d),
    |_| {},
);
fn wake(d: *const ()) {
    unsafe { (*(d as *const AtomicBool)).store(true, Ordering::Relaxed) }
}
/// A task: it polls something when it is woken, each time with a fresh waker, and keeps a log.
/// Only one thread uses it at a time; the flags are shared with the wakers.
pub struct Task<T> {
    flags: Box<[AtomicBool; POLLS]>,
    n: usize,
    /// the last poll said Pending
    pending: bool,
    pub ended: bool,
    pub log: Vec<T>,
}
impl<T> Task<T> {
    pub fn new() -> Task<T> {
        Task { flags: Box::new([const { AtomicBool::new(false) }; POLLS]), n: 0, pending: false, ended: false, log: vec![] }
    }
    /// the last poll was Pending, and its waker has not been woken
    pub fn asleep(&self) -> bool {
        self.ended || self.pending && !self.flags[self.n - 1].load(Ordering::Relaxed)
    }
    /// poll once unless asleep; returns whether it polled
    pub fn step(&mut self, f: impl FnOnce(&mut Context) -> Poll<Option<T>>) -> bool {
        if self.asleep() {
            return false;
        }
        check(self.n < POLLS, "stall: the task is woken for ever");
        let w = unsafe { Waker::from_raw(RawWaker::new(&self.flags[self.n] as *const AtomicBool as *const (), &VT)) };
        self.n += 1;
        match f(&mut Context::from_waker(&w)) {
            Poll::Ready(Some(v)) => {
                self.pending = false;
                self.log.push(v);
            }
            Poll::Ready(None) => self.ended = true,
            Poll::Pending => self.pending = true,
        }
        true
    }
    pub fn last(&self) -> Option<T>
    where
        T: Copy,
    {
        self.log.last().copied()
    }
}
/// A task that polls a signal, from whichever thread.
pub struct Sub<S: Signal> {
    pub s: S,
    pub t: Task<S::Item>,
}
impl<S: Signal + Unpin> Sub<S> {
    pub fn new(s: S) -> Self {
        Sub { s, t: Task::new() }
    }
    pub fn step(&mut self) -> bool {
        let s = &mut self.s;
        self.t.step(|cx| Pin::new(s).poll_change(cx))
    }
    pub fn run(&mut self, polls: usize) {
        for _ in 0..polls {
            if !self.step() {
                break;
            }
        }
    }
    /// all other threads are done: poll until there is no reason to poll
    pub fn quiesce(&mut self) {
        while self.step() {}
    }
}
/// Run a closure on a new thread; `join_all` waits for it.
pub fn thread<F: FnOnce() + 'static>(f: F) {
    extern "C" fn go<F: FnOnce()>(p: usize) {
        let f = unsafe { Box::from_raw(p as *mut F) };
        f()
    }
    spawn(go::<F>, Box::into_raw(Box::new(f)) as usize)
}
/// A pointer that moves into threads (main waits for them before it goes on).
pub struct P<T>(pub *mut T);
impl<T> Clone for P<T> {
    fn clone(&self) -> Self {
        P(self.0)
    }
}
impl<T> Copy for P<T> {}
impl<T> P<T> {
    pub fn new(x: &mut T) -> P<T> {
        P(x as *mut T)
    }
    pub fn get(&self) -> &'static mut T {
        unsafe { &mut *self.0 }
    }
}

// ------------------------------------------------------------------ C01
/// values carry (thread, number, any payload): a signal must never go back
type Val = (u8, u8, u32);
fn monotone(log: &[Val], what: &str) {
    for i in 1..log.len() {
        for j in 0..i {
            check(log[j].0 != log[i].0 || log[j].1 <= log[i].1, what);
        }
    }
}
/// params: writes of thread 1, writes of thread 2, polls of the polling threads, signals, kind of write
#[no_mangle]
pub extern "C" fn h_mutable_conc() {
    no_leak(|| {
        let m = Mutable::new((0u8, 0u8, any_u32()));
        let n = param(3);
        let mut subs: Vec<Sub<MutableSignal<Val>>> = (0..n).map(|_| Sub::new(m.signal())).collect();
        let mut writes = 0;
        for t in 0..2 {
            let k = param(t);
            if k > 0 {
                writes += k;
                let m = m.clone();
                thread(move || {
                    for i in 0..k {
                        let v = (t as u8, i as u8 + 1, any_u32());
                        match param(4) {
                            0 => m.set(v),
                            1 => drop(m.replace(v)),
                            2 => m.set_neq(v),
                            3 => drop(m.replace_with(|_| v)),
                            4 => *m.lock_mut() = v,
                            _ => m.set_if(v, |_, _| true),
                        }
                    }
                });
            }
        }
        for s in subs.iter_mut() {
            let s = P::new(s);
            thread(move || s.get().run(param(2)));
        }
        join_all();
        let v = m.get();
        for s in subs.iter_mut() {
            s.quiesce();
            check(!s.t.ended, "Mutable: a signal ends although a handle is alive");
            check(s.t.last() == Some(v), "Mutable: the latest value is missed");
            check(s.t.log.len() <= writes + 1, "Mutable: a signal yields without a change");
            monotone(&s.t.log, "Mutable: a signal goes back to an older value");
        }
        drop(m);
        for s in subs.iter_mut() {
            s.quiesce();
            check(s.t.ended && s.t.last() == Some(v), "Mutable: a waiting signal does not end with the last handle");
        }
        cover("end");
    })
}
// ------------------------------------------------------------------ C02
/// params: writes before the drop, polls, other handle (0 none, 1 dropped by another thread, 2 cloned and
/// dropped by another thread, 3 kept by main), signal created 0 before / 1 by the polling thread
#[no_mangle]
pub extern "C" fn h_mutable_drop() {
    no_leak(|| {
        let m = Mutable::new((0u8, 0u8, any_u32()));
        let r = m.read_only();
        let mut sub: Option<Sub<MutableSignal<Val>>> = None;
        if param(3) == 0 {
            sub = Some(Sub::new(r.signal()));
        }
        let mut kept = None;
        match param(2) {
            0 => {}
            1 => {
                let c = m.clone();
                thread(move || drop(c));
            }
            2 => {
                let c = m.clone();
                thread(move || {
                    let d = c.clone();
                    drop(c);
                    d.set((1, 1, any_u32()));
                    drop(d);
                });
            }
            _ => kept = Some(m.clone()),
        }
        thread(move || {
            for i in 0..param(0) {
                m.set((0, i as u8 + 1, any_u32()));
            }
            drop(m);
        });
        let p = P::new(&mut sub);
        let r2 = r.clone();
        thread(move || {
            let s = p.get();
            if s.is_none() {
                *s = Some(Sub::new(r2.signal()));
            }
            s.as_mut().unwrap().run(param(1))
        });
        join_all();
        let mut sub = sub.unwrap();
        sub.quiesce();
        let v = r.get();
        check(sub.t.last() == Some(v), "Mutable: the final value is missed");
        monotone(&sub.t.log, "Mutable: a signal goes back to an older value");
        if let Some(k) = kept {
            check(!sub.t.ended, "Mutable: a signal ends although a handle is alive");
            drop(k);
            sub.quiesce();
        }
        check(sub.t.ended, "Mutable: a signal does not end when the last handle is dropped");
        check(sub.t.last() == Some(v), "Mutable: the final value is missed");
        cover("end");
    })
}
/// two Mutables swapped from two threads, in both directions
#[no_mangle]
pub extern "C" fn h_mutable_swap() {
    no_leak(|| {
        let (va, vb) = ((0u8, 1u8, any_u32()), (1u8, 1u8, any_u32()));
        let a = Mutable::new(va);
        let b = Mutable::new(vb);
        let mut s = Sub::new(a.signal());
        {
            let (a, b) = (a.clone(), b.clone());
            thread(move || a.swap(&b));
        }
        match param(0) {
            0 => {
                let (a, b) = (a.clone(), b.clone());
                thread(move || b.swap(&a));
            }
            1 => {
                let (a, b) = (a.clone(), b.clone());
                thread(move || a.swap(&b));
            }
            _ => {
                let a = a.clone();
                thread(move || a.swap(&a.clone()));
            }
        }
        let p = P::new(&mut s);
        thread(move || p.get().run(param(1)));
        join_all();
        s.quiesce();
        check(s.t.last() == Some(a.get()), "swap: the latest value is missed");
        let (x, y) = (a.get(), b.get());
        let swapped = param(0) == 2;
        check(if swapped { x == vb && y == va } else { x == va && y == vb }, "swap: the values are not exchanged");
        cover("end");
    })
}

// ------------------------------------------------------------------ C03
/// Two threads each make one arbitrary read-modify-write: the outcome is that of one of the two orders.
/// params: polls of a third thread that follows the value (0: none), operation of thread 1 (0: any)
#[no_mangle]
pub extern "C" fn h_mutable_rmw() {
    no_leak(|| {
        #[derive(Clone, Copy)]
        struct Op {
            kind: usize,
            v: u32,
            w: u32,
        }
        // the new value, and what the operation reports (the old value)
        fn model(o: Op, x: u32) -> (u32, Option<u32>) {
            match o.kind {
                0 => (o.v, Some(x)),
                1 => (x.wrapping_add(o.v), Some(x.wrapping_add(o.w))),
                2 => (if x ^ o.v < o.w { o.v } else { x }, Some(x)),
                3 => (x.wrapping_add(o.v), Some(x)),
                _ => (o.v, None),
            }
        }
        fn run(o: Op, m: &Mutable<u32>) -> Option<u32> {
            match o.kind {
                0 => Some(m.replace(o.v)),
                1 => Some(m.replace_with(|x| {
                    let r = x.wrapping_add(o.v);
                    *x = x.wrapping_add(o.w);
                    r
                })),
                2 => {
                    let mut r = None;
                    m.set_if(o.v, |x, y| {
                        r = Some(*x);
                        *x ^ *y < o.w
                    });
                    r
                }
                3 => {
                    let mut l = m.lock_mut();
                    let x = *l;
                    *l = x.wrapping_add(o.v);
                    Some(x)
                }
                _ => {
                    m.set_neq(o.v);
                    None
                }
            }
        }
        let x0 = any_u32();
        let m = Mutable::new(x0);
        let mut sub = Sub::new(m.signal());
        let mut ops = [Op { kind: 0, v: 0, w: 0 }; 2];
        let mut out = [None; 2];
        for t in 0..2 {
            let (lo, hi) = if t == 0 && param(1) > 0 { (param(1) - 1, param(1) - 1) } else { (0, 4) };
            ops[t] = Op { kind: pick(lo, hi), v: any_u32(), w: any_u32() };
            let o = ops[t];
            let r = P::new(&mut out[t]);
            let m = m.clone();
            thread(move || *r.get() = run(o, &m));
        }
        if param(0) > 0 {
            let p = P::new(&mut sub);
            thread(move || p.get().run(param(0)));
        }
        join_all();
        let x = m.get();
        let order = |i: usize, j: usize| {
            let (y, a) = model(ops[i], x0);
            let (z, b) = model(ops[j], y);
            z == x && out[i] == a && out[j] == b
        };
        check(order(0, 1) | order(1, 0), "Mutable: concurrent operations are not atomic");
        sub.quiesce();
        check(sub.t.last() == Some(x), "Mutable: the latest value is missed");
        cover("end");
    })
}
// ------------------------------------------------------------------ C04
struct Log {
    ok: Option<Val>,
    sent: u8,
    closed: bool,
}
/// every operation sequence of a sender of at most `k` operations; at the end it is dropped
fn sender_ops(tx: Sender<Val>, t: u8, k: usize, log: &mut Log) {
    let mut txs = vec![tx];
    for _ in 0..k {
        let n = txs.len();
        if n == 0 {
            break;
        }
        match pick(0, if n < 2 { 3 } else { 2 }) {
            0 => {
                let v = (t, log.sent + 1, any_u32());
                match txs[n - 1].send(v) {
                    Ok(()) => {
                        check(!log.closed, "channel: send succeeds although the channel was closed");
                        log.ok = Some(v);
                        log.sent += 1;
                    }
                    Err(e) => check(e == v, "channel: send returns another value"),
                }
            }
            1 => {
                txs[n - 1].close();
                log.closed = true;
            }
            2 => drop(txs.pop()),
            _ => {
                let c = txs[n - 1].clone();
                txs.push(c);
            }
        }
    }
}
/// params: operations of sender 1, operations of sender 2 (0: no second sender), polls, 1: main keeps a sender,
/// polls before the threads start
#[no_mangle]
pub extern "C" fn h_channel_conc() {
    no_leak(|| {
        let first = (9u8, 0u8, any_u32());
        let (tx, rx) = channel(first);
        let mut sub = Sub::new(rx);
        sub.run(param(4));
        let mut logs = [Log { ok: None, sent: 0, closed: false }, Log { ok: None, sent: 0, closed: false }];
        for t in 0..2 {
            if param(t) > 0 {
                let tx = tx.clone();
                let l = P::new(&mut logs[t as usize]);
                thread(move || sender_ops(tx, t as u8, param(t), l.get()));
            }
        }
        let kept = if param(3) == 1 { Some(tx) } else { drop(tx); None };
        let p = P::new(&mut sub);
        thread(move || p.get().run(param(2)));
        join_all();
        sub.quiesce();
        let closed = logs[0].closed || logs[1].closed;
        let seen = |sub: &Sub<Receiver<Val>>| {
            let l = sub.t.last();
            match (logs[0].ok, logs[1].ok) {
                (None, None) => l == Some(first),
                (a, b) => l.is_some() && (l == a || l == b),
            }
        };
        check(sub.t.log[0].0 == 9 || logs[0].ok.is_some() || logs[1].ok.is_some(), "channel: the first value is not the initial one");
        check(seen(&sub), "channel: the last value sent is missed");
        monotone(&sub.t.log, "channel: an older value is delivered again");
        check(sub.t.log.len() <= 1 + logs[0].sent as usize + logs[1].sent as usize, "channel: a value is delivered twice");
        if let Some(tx) = kept {
            check(sub.t.ended == closed, "channel: the receiver does not end exactly when the channel is closed");
            let c = tx.clone();
            let v = (9, 9, any_u32());
            let r = c.send(v);
            check(r.is_err() == closed, "channel: send does not fail exactly when the channel was closed");
            if !closed {
                sub.quiesce();
                check(sub.t.last() == Some(v), "channel: a waiting receiver misses a send");
            }
            drop(c);
            drop(tx);
            sub.quiesce();
        }
        check(sub.t.ended, "channel: the receiver does not end when all senders are gone");
        cover("end");
    })
}
/// send fails once the receiver is gone; params: operations of the sender
#[no_mangle]
pub extern "C" fn h_channel_rx_drop() {
    no_leak(|| {
        let (tx, rx) = channel((9u8, 0u8, any_u32()));
        let mut log = Log { ok: None, sent: 0, closed: false };
        let tx2 = tx.clone();
        let l = P::new(&mut log);
        thread(move || sender_ops(tx2, 0, param(0), l.get()));
        thread(move || {
            let mut sub = Sub::new(rx);
            sub.run(1);
            drop(sub);
        });
        join_all();
        let v = (1, 1, any_u32());
        check(tx.send(v) == Err(v), "channel: send succeeds without a receiver");
        cover("end");
    })
}

// ------------------------------------------------------------------ C05
/// params: writes, polls of each polling thread, signals, drop of the source (0 by main, 1 by the writer),
/// kind of signal
#[no_mangle]
pub extern "C" fn h_broadcast_conc() {
    no_leak(|| {
        let m = Mutable::new((0u8, 0u8, any_u32()));
        let ro = m.read_only();
        let b = m.signal().broadcast();
        let n = param(2);
        let mut subs: Vec<Sub<BroadcasterSignal<MutableSignal<Val>>>> = (0..n).map(|_| Sub::new(b.signal())).collect();
        let k = param(0);
        let mut kept = None;
        {
            let w = m.clone();
            if param(3) == 0 {
                kept = Some(m)
            } else {
                drop(m)
            }
            thread(move || {
                for i in 0..k {
                    w.set((0, i as u8 + 1, any_u32()));
                }
            });
        }
        for s in subs.iter_mut() {
            let s = P::new(s);
            thread(move || s.get().run(param(1)));
        }
        join_all();
        let v = ro.get();
        let settle = |subs: &mut Vec<Sub<BroadcasterSignal<MutableSignal<Val>>>>| {
            let mut again = true;
            while again {
                again = false;
                for s in subs.iter_mut() {
                    again |= s.step();
                }
            }
        };
        settle(&mut subs);
        for s in subs.iter() {
            check(s.t.last() == Some(v), "Broadcaster: a signal misses the latest value");
            check(s.t.log.len() <= k + 1, "Broadcaster: a signal yields twice for one value");
            monotone(&s.t.log, "Broadcaster: a signal goes back to an older value");
        }
        if let Some(m) = kept {
            for s in subs.iter() {
                check(!s.t.ended, "Broadcaster: a signal ends before the source");
            }
            drop(m);
            settle(&mut subs);
        }
        for s in subs.iter() {
            check(s.t.ended && s.t.last() == Some(v), "Broadcaster: a signal does not end with the source");
        }
        cover("end");
    })
}
/// A source that may wake the broadcaster from within its own poll, and several signals polled in any order.
struct Src {
    st: &'static SrcState,
}
struct SrcState {
    items: Cell<usize>,
    selfwakes: Cell<usize>,
    val: Cell<u32>,
    n: Cell<usize>,
    ended: Cell<bool>,
    waker: std::cell::RefCell<Option<Waker>>,
}
impl Signal for Src {
    type Item = u32;
    fn poll_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<u32>> {
        let s = self.st;
        if s.ended.get() {
            repolled();
            return Poll::Ready(None);
        }
        if s.n.get() == 0 {
            s.n.set(1);
            s.val.set(any_u32());
            return Poll::Ready(Some(s.val.get()));
        }
        match pick(if s.items.get() > 0 { 0 } else { 1 }, if s.selfwakes.get() > 0 { 3 } else { 2 }) {
            0 => {
                s.items.set(s.items.get() - 1);
                s.n.set(s.n.get() + 1);
                s.val.set(any_u32());
                Poll::Ready(Some(s.val.get()))
            }
            1 => {
                s.ended.set(true);
                Poll::Ready(None)
            }
            2 => {
                *s.waker.borrow_mut() = Some(cx.waker().clone());
                Poll::Pending
            }
            _ => {
                s.selfwakes.set(s.selfwakes.get() - 1);
                cx.waker().wake_by_ref();
                *s.waker.borrow_mut() = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
struct AnySub<S: Signal>(Sub<S>);
trait Poller {
    fn step(&mut self) -> bool;
    fn task(&self) -> &Task<u32>;
}
impl<S: Signal<Item = u32> + Unpin> Poller for AnySub<S> {
    fn step(&mut self) -> bool {
        self.0.step()
    }
    fn task(&self) -> &Task<u32> {
        &self.0.t
    }
}
/// params: source values after the first, self-wakes, operations, signals at most
#[no_mangle]
pub extern "C" fn h_broadcast_seq() {
    no_leak(|| {
        let st = SrcState {
            items: Cell::new(param(0)),
            selfwakes: Cell::new(param(1)),
            val: Cell::new(0),
            n: Cell::new(0),
            ended: Cell::new(false),
            waker: std::cell::RefCell::new(None),
        };
        let st: &'static SrcState = unsafe { &*(&st as *const SrcState) };
        let b = Src { st }.broadcast();
        let mut subs: Vec<Box<dyn Poller>> = vec![];
        for _ in 0..param(2) {
            let n = subs.len();
            // poll a signal, create one, drop one, or an outside change of the source
            let c = pick(0, n + 2);
            if c < n {
                subs[c].step();
            } else if c == n {
                if n < param(3) {
                    subs.push(match pick(0, 2) {
                        0 => Box::new(AnySub(Sub::new(b.signal()))),
                        1 => Box::new(AnySub(Sub::new(b.signal_cloned()))),
                        _ => Box::new(AnySub(Sub::new(b.signal_ref(|x| *x)))),
                    });
                }
            } else if c == n + 1 {
                let w = st.waker.borrow_mut().take();
                if let Some(w) = w {
                    w.wake();
                }
            } else if n > 0 {
                subs.pop();
            }
        }
        loop {
            let mut again = false;
            for s in subs.iter_mut() {
                again |= s.step();
            }
            if !again {
                break;
            }
        }
        for s in subs.iter() {
            let t = s.task();
            check(t.ended == st.ended.get(), "Broadcaster: a signal does not end exactly with the source");
            check(t.last() == Some(st.val.get()), "Broadcaster: a signal misses the latest value");
            check(t.log.len() <= st.n.get(), "Broadcaster: a signal yields twice for one value");
        }
        if subs.len() > 0 && !st.ended.get() {
            // a change now must reach every signal
            let w = st.waker.borrow_mut().take();
            check(w.is_some(), "stall: the source has no waker");
            w.unwrap().wake();
            for s in subs.iter() {
                check(!s.task().asleep(), "stall: a wakeup of the source does not reach every waiting signal");
            }
            cover("quiet");
        } else {
            cover("end");
        }
        drop(subs);
        drop(b);
        *st.waker.borrow_mut() = None;
    })
}

// ------------------------------------------------------------------ C06
struct Inner {
    /// completes at this poll (0: never)
    at: usize,
    polls: P<usize>,
    dropped: P<usize>,
    waker: P<Option<Waker>>,
}
impl Future for Inner {
    type Output = u32;
    fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<u32> {
        let n = self.polls.get();
        *n += 1;
        if *n == self.at {
            *self.waker.get() = None;
            Poll::Ready(7)
        } else {
            if *n + 1 == self.at {
                // the next poll completes
                cx.waker().wake_by_ref();
            }
            *self.waker.get() = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}
impl Drop for Inner {
    fn drop(&mut self) {
        *self.dropped.get() += 1;
    }
}
/// params: poll at which the inner future completes (0 never), polls of the polling thread, discard (1) or leak (0)
#[no_mangle]
pub extern "C" fn h_cancel_conc() {
    no_leak(|| {
        let (mut polls, mut dropped, mut waker, mut calls) = (0usize, 0usize, None, 0usize);
        let inner = Inner { at: param(0), polls: P::new(&mut polls), dropped: P::new(&mut dropped), waker: P::new(&mut waker) };
        let c = P::new(&mut calls);
        let (handle, fut) = cancelable_future(inner, move || {
            *c.get() += 1;
            8
        });
        let mut task: Task<u32> = Task::new();
        let mut fut = Box::pin(fut);
        let p = P::new(&mut task);
        let q = P::new(&mut fut);
        let go = move || {
            let t = p.get();
            if t.log.len() > 0 {
                return false;
            }
            let f = q.get();
            t.step(|cx| f.as_mut().poll(cx).map(Some))
        };
        let go2 = go.clone();
        thread(move || {
            for _ in 0..param(1) {
                if !go2() {
                    break;
                }
            }
        });
        let discard = param(2) == 1;
        if discard {
            thread(move || drop(handle));
        } else {
            discard_leak(handle);
        }
        join_all();
        let before = (polls, task.log.len());
        while go() {}
        if discard {
            check(task.log.len() == 1, "cancelable_future: does not complete after it was cancelled");
            check(polls == before.0, "cancelable_future: the inner future is polled after the cancellation");
        } else {
            check((task.log.len() == 1) == (param(0) > 0), "cancelable_future: does not complete exactly with the inner future");
        }
        if task.log.len() == 1 {
            if task.log[0] == 8 {
                check(discard && calls == 1, "cancelable_future: the callback is not called exactly once");
                check(dropped == 1, "cancelable_future: the inner future is not dropped when it is cancelled");
                cover("cancelled");
            } else {
                check(task.log[0] == 7 && calls == 0, "cancelable_future: not the inner future's output, or the callback was called");
                check(param(0) > 0 && polls == param(0), "cancelable_future: completed by itself");
                cover("completed");
            }
        }
        drop(fut);
        check(dropped == 1, "cancelable_future: the inner future is not dropped exactly once");
        drop(waker);
        cover("end");
    })
}
fn discard_leak(h: discard::DiscardOnDrop<CancelableFutureHandle>) {
    drop(discard::DiscardOnDrop::leak(h));
}
