//! Interface to the symbolic executor (`lsx_*`) and the test doubles the harnesses share.
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::task::{Context, RawWaker, RawWakerVTable, Waker};

mod raw {
    extern "C" {
        pub fn lsx_u32() -> u32;
        pub fn lsx_u8() -> u8;
        pub fn lsx_bool() -> bool;
        pub fn lsx_range(lo: u32, hi: u32) -> u32;
        pub fn lsx_assume(c: bool);
        pub fn lsx_fail(p: *const u8, n: usize) -> !;
        pub fn lsx_cover(p: *const u8, n: usize);
        pub fn lsx_param(i: u32) -> u32;
        pub fn lsx_concrete(v: u32) -> u32;
        pub fn lsx_spawn(f: extern "C" fn(usize), arg: usize) -> u32;
        pub fn lsx_join();
        pub fn lsx_yield();
        pub fn lsx_live() -> usize;
    }
}
/// an arbitrary value
pub fn any_u32() -> u32 {
    unsafe { raw::lsx_u32() }
}
pub fn any_u8() -> u8 {
    unsafe { raw::lsx_u8() }
}
pub fn any_bool() -> bool {
    unsafe { raw::lsx_bool() }
}
/// an arbitrary value in lo..=hi, kept symbolic
pub fn range(lo: usize, hi: usize) -> usize {
    unsafe { raw::lsx_range(lo as u32, hi as u32) as usize }
}
/// an arbitrary value in lo..=hi, one path per value
pub fn pick(lo: usize, hi: usize) -> usize {
    if lo == hi {
        return lo;
    }
    unsafe { raw::lsx_concrete(raw::lsx_range(lo as u32, hi as u32)) as usize }
}
/// an arbitrary boolean, one path per value
pub fn flip() -> bool {
    pick(0, 1) == 1
}
pub fn assume(c: bool) {
    unsafe { raw::lsx_assume(c) }
}
#[inline(never)]
pub fn fail(s: &str) -> ! {
    unsafe { raw::lsx_fail(s.as_ptr(), s.len()) }
}
#[inline(always)]
pub fn check(c: bool, s: &str) {
    if !c {
        fail(s)
    }
}
#[inline(always)]
pub fn cover(s: &str) {
    unsafe { raw::lsx_cover(s.as_ptr(), s.len()) }
}
pub fn param(i: u32) -> usize {
    unsafe { raw::lsx_param(i) as usize }
}
/// An input was polled again after its end: the subject of C27 (last parameter 1).  For the other
/// properties the input just reports its end again.
pub fn repolled() {
    if param(15) == 1 {
        fail("repoll: an input that has ended is polled again");
    }
}
pub fn live() -> usize {
    unsafe { raw::lsx_live() }
}
pub fn spawn(f: extern "C" fn(usize), arg: usize) {
    unsafe {
        raw::lsx_spawn(f, arg);
    }
}
pub fn join_all() {
    unsafe { raw::lsx_join() }
}
pub fn yield_now() {
    unsafe { raw::lsx_yield() }
}

// ------------------------------------------------------------------ wakers of single-threaded harnesses
// Every poll is made with a fresh waker: its data pointer is the number of the poll.  A wakeup counts for
// a poll only if it arrives through the waker of that poll or a later one.
static VT: RawWakerVTable = RawWakerVTable::new(
    |d| RawWaker::new(d, &VT),
    |d| wake(d as usize),
    |d| wake(d as usize),
    |_| {},
);
struct Sync1<T>(T);
unsafe impl<T> Sync for Sync1<T> {}
static POLLS: Sync1<Cell<usize>> = Sync1(Cell::new(0));
static WOKEN: Sync1<Cell<usize>> = Sync1(Cell::new(0));
fn wake(g: usize) {
    if g > WOKEN.0.get() {
        WOKEN.0.set(g)
    }
}
/// poll something with a fresh waker
pub fn poll_with<R>(f: impl FnOnce(&mut Context) -> R) -> R {
    let g = POLLS.0.get() + 1;
    POLLS.0.set(g);
    let w = unsafe { Waker::from_raw(RawWaker::new(g as *const (), &VT)) };
    f(&mut Context::from_waker(&w))
}
/// whether the waker of the most recent poll has been woken
pub fn woken() -> bool {
    WOKEN.0.get() == POLLS.0.get() && POLLS.0.get() > 0
}

// ------------------------------------------------------------------ scripted inputs
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Last {
    Never,
    Item,
    Pend,
    End,
}
pub enum Act {
    Pend,
    Item,
    End,
}
static POOL: Sync1<Cell<Option<(usize, usize)>>> = Sync1(Cell::new(None));
/// The number of times the consumer was told Pending with nothing to do.  If parameter 9 is 1, an input that is pending
/// stays so until the next round, at no cost; otherwise every Pending counts, and the input may be ready at any poll.
static ROUND: Sync1<Cell<usize>> = Sync1(Cell::new(0));
pub fn next_round() {
    ROUND.0.set(ROUND.0.get() + 1);
}
/// The control part of an input whose behaviour at every poll is arbitrary within its budgets.
pub struct Ctl {
    /// the items and pendings come from the budget that all inner inputs share
    pub pooled: bool,
    pub items: Cell<usize>,
    pub pends: Cell<usize>,
    pub may_end: Cell<bool>,
    pub last: Cell<Last>,
    /// pending with nothing more to come
    pub idle: Cell<bool>,
    pub waker: RefCell<Option<Waker>>,
    pub polls: Cell<usize>,
    /// the round in which it was pending last
    pub parked: Cell<usize>,
    pub dropped: Cell<bool>,
    /// an input object for this control block exists (or existed)
    pub created: Cell<bool>,
}
impl Ctl {
    pub fn new(items: usize, pends: usize, may_end: bool) -> Rc<Ctl> {
        Ctl::with(items, pends, may_end, false)
    }
    /// An input that belongs to an element of another input: `first` items of its own and `items` more,
    /// which are shared by all inner inputs if parameter 10 is 1.
    pub fn inner(first: usize, items: usize, pends: usize) -> Rc<Ctl> {
        let pooled = param(10) == 1;
        if pooled && POOL.0.get().is_none() {
            POOL.0.set(Some((items, pends)));
        }
        let n = if pooled { first } else { first + items };
        Ctl::with(n, pends, param(12) & 1 == 0, pooled)
    }
    fn with(items: usize, pends: usize, may_end: bool, pooled: bool) -> Rc<Ctl> {
        Rc::new(Ctl {
            pooled,
            items: Cell::new(items),
            pends: Cell::new(pends),
            may_end: Cell::new(may_end),
            last: Cell::new(Last::Never),
            idle: Cell::new(false),
            waker: RefCell::new(None),
            parked: Cell::new(0),
            polls: Cell::new(0),
            dropped: Cell::new(false),
            created: Cell::new(false),
        })
    }
    fn pool(&self) -> (usize, usize) {
        if self.pooled { POOL.0.get().unwrap() } else { (0, 0) }
    }
    fn has_item(&self) -> bool {
        self.items.get() > 0 || self.pool().0 > 0
    }
    pub fn take_item(&self) {
        if self.items.get() > 0 {
            self.items.set(self.items.get() - 1);
        } else {
            let (i, p) = self.pool();
            POOL.0.set(Some((i - 1, p)));
        }
    }
    fn has_pend(&self) -> bool {
        if self.pooled { self.pool().1 > 0 } else { self.pends.get() > 0 }
    }
    fn take_pend(&self) {
        if self.pooled {
            let (i, p) = self.pool();
            POOL.0.set(Some((i, p - 1)));
        } else {
            self.pends.set(self.pends.get() - 1);
        }
    }
    pub fn step(&self, cx: &mut Context) -> Act {
        if self.last.get() == Last::End {
            repolled();
            return Act::End;
        }
        self.polls.set(self.polls.get() + 1);
        if param(9) == 1 && self.last.get() == Last::Pend && self.parked.get() == ROUND.0.get() {
            *self.waker.borrow_mut() = Some(cx.waker().clone());
            return Act::Pend;
        }
        // choices, in order: item, end, pend
        let i = self.has_item() as usize;
        let e = self.may_end.get() as usize;
        let p = (self.has_pend() || i == 0) as usize;
        let c = pick(0, i + e + p - 1);
        if c < i {
            self.take_item();
            self.last.set(Last::Item);
            Act::Item
        } else if c < i + e {
            self.last.set(Last::End);
            *self.waker.borrow_mut() = None;
            Act::End
        } else {
            if self.has_pend() {
                self.take_pend();
            } else {
                self.idle.set(true);
            }
            if !self.has_item() && !self.may_end.get() {
                self.idle.set(true);
            }
            self.last.set(Last::Pend);
            self.parked.set(ROUND.0.get());
            *self.waker.borrow_mut() = Some(cx.waker().clone());
            Act::Pend
        }
    }
    pub fn ended(&self) -> bool {
        self.last.get() == Last::End
    }
    pub fn gone(&self) -> bool {
        self.ended() || self.dropped.get() || !self.created.get()
    }
    /// After the consumer returned Pending: a live input must have reported Pending last and its wakeup
    /// must reach the consumer's current task.  (Or the consumer has been woken already.)
    pub fn check_registered(&self) {
        if self.gone() || woken() {
            return;
        }
        if self.last.get() != Last::Pend {
            fail("stall: Pending returned while a live input was not polled until Pending");
        }
        let w = self.waker.borrow().clone();
        let before = WOKEN.0.get();
        match w {
            Some(w) => w.wake(),
            None => fail("stall: no waker"),
        }
        if !woken() {
            fail("stall: the wakeup of an input does not reach the task");
        }
        WOKEN.0.set(before);
    }
    /// nothing more can come from this input
    pub fn quiet(&self) -> bool {
        self.gone() || self.idle.get()
    }
}
/// marks its control block when dropped
pub struct DropMark(Rc<Ctl>);
impl DropMark {
    pub fn new(c: &Rc<Ctl>) -> DropMark {
        c.created.set(true);
        DropMark(c.clone())
    }
}
impl Drop for DropMark {
    fn drop(&mut self) {
        self.0.dropped.set(true)
    }
}
