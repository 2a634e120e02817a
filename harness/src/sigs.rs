//! Signal combinators, conversions and consumers.
//! params of one-input harnesses: values after the first one, pendings.
use crate::rt::*;
use crate::vsrc::*;
use futures_core::Stream;
use futures_signals::signal::*;
use futures_signals::signal_map::{MapDiff, SignalMap, SignalMapExt};
use futures_signals::signal_vec::{SignalVecExt, VecDiff};
use futures_signals::{map_mut, map_ref};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

fn fin(ended: bool) {
    if ended {
        cover("end");
    } else {
        cover("quiet");
    }
}
fn sm<T>(i: u32) -> Rc<SigModel<T>> {
    SigModel::new(param(2 * i), param(2 * i + 1), param(12) & 2 == 0)
}
fn mix(x: u32) -> u32 {
    x.wrapping_mul(5) ^ 0x1234
}
/// The output log equals what `want` computes from the input log.
fn same_log<T: PartialEq>(a: &[T], b: &[T], s: &str) {
    check(a.len() == b.len(), s);
    for i in 0..a.len() {
        check(a[i] == b[i], s);
    }
}

// ------------------------------------------------------------------ C21
/// A signal of one input: always the function of its latest value, at most one output per input value.
fn one<T: Clone + 'static, U: PartialEq + Clone, S: Signal<Item = U>>(
    m: &Rc<SigModel<T>>,
    s: S,
    f: impl Fn(&T) -> U,
    what: &str,
    end: &str,
) {
    let mut s = Box::pin(s);
    let out: RefCell<Option<U>> = RefCell::new(None);
    let n = Cell::new(0);
    fin(drive_sig(&mut s, |v| {
        check(v == f(&m.get().unwrap()), what);
        n.set(n.get() + 1);
        check(n.get() <= m.log.borrow().len(), what);
        *out.borrow_mut() = Some(v);
    }, |g| g(&m.ctl), |ended| {
        check(out.borrow().clone() == m.get().map(|x| f(&x)), what);
        check(ended == m.ctl.ended(), end);
    }));
}
#[no_mangle]
pub extern "C" fn h_sig_map() {
    no_leak(|| {
        let m = sm(0);
        let calls = Rc::new(RefCell::new(vec![]));
        let c2 = calls.clone();
        one(&m, u32_sig(&m).map(move |x| {
            c2.borrow_mut().push(x);
            mix(x)
        }), |x| mix(*x), "map: not the function of the latest value", "map: end does not agree with the input");
        same_log(&calls.borrow(), &m.log.borrow(), "map: the callback was not called once per value in order");
    })
}
#[no_mangle]
pub extern "C" fn h_sig_inspect() {
    no_leak(|| {
        let m = sm(0);
        let calls = Rc::new(RefCell::new(vec![]));
        let c2 = calls.clone();
        one(&m, u32_sig(&m).inspect(move |x| c2.borrow_mut().push(*x)), |x| *x,
            "inspect: not the latest value", "inspect: end does not agree with the input");
        same_log(&calls.borrow(), &m.log.borrow(), "inspect: the callback was not called once per value in order");
    })
}
#[no_mangle]
pub extern "C" fn h_sig_eq() {
    no_leak(|| {
        let m = sm(0);
        let k = any_u32();
        if flip() {
            one(&m, u32_sig(&m).eq(k), |x| *x == k, "eq: not the comparison of the latest value", "eq: end does not agree with the input");
        } else {
            one(&m, u32_sig(&m).neq(k), |x| *x != k, "neq: not the comparison of the latest value", "neq: end does not agree with the input");
        }
    })
}
#[no_mangle]
pub extern "C" fn h_sig_not() {
    no_leak(|| {
        let m = sm(0);
        one(&m, not(bool_sig(&m)), |x| !*x, "not: not the negation of the latest value", "not: end does not agree with the input");
    })
}
#[no_mangle]
pub extern "C" fn h_sig_option() {
    no_leak(|| {
        let m = sm(0);
        match pick(0, 3) {
            0 => one(&m, option(Some(u32_sig(&m))), |x| Some(*x), "option: not Some of the latest value", "option: end does not agree with the input"),
            1 => one(&m, result::<_, u8>(Ok(u32_sig(&m))), |x| Ok(*x), "result: not Ok of the latest value", "result: end does not agree with the input"),
            k => {
                let e = any_u32();
                let mut n = 0;
                let mut got = |ok: bool| {
                    check(ok, "option/result: the constant is not shown");
                    n += 1;
                };
                if k == 2 {
                    let mut s = Box::pin(option(None::<Always<u32>>));
                    fin(drive_sig(&mut s, |v| got(v.is_none()), |_| (), |e| check(e, "option: a constant does not end")));
                } else {
                    let mut s = Box::pin(result::<Always<u32>, u32>(Err(e)));
                    fin(drive_sig(&mut s, |v| got(v == Err(e)), |_| (), |e| check(e, "result: a constant does not end")));
                }
                check(n == 1, "option/result: the constant is not shown exactly once");
            }
        }
    })
}
fn two<U: PartialEq + Clone, S: Signal<Item = U>, A: Clone + 'static, B: Clone + 'static>(
    a: &Rc<SigModel<A>>,
    b: &Rc<SigModel<B>>,
    s: S,
    f: impl Fn(A, B) -> U,
    what: &str,
    end: &str,
) {
    let mut s = Box::pin(s);
    let out: RefCell<Option<U>> = RefCell::new(None);
    let n = Cell::new(0);
    fin(drive_sig(&mut s, |v| {
        *out.borrow_mut() = Some(v);
        n.set(n.get() + 1);
        check(n.get() <= a.log.borrow().len() + b.log.borrow().len(), what);
    }, |g| {
        g(&a.ctl);
        g(&b.ctl);
    }, |ended| {
        let want = match (a.get(), b.get()) {
            (Some(x), Some(y)) => Some(f(x, y)),
            _ => None,
        };
        check(out.borrow().clone() == want, what);
        check(ended == (a.ctl.ended() && b.ctl.ended()), end);
    }));
}
#[no_mangle]
pub extern "C" fn h_sig_and_or() {
    no_leak(|| {
        let a = sm(0);
        let b = sm(1);
        if flip() {
            two(&a, &b, and(bool_sig(&a), bool_sig(&b)), |x, y| x & y, "and: not the conjunction of the latest values", "and: end does not agree with the inputs");
        } else {
            two(&a, &b, or(bool_sig(&a), bool_sig(&b)), |x, y| x | y, "or: not the disjunction of the latest values", "or: end does not agree with the inputs");
        }
    })
}
fn comb(x: u32, y: u32) -> u32 {
    x.wrapping_mul(3) ^ y.wrapping_mul(7)
}
#[no_mangle]
pub extern "C" fn h_map_ref() {
    no_leak(|| {
        let a = sm(0);
        let b = sm(1);
        let s = map_ref! {
            let x = u32_sig(&a),
            let y = u32_sig(&b) =>
            comb(*x, *y)
        };
        two(&a, &b, s, comb, "map_ref: not the function of the latest values", "map_ref: end does not agree with the inputs");
    })
}
#[no_mangle]
pub extern "C" fn h_map_mut() {
    no_leak(|| {
        let a = sm(0);
        let b = sm(1);
        let s = map_mut! {
            let x = u32_sig(&a),
            let y = u32_sig(&b) => {
                let (x, y): (&mut u32, &mut u32) = (x, y);
                comb(*x, *y)
            }
        };
        two(&a, &b, s, comb, "map_mut: not the function of the latest values", "map_mut: end does not agree with the inputs");
    })
}
#[no_mangle]
pub extern "C" fn h_map_ref3() {
    no_leak(|| {
        let a: Rc<SigModel<u32>> = sm(0);
        let b: Rc<SigModel<u32>> = sm(1);
        let c: Rc<SigModel<u32>> = sm(2);
        let s = map_ref! {
            let x = u32_sig(&a),
            let y = u32_sig(&b),
            let z = u32_sig(&c) =>
            comb(comb(*x, *y), *z)
        };
        let mut s = Box::pin(s);
        let out = Cell::new(None);
        fin(drive_sig(&mut s, |v| out.set(Some(v)), |g| {
            g(&a.ctl);
            g(&b.ctl);
            g(&c.ctl);
        }, |ended| {
            let want = comb(comb(a.get().unwrap(), b.get().unwrap()), c.get().unwrap());
            check(out.get() == Some(want), "map_ref: not the function of the latest three values");
            check(ended == (a.ctl.ended() && b.ctl.ended() && c.ctl.ended()), "map_ref: end does not agree with the three inputs");
        }));
    })
}

/// The forms and arities of the macros.  params: values after the first one and pendings of every input, form
/// (0: one input by name; 1: one input, map_mut; 2: two inputs by name; 3: three, mixed; 4: four; 5: five, map_mut with
/// patterns; 6: move and a callback that keeps state)
#[no_mangle]
pub extern "C" fn h_map_forms() {
    no_leak(|| {
        let form = param(2);
        let n = [1, 1, 2, 3, 4, 5, 2][form];
        let ms: Vec<Rc<SigModel<u32>>> = (0..n).map(|_| SigModel::new(param(0), param(1), param(12) & 2 == 0)).collect();
        let src = |i: usize| u32_sig(&ms[i]);
        let calls = Rc::new(Cell::new(0));
        let c2 = calls.clone();
        let mut s: Pin<Box<dyn Signal<Item = u32>>> = match form {
            0 => {
                let a = src(0);
                Box::pin(map_ref!(a => comb(*a, 1)))
            }
            1 => {
                let a = src(0);
                Box::pin(map_mut!(a => { let a: &mut u32 = a; comb(*a, 1) }))
            }
            2 => {
                let (a, b) = (src(0), src(1));
                Box::pin(map_ref!(a, b => comb(comb(*a, 1), *b)))
            }
            3 => {
                let (a, c) = (src(0), src(2));
                Box::pin(map_ref!(a, let x = src(1), c => comb(comb(comb(*a, 1), *x), *c)))
            }
            4 => {
                let (a, b, d) = (src(0), src(1), src(3));
                Box::pin(map_mut!(a, b, let x = src(2), d => comb(comb(comb(comb(*a, 1), *b), *x), *d)))
            }
            5 => {
                let (a, e) = (src(0), src(4));
                Box::pin(map_ref!(a, let &b = src(1), let c = src(2), let &d = src(3), e => comb(comb(comb(comb(comb(*a, 1), b), *c), d), *e)))
            }
            _ => {
                let (a, b) = (src(0), src(1));
                Box::pin(map_ref!(a, b => move {
                    c2.set(c2.get() + 1);
                    comb(comb(*a, 1), *b)
                }))
            }
        };
        let out = Cell::new(None);
        let outs = Cell::new(0);
        fin(drive_sig(&mut s, |v| {
            out.set(Some(v));
            outs.set(outs.get() + 1);
        }, |g| {
            for m in ms.iter() {
                g(&m.ctl);
            }
        }, |ended| {
            let mut want = 1;
            let mut done = true;
            for (i, m) in ms.iter().enumerate() {
                let x = m.get().unwrap();
                want = if i == 0 { comb(x, 1) } else { comb(want, x) };
                done &= m.ctl.ended();
            }
            check(out.get() == Some(want), "map_ref: not the function of the latest values of all inputs");
            check(ended == done, "map_ref: end does not agree with all the inputs");
        }));
        if form == 6 {
            check(calls.get() == outs.get(), "map_ref: the callback is not called once per value");
        }
    })
}

// ------------------------------------------------------------------ C22
/// A signal of one input whose whole output is determined by the input's values.
fn exact<U: PartialEq + Clone, S: Signal<Item = U>>(
    m: &Rc<SigModel<u32>>,
    s: S,
    want: impl Fn(&[u32]) -> (Vec<U>, bool),
    what: &str,
    end: &str,
) {
    let mut s = Box::pin(s);
    let out: RefCell<Vec<U>> = RefCell::new(vec![]);
    fin(drive_sig(&mut s, |v| out.borrow_mut().push(v), |g| g(&m.ctl), |ended| {
        let (w, stopped) = want(&m.log.borrow());
        same_log(&out.borrow(), &w, what);
        check(ended == (m.ctl.ended() || stopped), end);
    }));
}
fn dedup(l: &[u32]) -> Vec<u32> {
    let mut r: Vec<u32> = vec![];
    for x in l {
        if r.len() == 0 || r[r.len() - 1] != *x {
            r.push(*x);
        }
    }
    r
}
#[no_mangle]
pub extern "C" fn h_dedupe() {
    no_leak(|| {
        let m = sm(0);
        match pick(0, 2) {
            0 => exact(&m, u32_sig(&m).dedupe(), |l| (dedup(l), false), "dedupe: not the values that differ from the previous one", "dedupe: end does not agree with the input"),
            1 => exact(&m, u32_sig(&m).dedupe_cloned(), |l| (dedup(l), false), "dedupe_cloned: not the values that differ from the previous one", "dedupe_cloned: end does not agree with the input"),
            _ => {
                let calls = Rc::new(RefCell::new(vec![]));
                let c2 = calls.clone();
                exact(&m, u32_sig(&m).dedupe_map(move |x| {
                    c2.borrow_mut().push(*x);
                    mix(*x)
                }), |l| (dedup(l).into_iter().map(mix).collect(), false), "dedupe_map: not the function of the values that differ from the previous one", "dedupe_map: end does not agree with the input");
                same_log(&calls.borrow(), &dedup(&m.log.borrow()), "dedupe_map: the callback was not called once per changed value");
            }
        }
    })
}
#[no_mangle]
pub extern "C" fn h_sig_filter_map() {
    no_leak(|| {
        let m = sm(0);
        let f = |x: u32| if x & 1 == 0 { Some(mix(x)) } else { None };
        let calls = Rc::new(RefCell::new(vec![]));
        let c2 = calls.clone();
        exact(&m, u32_sig(&m).filter_map(move |x| {
            c2.borrow_mut().push(x);
            f(x)
        }), |l| {
            let mut r = vec![];
            for (i, x) in l.iter().enumerate() {
                let y = f(*x);
                if y.is_some() || i == 0 {
                    r.push(y);
                }
            }
            (r, false)
        }, "filter_map: not the mapped values that are Some, after a first None if the first is rejected", "filter_map: end does not agree with the input");
        same_log(&calls.borrow(), &m.log.borrow(), "filter_map: the callback was not called once per value in order");
    })
}
#[no_mangle]
pub extern "C" fn h_first() {
    no_leak(|| {
        let m = sm(0);
        exact(&m, u32_sig(&m).first(), |l| (l[..1].to_vec(), true), "first: not exactly the first value", "first: does not end after the first value");
    })
}
#[no_mangle]
pub extern "C" fn h_stop_if() {
    no_leak(|| {
        let m = sm(0);
        let k = any_u32();
        let calls = Rc::new(RefCell::new(vec![]));
        let c2 = calls.clone();
        exact(&m, u32_sig(&m).stop_if(move |x| {
            c2.borrow_mut().push(*x);
            *x > k
        }), |l| {
            let mut r = vec![];
            for x in l {
                r.push(*x);
                if *x > k {
                    return (r, true);
                }
            }
            (r, false)
        }, "stop_if: not the values up to the first that satisfies the test", "stop_if: end does not agree with the test and the input");
        same_log(&calls.borrow(), &m.log.borrow(), "stop_if: the test was not called once per value in order");
    })
}

// ------------------------------------------------------------------ C23
/// params: outer values, outer pendings, inner values, inner pendings
fn flat(which: usize) {
    type In = Rc<SigModel<u32>>;
    let m: Rc<SigModel<In>> = sm(0);
    let all: Rc<RefCell<Vec<In>>> = Rc::new(RefCell::new(vec![]));
    let a2 = all.clone();
    let fresh = move || {
        let i = SigModel::inner(param(2), param(3));
        a2.borrow_mut().push(i.clone());
        i
    };
    let out = Cell::new(None);
    let n = Cell::new(0);
    let values = || all.borrow().iter().map(|i| i.log.borrow().len()).sum::<usize>();
    let on_value = |v| {
        out.set(Some(v));
        n.set(n.get() + 1);
        check(n.get() <= values(), "flatten: yields without a change of an inner signal");
    };
    let ctls = |g: &mut dyn FnMut(&Ctl)| {
        g(&m.ctl);
        for i in all.borrow().iter() {
            g(&i.ctl);
        }
    };
    let settled = |ended: bool| {
        let last = m.get().unwrap();
        check(last.get().is_some() && out.get() == last.get(), "flatten: not the latest value of the latest inner signal");
        check(ended == (m.ctl.ended() && last.ctl.ended()), "flatten: end does not agree with the inputs");
        for i in all.borrow().iter() {
            check(Rc::ptr_eq(i, &last) || i.ctl.gone(), "kept: a replaced inner signal is not dropped");
        }
    };
    if which == 0 {
        let mut s = Box::pin(SigSrc::new(&m, fresh, |i: &In| u32_sig(i)).flatten());
        fin(drive_sig(&mut s, on_value, ctls, settled));
    } else {
        let mut s = Box::pin(SigSrc::new(&m, fresh, |i: &In| i.clone()).switch(|i| u32_sig(&i)));
        fin(drive_sig(&mut s, on_value, ctls, settled));
    }
}
#[no_mangle]
pub extern "C" fn h_sig_flatten() {
    no_leak(|| flat(0))
}
#[no_mangle]
pub extern "C" fn h_sig_switch() {
    no_leak(|| flat(1))
}
/// params: values, pendings, pendings of every future
#[no_mangle]
pub extern "C" fn h_map_future() {
    no_leak(|| {
        let m = sm(0);
        let all: Rc<RefCell<Vec<Rc<FutModel>>>> = Rc::new(RefCell::new(vec![]));
        let a2 = all.clone();
        let args = Rc::new(RefCell::new(vec![]));
        let r2 = args.clone();
        let mut s = Box::pin(u32_sig(&m).map_future(move |x| {
            r2.borrow_mut().push(x);
            let f = FutModel::new(param(2));
            a2.borrow_mut().push(f.clone());
            FutSrc::new(&f)
        }));
        let out: Cell<Option<Option<u32>>> = Cell::new(None);
        let done = Cell::new(0);
        fin(drive_sig(&mut s, |v| {
            match v {
                None => check(out.get().is_none(), "map_future: None after the first value"),
                Some(v) => {
                    // a value belongs to the newest future, which completed just now
                    let a = all.borrow();
                    let f = &a[a.len() - 1];
                    check(f.done() && f.out.get() == v, "map_future: not the output of the newest future");
                    check(a.len() > done.get(), "map_future: yields the same output twice");
                    done.set(a.len());
                }
            }
            out.set(Some(v));
        }, |g| {
            g(&m.ctl);
            for f in all.borrow().iter() {
                g(&f.ctl);
            }
        }, |ended| {
            let a = all.borrow();
            let f = &a[a.len() - 1];
            check(out.get().is_some(), "map_future: no first value");
            if f.done() {
                check(out.get() == Some(Some(f.out.get())), "map_future: the newest output is not shown");
            }
            check(ended == (m.ctl.ended() && f.done()), "map_future: end does not agree with the inputs");
            for g in a.iter() {
                check(Rc::ptr_eq(f, g) || g.ctl.gone(), "kept: a superseded future is not dropped");
            }
        }));
        same_log(&args.borrow(), &m.log.borrow(), "map_future: the callback was not called once per value in order");
    })
}
struct Unit(FutSrc);
impl Future for Unit {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> {
        Pin::new(&mut self.0).poll(cx).map(|_| ())
    }
}
/// params: values, pendings, pendings of every delay
#[no_mangle]
pub extern "C" fn h_throttle() {
    no_leak(|| {
        let m = sm(0);
        let all: Rc<RefCell<Vec<Rc<FutModel>>>> = Rc::new(RefCell::new(vec![]));
        let a2 = all.clone();
        let mut s = Box::pin(u32_sig(&m).throttle(move || {
            let f = FutModel::new(param(2));
            a2.borrow_mut().push(f.clone());
            Unit(FutSrc::new(&f))
        }));
        // number of delays that existed before this poll and were not completed
        let running = || all.borrow().iter().any(|f| !f.done());
        let out: Cell<Option<u32>> = Cell::new(None);
        let n = Cell::new(0);
        fin(drive_sig(&mut s, |v| {
            check(m.get() == Some(v), "throttle: not the latest value");
            out.set(Some(v));
            n.set(n.get() + 1);
            check(n.get() <= m.log.borrow().len(), "throttle: yields without a change");
            let a = all.borrow();
            for f in a[..a.len() - 1].iter() {
                check(f.done(), "throttle: yields although a delay has not completed");
            }
            check(a.len() == n.get(), "throttle: not one delay per value");
        }, |g| {
            if running() {
                for f in all.borrow().iter() {
                    g(&f.ctl);
                }
            } else {
                g(&m.ctl);
            }
        }, |ended| {
            if !running() {
                check(out.get() == m.get(), "throttle: the latest value is not shown");
                check(ended == m.ctl.ended(), "throttle: end does not agree with the input");
            } else if ended {
                check(m.ctl.ended(), "throttle: ended before its input");
                check(out.get() == m.get(), "throttle: the latest value is lost");
            }
        }));
    })
}

// ------------------------------------------------------------------ C24
#[no_mangle]
pub extern "C" fn h_sig_to_stream() {
    no_leak(|| {
        let m = sm(0);
        let mut s = Box::pin(u32_sig(&m).to_stream());
        let out = RefCell::new(vec![]);
        fin(drive(|cx| s.as_mut().poll_next(cx).map(|o| o.map(|v| out.borrow_mut().push(v))), |g| g(&m.ctl), |ended| {
            same_log(&out.borrow(), &m.log.borrow(), "to_stream: not exactly the signal's values");
            check(ended == m.ctl.ended(), "to_stream: end does not agree with the signal");
        }));
    })
}
#[no_mangle]
pub extern "C" fn h_to_future() {
    no_leak(|| {
        let m = sm(0);
        let mut s = Box::pin(u32_sig(&m).to_future());
        let out = Cell::new(None);
        fin(drive(|cx| s.as_mut().poll(cx).map(|v| {
            out.set(Some(v));
            None
        }), |g| g(&m.ctl), |done| {
            check(done == m.ctl.ended(), "to_future: does not resolve exactly when the signal ends");
            if done {
                check(out.get() == m.get(), "to_future: not the last value");
            }
        }));
    })
}
#[no_mangle]
pub extern "C" fn h_wait_for() {
    no_leak(|| {
        let m = sm(0);
        let k = any_u32();
        let mut s = Box::pin(u32_sig(&m).wait_for(k));
        let out = Cell::new(None);
        fin(drive(|cx| s.as_mut().poll(cx).map(|v| {
            out.set(v);
            None
        }), |g| g(&m.ctl), |done| {
            let log = m.log.borrow();
            let n = log.len();
            let hit = log[n - 1] == k;
            for x in log[..n - 1].iter() {
                check(*x != k, "wait_for: went past the value");
            }
            check(done == (hit || m.ctl.ended()), "wait_for: does not resolve exactly at the value or the end");
            if done {
                check(out.get() == if hit { Some(k) } else { None }, "wait_for: wrong output");
            }
        }));
    })
}
/// params: signal values, pendings, stream items, stream pendings
#[no_mangle]
pub extern "C" fn h_sample() {
    no_leak(|| {
        let m: Rc<SigModel<u32>> = sm(0);
        let t: Rc<SigModel<u32>> = SigModel::lax(param(2), param(3), true);
        let mut s = Box::pin(u32_sig(&m).sample_stream_cloned(u32_sig(&t)));
        let n = Cell::new(0);
        fin(drive(|cx| s.as_mut().poll_next(cx).map(|o| o.map(|(a, b)| {
            n.set(n.get() + 1);
            check(n.get() == t.log.borrow().len() && t.get() == Some(b), "sample_stream_cloned: not one output per stream item");
            check(m.get() == Some(a) && m.ctl.last.get() != Last::Item, "sample_stream_cloned: not the latest value of the signal");
        })), |g| g(&t.ctl), |ended| {
            check(n.get() == t.log.borrow().len(), "sample_stream_cloned: an item is lost");
            check(ended == t.ctl.ended(), "sample_stream_cloned: end does not agree with the stream");
        }));
    })
}
/// params: pendings
#[no_mangle]
pub extern "C" fn h_from_future() {
    no_leak(|| {
        let f = FutModel::new(param(0));
        let mut s = Box::pin(from_future(FutSrc::new(&f)));
        let out: RefCell<Vec<Option<u32>>> = RefCell::new(vec![]);
        fin(drive_sig(&mut s, |v| {
            let mut o = out.borrow_mut();
            match v {
                None => check(o.len() == 0, "from_future: None is not the first value"),
                Some(v) => check(o.len() < 2 && (o.len() == 0 || o[0].is_none()) && f.done() && f.out.get() == v, "from_future: not the output of the future, once"),
            }
            o.push(v);
        }, |g| g(&f.ctl), |ended| {
            let o = out.borrow();
            check(o.len() > 0, "from_future: no first value");
            check(o[o.len() - 1].is_some() == f.done(), "from_future: the output is not shown");
            check(ended == f.done(), "from_future: does not end with the future");
        }));
    })
}
#[no_mangle]
pub extern "C" fn h_sig_from_stream() {
    no_leak(|| {
        let t: Rc<SigModel<u32>> = SigModel::lax(param(0), param(1), true);
        let mut s = Box::pin(from_stream(u32_sig(&t)));
        let out: RefCell<Vec<Option<u32>>> = RefCell::new(vec![]);
        fin(drive_sig(&mut s, |v| {
            let mut o = out.borrow_mut();
            match v {
                None => check(o.len() == 0 && t.get().is_none(), "from_stream: None is not the first value"),
                Some(v) => check(t.get() == Some(v), "from_stream: not the latest item"),
            }
            o.push(v);
            check(o.len() <= 1 + t.log.borrow().len(), "from_stream: yields without a new item");
        }, |g| g(&t.ctl), |ended| {
            let o = out.borrow();
            check(o.len() > 0, "from_stream: no first value");
            check(o[o.len() - 1] == t.get(), "from_stream: the latest item is not shown");
            check(ended == t.ctl.ended(), "from_stream: end does not agree with the stream");
        }));
    })
}

// ------------------------------------------------------------------ C25
type Futs = Rc<RefCell<Vec<Rc<FutModel>>>>;
fn new_fut(all: &Futs, pends: usize) -> Unit {
    for f in all.borrow().iter() {
        check(f.done(), "for_each: a callback is called before the previous future completed");
    }
    let f = FutModel::new(pends);
    all.borrow_mut().push(f.clone());
    Unit(FutSrc::new(&f))
}
/// while a callback's future is running only that future needs to be able to wake the task
fn fe_ctls(all: &Futs, c: &Ctl, g: &mut dyn FnMut(&Ctl)) {
    let a = all.borrow();
    match a.iter().find(|f| !f.done()) {
        Some(f) => g(&f.ctl),
        None => g(c),
    }
}
fn fe_settled(all: &Futs, c: &Ctl, done: bool) {
    let running = all.borrow().iter().any(|f| !f.done());
    check(done == (!running && c.ended()), "for_each: does not complete exactly when the source ended and the last future completed");
}
/// params: values, pendings, pendings of every future
#[no_mangle]
pub extern "C" fn h_sig_for_each() {
    no_leak(|| {
        let m = sm(0);
        let all: Futs = Rc::new(RefCell::new(vec![]));
        let a2 = all.clone();
        let got = Rc::new(RefCell::new(vec![]));
        let g2 = got.clone();
        let mut s = Box::pin(u32_sig(&m).for_each(move |x| {
            g2.borrow_mut().push(x);
            new_fut(&a2, param(2))
        }));
        fin(drive(|cx| s.as_mut().poll(cx).map(|_| None), |g| fe_ctls(&all, &m.ctl, g), |done| {
            same_log(&got.borrow(), &m.log.borrow(), "for_each: not every value taken from the signal is passed once and in order");
            fe_settled(&all, &m.ctl, done);
        }));
    })
}
/// params: initial, changes, pendings, pendings of every future
#[no_mangle]
pub extern "C" fn h_vec_for_each() {
    no_leak(|| {
        let m: Rc<VecModel<u32>> = VecModel::new(param(0), param(1), param(2), true);
        let all: Futs = Rc::new(RefCell::new(vec![]));
        let a2 = all.clone();
        let got = Rc::new(RefCell::new(vec![]));
        let g2 = got.clone();
        let n = Rc::new(Cell::new(0));
        let n2 = n.clone();
        let mut s = Box::pin(u32_src(&m).for_each(move |d: VecDiff<u32>| {
            replay(&mut g2.borrow_mut(), d);
            n2.set(n2.get() + 1);
            new_fut(&a2, param(3))
        }));
        fin(drive(|cx| s.as_mut().poll(cx).map(|_| None), |g| fe_ctls(&all, &m.ctl, g), |done| {
            same_log(&got.borrow(), &m.model.borrow(), "for_each: the changes are not passed on in order");
            check(n.get() == m.changes.get(), "for_each: not every change is passed on exactly once");
            fe_settled(&all, &m.ctl, done);
        }));
    })
}
/// params: changes, pendings, pendings of every future
#[no_mangle]
pub extern "C" fn h_map_for_each() {
    no_leak(|| {
        let m: Rc<MapModel<u32>> = MapModel::new(param(0), param(1), param(12) & 2 == 0);
        let all: Futs = Rc::new(RefCell::new(vec![]));
        let a2 = all.clone();
        let got: Rc<RefCell<BTreeMap<u8, u32>>> = Rc::new(RefCell::new(BTreeMap::new()));
        let g2 = got.clone();
        let n = Rc::new(Cell::new(0));
        let n2 = n.clone();
        let mut s = Box::pin(MapSrc::new(&m, any_u32, |x: &u32| *x).for_each(move |d: MapDiff<u8, u32>| {
            replay_map(&mut g2.borrow_mut(), d);
            n2.set(n2.get() + 1);
            new_fut(&a2, param(2))
        }));
        fin(drive(|cx| s.as_mut().poll(cx).map(|_| None), |g| fe_ctls(&all, &m.ctl, g), |done| {
            same_map(&got.borrow(), &m.model.borrow(), "for_each: the changes are not passed on in order");
            check(n.get() == m.changes.get(), "for_each: not every change is passed on exactly once");
            fe_settled(&all, &m.ctl, done);
        }));
    })
}

// ------------------------------------------------------------------ C20
pub fn same_map(a: &BTreeMap<u8, u32>, b: &BTreeMap<u8, u32>, s: &str) {
    check(a.len() == b.len(), s);
    for ((k, v), (l, w)) in a.iter().zip(b.iter()) {
        check(k == l && v == w, s);
    }
}
#[no_mangle]
pub extern "C" fn h_map_value() {
    no_leak(|| {
        let m: Rc<MapModel<u32>> = MapModel::new(param(0), param(1), param(12) & 2 == 0);
        let calls = Rc::new(Cell::new(0));
        let c2 = calls.clone();
        let mut s = Box::pin(MapSrc::new(&m, any_u32, |x: &u32| *x).map_value(move |x| {
            c2.set(c2.get() + 1);
            mix(x)
        }));
        let mut out = BTreeMap::new();
        fin(drive_map(&mut s, &mut out, |g| g(&m.ctl), |out, ended| {
            let want = m.model.borrow().iter().map(|(k, v)| (*k, mix(*v))).collect();
            same_map(out, &want, "map_value: not the function applied to every value");
            check(calls.get() == m.arrived.get(), "map_value: the callback was not called once per value");
            check(ended == m.ctl.ended(), "map_value: end does not agree with the input");
        }));
    })
}
/// params: changes, pendings, values of every inner signal, pendings
#[no_mangle]
pub extern "C" fn h_map_value_signal() {
    no_leak(|| {
        type In = Rc<SigModel<u32>>;
        let m: Rc<MapModel<In>> = MapModel::new(param(0), param(1), param(12) & 2 == 0);
        let all: Rc<RefCell<Vec<In>>> = Rc::new(RefCell::new(vec![]));
        let a2 = all.clone();
        let src = MapSrc::new(&m, move || {
            let i: In = SigModel::inner(param(2), param(3));
            a2.borrow_mut().push(i.clone());
            i
        }, |i: &In| i.clone());
        let mut s = Box::pin(src.map_value_signal(|i| u32_sig(&i)));
        let mut out = BTreeMap::new();
        fin(drive_map(&mut s, &mut out, |g| {
            g(&m.ctl);
            for i in all.borrow().iter() {
                g(&i.ctl);
            }
        }, |out, ended| {
            let mut done = m.ctl.ended();
            let mut want = BTreeMap::new();
            for (k, i) in m.model.borrow().iter() {
                want.insert(*k, i.get().unwrap_or(0));
                done &= i.ctl.ended();
            }
            same_map(out, &want, "map_value_signal: not the latest value of every key's signal");
            check(ended == done, "map_value_signal: end does not agree with the inputs");
            for i in all.borrow().iter() {
                let current = m.model.borrow().values().any(|x| Rc::ptr_eq(x, i));
                check(current || i.ctl.gone(), "kept: the signal of a removed key is not dropped");
            }
        }));
    })
}
#[no_mangle]
pub extern "C" fn h_key_cloned() {
    no_leak(|| {
        let m: Rc<MapModel<u32>> = MapModel::new(param(0), param(1), param(12) & 2 == 0);
        let k = any_u8();
        let mut s = Box::pin(MapSrc::new(&m, any_u32, |x: &u32| *x).key_cloned(k));
        let out = Cell::new(None);
        let n = Cell::new(0);
        fin(drive_sig(&mut s, |v| {
            out.set(Some(v));
            n.set(n.get() + 1);
            check(n.get() <= 1 + m.changes.get(), "key_cloned: yields without a change");
        }, |g| g(&m.ctl), |ended| {
            check(out.get() == Some(m.model.borrow().get(&k).copied()), "key_cloned: not the current value of the key");
            check(ended == m.ctl.ended(), "key_cloned: end does not agree with the input");
        }));
    })
}
