//! SignalVec combinators: params are (initial length, changes after it, pendings, ...).
use crate::rt::*;
use crate::vsrc::*;
use futures_signals::signal::{Signal, ReadOnlyMutable};
use futures_signals::signal_vec::*;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

pub fn same(a: &[u32], b: &[u32], s: &str) {
    check(a.len() == b.len(), s);
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    check(ok, s);
}
fn fin(ended: bool) {
    if ended {
        cover("end");
    } else {
        cover("quiet");
    }
}
fn vm<H>() -> Rc<VecModel<H>> {
    VecModel::new(param(0), param(1), param(2), true)
}

// ------------------------------------------------------------------ C10
#[no_mangle]
pub extern "C" fn h_filter() {
    no_leak(|| {
        let m = vm();
        let mut s = Box::pin(u32_src(&m).filter(|x| *x & 1 == 0));
        let mut out = vec![];
        fin(drive_vec(&mut s, &mut out, |f| f(&m.ctl), |out, end| {
            let want: Vec<u32> = m.model.borrow().iter().copied().filter(|x| *x & 1 == 0).collect();
            same(out, &want, "filter: the output is not the matching input elements in order");
            check(end == m.ctl.ended(), "filter: end does not agree with the input");
        }));
    })
}
#[no_mangle]
pub extern "C" fn h_filter_map() {
    no_leak(|| {
        let m = vm();
        let f = |x: u32| if x & 1 == 0 { Some(x.wrapping_mul(3) ^ 7) } else { None };
        let mut s = Box::pin(u32_src(&m).filter_map(f));
        let mut out = vec![];
        fin(drive_vec(&mut s, &mut out, |f| f(&m.ctl), |out, end| {
            let want: Vec<u32> = m.model.borrow().iter().copied().filter_map(f).collect();
            same(out, &want, "filter_map: the output is not the mapped elements that are Some, in order");
            check(end == m.ctl.ended(), "filter_map: end does not agree with the input");
        }));
    })
}

// ------------------------------------------------------------------ C11
/// Elements are (key, number): the numbers tell equal keys apart.
/// At most 8 different keys occur, and only their order is looked at: three bits cover every case.
/// params: initial, changes, pendings; 3: n > 0: the keys repeat n arbitrary ones (for long vectors)
#[no_mangle]
pub extern "C" fn h_sort() {
    no_leak(|| {
        let m: Rc<VecModel<(u8, u32)>> = vm();
        let mut n = 0;
        let keys: Vec<u8> = (0..param(3)).map(|_| any_u8() & 7).collect();
        let src = VecSrc::new(&m, move || {
            n += 1;
            (if keys.is_empty() { any_u8() & 7 } else { keys[n as usize % keys.len()] }, n)
        }, |x: &(u8, u32)| *x);
        let mut s = Box::pin(src.sort_by_cloned(|a, b| a.0.cmp(&b.0)));
        let mut out = vec![];
        fin(drive_vec(&mut s, &mut out, |f| f(&m.ctl), |out: &mut Vec<(u8, u32)>, end| {
            // stable insertion sort of the model
            let mut want = m.model.borrow().clone();
            for i in 1..want.len() {
                let mut j = i;
                while j > 0 && want[j - 1].0 > want[j].0 {
                    want.swap(j - 1, j);
                    j -= 1;
                }
            }
            check(out.len() == want.len(), "sort_by_cloned: an element is lost or duplicated");
            let mut ok = true;
            for i in 0..want.len() {
                ok &= out[i].0 == want[i].0;
            }
            check(ok, "sort_by_cloned: the output is not sorted");
            for i in 0..want.len() {
                ok &= out[i].1 == want[i].1;
            }
            check(ok, "sort_by_cloned: equal elements are not in input order");
            check(end == m.ctl.ended(), "sort_by_cloned: end does not agree with the input");
        }));
    })
}

// ------------------------------------------------------------------ C12
/// params: left initial, left changes, left pendings, right initial, right changes, right pendings
#[no_mangle]
pub extern "C" fn h_chain() {
    no_leak(|| {
        let l: Rc<VecModel<u32>> = vm();
        let r: Rc<VecModel<u32>> = VecModel::new(param(3), param(4), param(5), true);
        let mut s = Box::pin(u32_src(&l).chain(u32_src(&r)));
        let mut out = vec![];
        fin(drive_vec(&mut s, &mut out, |f| {
            f(&l.ctl);
            f(&r.ctl);
        }, |out, end| {
            let mut want = l.model.borrow().clone();
            want.extend(r.model.borrow().iter().copied());
            same(out, &want, "chain: the output is not left followed by right");
            check(end == (l.ctl.ended() && r.ctl.ended()), "chain: end does not agree with the inputs");
        }));
    })
}

// ------------------------------------------------------------------ C13
/// params: outer initial, outer changes, outer pendings, inner initial, inner changes, inner pendings
#[no_mangle]
pub extern "C" fn h_flatten_vec() {
    no_leak(|| {
        type In = Rc<VecModel<u32>>;
        let m: Rc<VecModel<In>> = vm();
        let all: Rc<RefCell<Vec<In>>> = Rc::new(RefCell::new(vec![]));
        let a2 = all.clone();
        let src = VecSrc::new(&m, move || {
            let i: In = VecModel::inner(param(3), param(4), param(5));
            a2.borrow_mut().push(i.clone());
            i
        }, |h: &In| u32_src(h));
        let mut s = Box::pin(src.flatten());
        let mut out = vec![];
        fin(drive_vec(&mut s, &mut out, |f| {
            f(&m.ctl);
            for i in all.borrow().iter() {
                f(&i.ctl);
            }
        }, |out, end| {
            let mut want = vec![];
            let mut done = m.ctl.ended();
            for i in m.model.borrow().iter() {
                want.extend(i.model.borrow().iter().copied());
                done &= i.ctl.ended();
            }
            same(out, &want, "flatten: the output is not the concatenation of the inner vectors");
            check(end == done, "flatten: end does not agree with the inputs");
            for i in all.borrow().iter() {
                let current = m.model.borrow().iter().any(|x| Rc::ptr_eq(x, i));
                check(current || i.ctl.gone(), "kept: a removed inner vector is not dropped");
            }
        }));
        drop(s);
    })
}

// ------------------------------------------------------------------ C14
#[no_mangle]
pub extern "C" fn h_map_vec() {
    no_leak(|| {
        let m = vm();
        let f = |x: u32| x.wrapping_mul(5) ^ 0x1234;
        let calls = Rc::new(Cell::new(0));
        let c2 = calls.clone();
        let mut s = Box::pin(u32_src(&m).map(move |x| {
            c2.set(c2.get() + 1);
            f(x)
        }));
        let mut out = vec![];
        fin(drive_vec(&mut s, &mut out, |f| f(&m.ctl), |out, end| {
            let want: Vec<u32> = m.model.borrow().iter().copied().map(f).collect();
            same(out, &want, "map: the output is not the function applied to every element");
            check(calls.get() == m.arrived.get(), "map: the callback was not called once per element");
            check(end == m.ctl.ended(), "map: end does not agree with the input");
        }));
    })
}
#[no_mangle]
pub extern "C" fn h_enumerate() {
    no_leak(|| {
        let m = vm();
        let mut s = Box::pin(u32_src(&m).enumerate());
        let mut out: Vec<(ReadOnlyMutable<Option<usize>>, u32)> = vec![];
        // index signals of elements that were removed
        let mut removed: Vec<ReadOnlyMutable<Option<usize>>> = vec![];
        let mut n = 0;
        let ended = loop {
            n += 1;
            check(n < 64, "stall: enumerate makes no progress");
            match poll_with(|cx| s.as_mut().poll_vec_change(cx)) {
                Poll::Ready(Some(d)) => {
                    match &d {
                        VecDiff::Replace { .. } | VecDiff::Clear {} => removed.extend(out.iter().map(|x| x.0.clone())),
                        VecDiff::RemoveAt { index } if *index < out.len() => removed.push(out[*index].0.clone()),
                        VecDiff::Pop {} if out.len() > 0 => removed.push(out[out.len() - 1].0.clone()),
                        _ => {}
                    }
                    replay(&mut out, d);
                    let model = m.model.borrow();
                    check(out.len() == model.len(), "enumerate: wrong number of elements");
                    for i in 0..out.len() {
                        check(out[i].1 == model[i], "enumerate: wrong element");
                        check(out[i].0.get() == Some(i), "enumerate: an index signal does not show the element's position");
                    }
                    for x in removed.iter() {
                        check(x.get().is_none(), "enumerate: the index signal of a removed element does not show None");
                    }
                }
                Poll::Ready(None) => {
                    check(m.ctl.ended(), "enumerate: ended before its input");
                    break true;
                }
                Poll::Pending => {
                    check(!m.ctl.ended(), "enumerate: does not end with its input");
                    m.ctl.check_registered();
                    if m.ctl.quiet() {
                        break false;
                    }
                }
            }
        };
        fin(ended);
    })
}

// ------------------------------------------------------------------ C15
/// params: vector initial, changes, pendings, changes of every inner signal, pendings of every inner signal
#[no_mangle]
pub extern "C" fn h_map_signal() {
    no_leak(|| {
        type In = Rc<SigModel<u32>>;
        let m: Rc<VecModel<In>> = vm();
        let all: Rc<RefCell<Vec<In>>> = Rc::new(RefCell::new(vec![]));
        let a2 = all.clone();
        let src = VecSrc::new(&m, move || {
            let i = SigModel::inner(param(3), param(4));
            a2.borrow_mut().push(i.clone());
            i
        }, |h: &In| h.clone());
        let mut s = Box::pin(src.map_signal(|h| u32_sig(&h)));
        let mut out = vec![];
        fin(drive_vec(&mut s, &mut out, |f| {
            f(&m.ctl);
            for i in all.borrow().iter() {
                f(&i.ctl);
            }
        }, |out, end| {
            let mut want = vec![];
            let mut done = m.ctl.ended();
            for i in m.model.borrow().iter() {
                want.push(i.get().unwrap_or(0));
                done &= i.ctl.ended();
            }
            same(out, &want, "map_signal: the output is not the latest value of every element's signal");
            check(end == done, "map_signal: end does not agree with the inputs");
            for i in all.borrow().iter() {
                let current = m.model.borrow().iter().any(|x| Rc::ptr_eq(x, i));
                check(current || i.ctl.gone(), "kept: the signal of a removed element is not dropped");
            }
        }));
    })
}

// ------------------------------------------------------------------ C16
#[no_mangle]
pub extern "C" fn h_filter_signal() {
    no_leak(|| {
        type In = (u32, Rc<SigModel<bool>>);
        let m: Rc<VecModel<In>> = vm();
        let all: Rc<RefCell<Vec<In>>> = Rc::new(RefCell::new(vec![]));
        let a2 = all.clone();
        let src = VecSrc::new(&m, move || {
            let i = (a2.borrow().len() as u32, SigModel::inner(param(3), param(4)));
            a2.borrow_mut().push(i.clone());
            i
        }, |h: &In| h.clone());
        let mut s = Box::pin(src.filter_signal_cloned(|h| bool_sig(&h.1)));
        let mut out: Vec<In> = vec![];
        fin(drive_vec(&mut s, &mut out, |f| {
            f(&m.ctl);
            for i in all.borrow().iter() {
                f(&i.1.ctl);
            }
        }, |out, end| {
            let mut want = vec![];
            let mut done = m.ctl.ended();
            for i in m.model.borrow().iter() {
                if i.1.get().unwrap_or(false) {
                    want.push(i.0);
                }
                done &= i.1.ctl.ended();
            }
            let got: Vec<u32> = out.iter().map(|x| x.0).collect();
            same(&got, &want, "filter_signal_cloned: the output is not the elements whose signal is true, in order");
            check(end == done, "filter_signal_cloned: end does not agree with the inputs");
            for i in all.borrow().iter() {
                let current = m.model.borrow().iter().any(|x| x.0 == i.0);
                check(current || i.1.ctl.gone(), "kept: the signal of a removed element is not dropped");
            }
        }));
    })
}

// ------------------------------------------------------------------ C17
struct Unit(FutSrc);
impl Future for Unit {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> {
        Pin::new(&mut self.0).poll(cx).map(|_| ())
    }
}
/// params: vector initial, changes, pendings, pendings of every future
#[no_mangle]
pub extern "C" fn h_delay_remove() {
    no_leak(|| {
        type In = (u32, Rc<FutModel>);
        let m: Rc<VecModel<In>> = vm();
        let all: Rc<RefCell<Vec<In>>> = Rc::new(RefCell::new(vec![]));
        let a2 = all.clone();
        let src = VecSrc::new(&m, move || {
            let i = (a2.borrow().len() as u32, FutModel::new(param(3)));
            a2.borrow_mut().push(i.clone());
            i
        }, |h: &In| h.clone());
        let mut s = Box::pin(src.delay_remove(|h| Unit(FutSrc::new(&h.1))));
        let mut out: Vec<In> = vec![];
        fin(drive_vec(&mut s, &mut out, |f| {
            f(&m.ctl);
            for i in all.borrow().iter() {
                let removed = !m.model.borrow().iter().any(|x| x.0 == i.0);
                if removed {
                    f(&i.1.ctl);
                } else {
                    check(i.1.ctl.last.get() == Last::Never, "delay_remove: the future of a present element is polled");
                }
            }
        }, |out, end| {
            let model = m.model.borrow();
            let is_in = |id: u32| model.iter().any(|x| x.0 == id);
            let mut live = m.ctl.ended();
            // elements still in the input, in input order
            let got: Vec<u32> = out.iter().map(|x| x.0).filter(|x| is_in(*x)).collect();
            let want: Vec<u32> = model.iter().map(|x| x.0).collect();
            same(&got, &want, "delay_remove: the present elements are not in the input's order");
            for i in all.borrow().iter() {
                if is_in(i.0) {
                    continue;
                }
                let n = out.iter().filter(|x| x.0 == i.0).count();
                // an element replaced by an update is gone at once (its future is dropped)
                let kept = !i.1.ctl.gone();
                if i.1.done() {
                    check(n == 0, "delay_remove: an element remains although its future completed");
                } else if kept {
                    check(n == 1, "delay_remove: a removed element disappeared before its future completed");
                    live = false;
                } else {
                    check(n == 0, "delay_remove: an element remains without its future");
                    check(m.updated.borrow().iter().any(|x| x.0 == i.0), "delay_remove: a removed element disappeared before its future completed");
                }
            }
            check(end == live, "delay_remove: end does not agree with the inputs");
        }));
    })
}

// ------------------------------------------------------------------ C18
/// shared checks of a summary: the value is right at every Pending and at the end
/// and no value is yielded without a change
fn summary<S: Signal<Item = u32>>(m: &Rc<VecModel<u32>>, s: S, f: impl Fn(&[u32]) -> u32, dedupe: bool) {
    let mut s = Box::pin(s);
    let cur: Cell<Option<u32>> = Cell::new(None);
    let changes = Cell::new(0);
    fin(drive_sig(&mut s, |v| {
        if let Some(l) = cur.get() {
            if dedupe {
                check(v != l, "summary: the same value is yielded twice in a row");
            }
            check(changes.get() != m.changes.get(), "summary: a value is yielded although nothing changed");
        }
        changes.set(m.changes.get());
        cur.set(Some(v));
    }, |g| g(&m.ctl), |end| {
        let model = m.model.borrow();
        match cur.get() {
            Some(v) => check(v == f(&model), "summary: the value does not agree with the vector"),
            None => fail("summary: no first value"),
        }
        check(end == m.ctl.ended(), "summary: end does not agree with the input");
    }));
}
#[no_mangle]
pub extern "C" fn h_len() {
    no_leak(|| {
        let m = vm();
        let s = u32_src(&m).len();
        summary(&m, futures_signals::signal::SignalExt::map(s, |x| x as u32), |v| v.len() as u32, false);
    })
}
#[no_mangle]
pub extern "C" fn h_is_empty() {
    no_leak(|| {
        let m = vm();
        let s = u32_src(&m).is_empty();
        summary(&m, futures_signals::signal::SignalExt::map(s, |x| x as u32), |v| v.is_empty() as u32, true);
    })
}
/// a wrapping sum, so that arbitrary values can be added
#[derive(Clone, Copy, PartialEq)]
struct W(u32);
impl<'a> std::iter::Sum<&'a W> for W {
    fn sum<I: Iterator<Item = &'a W>>(i: I) -> W {
        i.fold(W(0), |a, b| W(a.0.wrapping_add(b.0)))
    }
}
#[no_mangle]
pub extern "C" fn h_sum() {
    no_leak(|| {
        let m = vm();
        let s = VecSrc::new(&m, any_u32, |x: &u32| W(*x)).sum();
        summary(&m, futures_signals::signal::SignalExt::map(s, |x| x.0), |v| v.iter().fold(0u32, |a, b| a.wrapping_add(*b)), false);
    })
}
fn hash(v: &[u32]) -> u32 {
    // injective enough for the solver to find any difference of order or content
    v.iter().fold(v.len() as u32, |a, b| a.rotate_left(5) ^ *b)
}
#[no_mangle]
pub extern "C" fn h_to_signal_map() {
    no_leak(|| {
        let m = vm();
        let s = u32_src(&m).to_signal_map(hash);
        summary(&m, s, hash, false);
    })
}
#[no_mangle]
pub extern "C" fn h_to_signal_cloned() {
    no_leak(|| {
        let m = vm();
        let mut s = Box::pin(u32_src(&m).to_signal_cloned());
        let cur: RefCell<Option<Vec<u32>>> = RefCell::new(None);
        fin(drive_sig(&mut s, |v| *cur.borrow_mut() = Some(v), |g| g(&m.ctl), |end| {
            let model = m.model.borrow();
            match &*cur.borrow() {
                Some(v) => same(v, &model, "to_signal_cloned: the value is not the vector's contents"),
                None => fail("to_signal_cloned: no first value"),
            }
            check(end == m.ctl.ended(), "to_signal_cloned: end does not agree with the input");
        }));
    })
}

// ------------------------------------------------------------------ C19
/// params: outer changes, outer pendings, inner initial, inner changes, inner pendings
#[no_mangle]
pub extern "C" fn h_switch_signal_vec() {
    no_leak(|| {
        type In = Rc<VecModel<u32>>;
        let m: Rc<SigModel<In>> = SigModel::new(param(0), param(1), param(12) & 2 == 0);
        let all: Rc<RefCell<Vec<In>>> = Rc::new(RefCell::new(vec![]));
        let a2 = all.clone();
        let src = SigSrc::new(&m, move || {
            let i: In = VecModel::inner(param(2), param(3), param(4));
            a2.borrow_mut().push(i.clone());
            i
        }, |h: &In| h.clone());
        let mut s = Box::pin(futures_signals::signal::SignalExt::switch_signal_vec(src, |h| u32_src(&h)));
        let mut out = vec![];
        fin(drive_vec(&mut s, &mut out, |f| {
            f(&m.ctl);
            for i in all.borrow().iter() {
                f(&i.ctl);
            }
        }, |out, end| {
            let cur = m.get();
            let (want, done) = match &cur {
                Some(i) => (i.model.borrow().clone(), i.ctl.ended()),
                None => (vec![], true),
            };
            same(out, &want, "switch_signal_vec: the output is not the contents of the current inner vector");
            check(end == (done && m.ctl.ended()), "switch_signal_vec: end does not agree with the inputs");
            for i in all.borrow().iter() {
                check(cur.as_ref().map_or(false, |c| Rc::ptr_eq(c, i)) || i.ctl.gone(), "kept: a replaced inner vector is not dropped");
            }
        }));
    })
}
/// params: changes, pendings, max vector length
#[no_mangle]
pub extern "C" fn h_sig_to_signal_vec() {
    no_leak(|| {
        let m: Rc<SigModel<Vec<u32>>> = SigModel::new(param(0), param(1), param(12) & 2 == 0);
        let src = SigSrc::new(&m, || {
            let n = pick(0, param(2));
            (0..n).map(|_| any_u32()).collect::<Vec<u32>>()
        }, |h: &Vec<u32>| h.clone());
        let mut s = Box::pin(futures_signals::signal::SignalExt::to_signal_vec(src));
        let mut out = vec![];
        fin(drive_vec(&mut s, &mut out, |f| f(&m.ctl), |out, end| {
            same(out, &m.get().unwrap_or_default(), "to_signal_vec: the output is not the latest vector");
            check(end == m.ctl.ended(), "to_signal_vec: end does not agree with the input");
        }));
    })
}
/// params: items, pendings
#[no_mangle]
pub extern "C" fn h_vec_from_stream() {
    no_leak(|| {
        let m: Rc<SigModel<u32>> = SigModel::lax(param(0), param(1), true);
        let got: Rc<RefCell<Vec<u32>>> = Rc::new(RefCell::new(vec![]));
        let g2 = got.clone();
        let src = SigSrc::new(&m, move || {
            let v = any_u32();
            g2.borrow_mut().push(v);
            v
        }, |h: &u32| *h);
        let mut s = Box::pin(from_stream(src));
        let mut out = vec![];
        fin(drive_vec(&mut s, &mut out, |f| f(&m.ctl), |out, end| {
            same(out, &got.borrow(), "from_stream: the output is not the items received so far");
            check(end == m.ctl.ended(), "from_stream: end does not agree with the input");
        }));
    })
}
/// params: length
#[no_mangle]
pub extern "C" fn h_vec_always() {
    no_leak(|| {
        let n = pick(0, param(0));
        let want: Vec<u32> = (0..n).map(|_| any_u32()).collect();
        let mut s = Box::pin(always(want.clone()));
        let mut out = vec![];
        let ended = drive_vec(&mut s, &mut out, |_| {}, |out, _| same(out, &want, "always: wrong contents"));
        check(ended, "always: does not end");
        fin(ended);
    })
}
/// to_stream passes every change on unchanged. params: initial, changes, pendings
#[no_mangle]
pub extern "C" fn h_vec_to_stream() {
    no_leak(|| {
        let m = vm();
        let mut s = Box::pin(u32_src(&m).to_stream());
        let mut out: Vec<u32> = vec![];
        let mut n = 0;
        let ended = loop {
            n += 1;
            check(n < 64, "stall: to_stream makes no progress");
            match poll_with(|cx| futures_core::Stream::poll_next(s.as_mut(), cx)) {
                Poll::Ready(Some(d)) => {
                    replay(&mut out, d);
                    same(&out, &m.model.borrow(), "to_stream: a change is lost or altered");
                }
                Poll::Ready(None) => {
                    check(m.ctl.ended(), "to_stream: ended before its input");
                    break true;
                }
                Poll::Pending => {
                    check(!m.ctl.ended(), "to_stream: does not end with its input");
                    m.ctl.check_registered();
                    if m.ctl.quiet() {
                        break false;
                    }
                }
            }
        };
        fin(ended);
    })
}
