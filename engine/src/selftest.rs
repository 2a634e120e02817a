//! Validates the expression simplifier and the Z3 translation: random expressions are built both
//! concretely and symbolically; the simplified expression must evaluate to the concrete result, and Z3
//! must agree that it cannot differ from it.
use crate::expr::*;
use crate::ir::*;
use crate::z3::{Res, Z3};
use std::collections::HashMap;

struct Rng(u64);
impl Rng {
    fn n(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    fn k(&mut self, n: u64) -> u64 {
        self.n() % n
    }
}

pub fn run() {
    let mut r = Rng(0x9E3779B97F4A7C15);
    let mut z = Z3::new(5000);
    let mut ar = Arena::new();
    let ws = [1u32, 8, 16, 32, 64];
    let mut bad = 0;
    let rounds = 3000;
    for round in 0..rounds {
        if round % 300 == 0 {
            ar = Arena::new();
            z.reset();
        }
        // pool of (expr, concrete)
        let mut pool: Vec<(Ex, u128)> = vec![];
        let mut model = vec![];
        for i in 0..6u32 {
            let w = ws[(i % 5) as usize];
            let v = if r.k(2) == 0 { r.k(4) as u128 } else { mask(w, r.n() as u128) };
            let v = mask(w, v);
            model.push(v);
            let e = ar.var(i, w);
            pool.push((e, v));
        }
        for _ in 0..4 {
            let w = ws[r.k(5) as usize];
            let v = mask(w, if r.k(2) == 0 { r.k(3) as u128 } else { r.n() as u128 });
            let e = ar.cst(w, v);
            pool.push((e, v));
        }
        let ops = [BinOp::Add, BinOp::Sub, BinOp::Mul, BinOp::Shl, BinOp::LShr, BinOp::AShr, BinOp::And, BinOp::Or, BinOp::Xor, BinOp::UDiv, BinOp::URem];
        let preds = [Pred::Eq, Pred::Ne, Pred::Ult, Pred::Ule, Pred::Ugt, Pred::Uge, Pred::Slt, Pred::Sle, Pred::Sgt, Pred::Sge];
        for _ in 0..30 {
            let (a, x) = pool[r.k(pool.len() as u64) as usize];
            let aw = ar.w(a);
            let same: Vec<(Ex, u128)> = pool.iter().copied().filter(|p| ar.w(p.0) == aw).collect();
            let (b, y) = same[r.k(same.len() as u64) as usize];
            let (e, v) = match r.k(7) {
                0 | 1 => {
                    let op = ops[r.k(ops.len() as u64) as usize];
                    if matches!(op, BinOp::UDiv | BinOp::URem) && (y == 0 || aw > 16) {
                        continue;
                    }
                    if op == BinOp::Mul && aw > 16 {
                        continue;
                    }
                    (ar.bin(op, a, b), cbin(op, aw, x, y).unwrap())
                }
                2 => {
                    let p = preds[r.k(10) as usize];
                    (ar.cmp(p, a, b), ccmp(p, aw, x, y) as u128)
                }
                3 => {
                    let bs: Vec<(Ex, u128)> = pool.iter().copied().filter(|p| ar.w(p.0) == 1).collect();
                    if bs.is_empty() {
                        continue;
                    }
                    let (c, cv) = bs[r.k(bs.len() as u64) as usize];
                    (ar.ite(c, a, b), if cv == 1 { x } else { y })
                }
                4 => {
                    let w = ws[r.k(5) as usize];
                    if w < aw {
                        continue;
                    }
                    if r.k(2) == 0 {
                        (ar.zext(a, w), x)
                    } else {
                        (ar.sext(a, w), mask(w, sx(aw, x) as u128))
                    }
                }
                5 => {
                    let w = ws[r.k(5) as usize].min(aw);
                    let lo = r.k((aw - w + 1) as u64) as u32;
                    (ar.extract(a, lo, w), mask(w, x >> lo))
                }
                _ => {
                    if aw * 2 > 64 {
                        continue;
                    }
                    (ar.concat(a, b), (x << aw) | y)
                }
            };
            let mut memo = HashMap::default();
            let got = ar.eval(e, &model, &mut memo);
            if got != v {
                bad += 1;
                println!("MISMATCH eval {:?} got {} want {}", ar.n(e), got, v);
            }
            pool.push((e, v));
        }
        // Z3 agrees: under var == model, every pool value is forced
        let mut cs = vec![];
        for i in 0..6u32 {
            let w = ws[(i % 5) as usize];
            let x = ar.var(i, w);
            let k = ar.cst(w, model[i as usize]);
            let c = ar.cmp(Pred::Eq, x, k);
            if ar.as_const(c).is_none() {
                cs.push(c);
            }
        }
        if round % 10 == 0 {
            let (e, v) = *pool.last().unwrap();
            let w = ar.w(e);
            let k = ar.cst(w, v);
            let ne = ar.cmp(Pred::Ne, e, k);
            if ar.as_const(ne).is_none() {
                let mut q = cs.clone();
                q.push(ne);
                if !matches!(z.solve(&ar, &q, &[]), Res::Unsat) {
                    bad += 1;
                    println!("MISMATCH z3 {:?}", ar.n(e));
                }
            } else if ar.as_const(ne) == Some(1) {
                bad += 1;
            }
        }
    }
    println!("selftest: {} rounds, {} mismatches", rounds, bad);
    if bad > 0 {
        std::process::exit(1)
    }
}
