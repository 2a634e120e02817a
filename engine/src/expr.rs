//! Hash-consed bit-vector expressions with local simplification, and concrete evaluation.
use crate::ir::{BinOp, Pred};
use std::collections::HashMap;
use std::rc::Rc;

pub type Ex = u32; // 0 = none

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    None,
    Const(u128),
    Var(u32),
    Bin(BinOp, Ex, Ex),
    Cmp(Pred, Ex, Ex),
    Ite(Ex, Ex, Ex),
    ZExt(Ex),
    SExt(Ex),
    Extract(Ex, u32),
    Concat(Ex, Ex), // hi, lo
}

pub struct Arena {
    pub nodes: Vec<(N, u32)>,
    pub hash: Vec<u64>,
    /// like hash, but blind to the names of variables
    pub shape: Vec<u64>,
    pub vars: Vec<Rc<[u32]>>,
    map: HashMap<(N, u32), Ex, FxB>,
}

#[derive(Clone, Copy, Default)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}
pub type FxB = std::hash::BuildHasherDefault<Fx>;

pub fn mask(w: u32, v: u128) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}
pub fn sx(w: u32, v: u128) -> i128 {
    let s = 128 - w;
    ((v << s) as i128) >> s
}

pub fn cbin(op: BinOp, w: u32, a: u128, b: u128) -> Option<u128> {
    use BinOp::*;
    Some(mask(
        w,
        match op {
            Add => a.wrapping_add(b),
            Sub => a.wrapping_sub(b),
            Mul => a.wrapping_mul(b),
            UDiv => {
                if b == 0 {
                    return None;
                }
                a / b
            }
            URem => {
                if b == 0 {
                    return None;
                }
                a % b
            }
            SDiv => {
                if b == 0 {
                    return None;
                }
                sx(w, a).wrapping_div(sx(w, b)) as u128
            }
            SRem => {
                if b == 0 {
                    return None;
                }
                sx(w, a).wrapping_rem(sx(w, b)) as u128
            }
            Shl => {
                if b >= w as u128 {
                    0
                } else {
                    a << b
                }
            }
            LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            AShr => {
                let b = b.min(w as u128 - 1);
                (sx(w, a) >> b) as u128
            }
            And => a & b,
            Or => a | b,
            Xor => a ^ b,
        },
    ))
}
pub fn ccmp(p: Pred, w: u32, a: u128, b: u128) -> bool {
    use Pred::*;
    match p {
        Eq => a == b,
        Ne => a != b,
        Ult => a < b,
        Ule => a <= b,
        Ugt => a > b,
        Uge => a >= b,
        Slt => sx(w, a) < sx(w, b),
        Sle => sx(w, a) <= sx(w, b),
        Sgt => sx(w, a) > sx(w, b),
        Sge => sx(w, a) >= sx(w, b),
    }
}
pub fn neg_pred(p: Pred) -> Pred {
    use Pred::*;
    match p {
        Eq => Ne,
        Ne => Eq,
        Ult => Uge,
        Ule => Ugt,
        Ugt => Ule,
        Uge => Ult,
        Slt => Sge,
        Sle => Sgt,
        Sgt => Sle,
        Sge => Slt,
    }
}

impl Arena {
    pub fn new() -> Self {
        Arena { nodes: vec![(N::None, 0)], hash: vec![0], shape: vec![0], vars: vec![Rc::from(vec![])], map: HashMap::default() }
    }
    pub fn w(&self, e: Ex) -> u32 {
        self.nodes[e as usize].1
    }
    pub fn n(&self, e: Ex) -> N {
        self.nodes[e as usize].0
    }
    pub fn as_const(&self, e: Ex) -> Option<u128> {
        match self.nodes[e as usize].0 {
            N::Const(v) => Some(v),
            _ => None,
        }
    }
    fn intern(&mut self, n: N, w: u32) -> Ex {
        if let Some(e) = self.map.get(&(n, w)) {
            return *e;
        }
        let id = self.nodes.len() as Ex;
        use std::hash::Hasher;
        let mut h = Fx(w as u64);
        let hs = |s: &Self, e: Ex| s.hash[e as usize];
        let vars: Rc<[u32]> = match n {
            N::None => Rc::from(vec![]),
            N::Const(v) => {
                h.write_u64(1);
                h.write_u128(v);
                self.vars[0].clone()
            }
            N::Var(i) => {
                h.write_u64(2);
                h.write_u32(i);
                Rc::from(vec![i])
            }
            N::Bin(o, a, b) => {
                h.write_u64(3 + ((o as u64) << 8));
                h.write_u64(hs(self, a));
                h.write_u64(hs(self, b));
                self.join(a, b)
            }
            N::Cmp(o, a, b) => {
                h.write_u64(4 + ((o as u64) << 8));
                h.write_u64(hs(self, a));
                h.write_u64(hs(self, b));
                self.join(a, b)
            }
            N::Ite(c, a, b) => {
                h.write_u64(5);
                h.write_u64(hs(self, c));
                h.write_u64(hs(self, a));
                h.write_u64(hs(self, b));
                let v = self.join(a, b);
                self.join2(v, c)
            }
            N::ZExt(a) => {
                h.write_u64(6);
                h.write_u64(hs(self, a));
                self.vars[a as usize].clone()
            }
            N::SExt(a) => {
                h.write_u64(7);
                h.write_u64(hs(self, a));
                self.vars[a as usize].clone()
            }
            N::Extract(a, lo) => {
                h.write_u64(8 + ((lo as u64) << 8));
                h.write_u64(hs(self, a));
                self.vars[a as usize].clone()
            }
            N::Concat(a, b) => {
                h.write_u64(9);
                h.write_u64(hs(self, a));
                h.write_u64(hs(self, b));
                self.join(a, b)
            }
        };
        let sh = self.shape_of(n, w);
        self.shape.push(sh);
        self.nodes.push((n, w));
        self.hash.push(h.finish());
        self.vars.push(vars);
        self.map.insert((n, w), id);
        id
    }
    fn shape_of(&self, n: N, w: u32) -> u64 {
        use std::hash::Hasher;
        let mut h = Fx::default();
        let sh = |e: Ex| self.shape[e as usize];
        h.write_u64(w as u64);
        match n {
            N::None => {}
            N::Const(v) => {
                h.write_u64(1);
                h.write_u128(v);
            }
            N::Var(_) => h.write_u64(2),
            N::Bin(op, a, b) => {
                h.write_u64(3 + ((op as u64) << 8));
                h.write_u64(sh(a));
                h.write_u64(sh(b));
            }
            N::Cmp(p, a, b) => {
                h.write_u64(4 + ((p as u64) << 8));
                h.write_u64(sh(a));
                h.write_u64(sh(b));
            }
            N::Ite(c, a, b) => {
                h.write_u64(5);
                h.write_u64(sh(c));
                h.write_u64(sh(a));
                h.write_u64(sh(b));
            }
            N::ZExt(a) => {
                h.write_u64(6);
                h.write_u64(sh(a));
            }
            N::SExt(a) => {
                h.write_u64(7);
                h.write_u64(sh(a));
            }
            N::Extract(a, lo) => {
                h.write_u64(8 + ((lo as u64) << 8));
                h.write_u64(sh(a));
            }
            N::Concat(a, b) => {
                h.write_u64(9);
                h.write_u64(sh(a));
                h.write_u64(sh(b));
            }
        }
        h.finish()
    }
    /// The set of constraints as a string in which the variables are numbered by first occurrence, and the
    /// variables in that order. Equal strings mean equal constraints up to the names of the variables.
    pub fn canon(&self, cs: &[Ex]) -> (Box<[u32]>, Vec<u32>) {
        let mut v = cs.to_vec();
        v.sort_by_key(|e| (self.shape[*e as usize], *e));
        let mut t = vec![];
        let mut vars = vec![];
        let mut seen: HashMap<Ex, u32, FxB> = HashMap::default();
        for e in v {
            self.canon1(e, &mut t, &mut vars, &mut seen);
        }
        (t.into_boxed_slice(), vars)
    }
    fn canon1(&self, e: Ex, t: &mut Vec<u32>, vars: &mut Vec<u32>, seen: &mut HashMap<Ex, u32, FxB>) {
        let (n, w) = self.nodes[e as usize];
        if let Some(i) = seen.get(&e) {
            t.extend([0xffff_0000, *i]);
            return;
        }
        let i = seen.len() as u32;
        seen.insert(e, i);
        let mut kids = [0; 3];
        let k: &[Ex] = match n {
            N::None => &[],
            N::Const(v) => {
                t.extend([1, w, v as u32, (v >> 32) as u32, (v >> 64) as u32, (v >> 96) as u32]);
                &[]
            }
            N::Var(x) => {
                t.extend([2, w, vars.len() as u32]);
                vars.push(x);
                &[]
            }
            N::Bin(op, a, b) => {
                t.extend([3, w, op as u32]);
                kids = [a, b, 0];
                &kids[..2]
            }
            N::Cmp(p, a, b) => {
                t.extend([4, w, p as u32]);
                kids = [a, b, 0];
                &kids[..2]
            }
            N::Ite(c, a, b) => {
                t.extend([5, w]);
                kids = [c, a, b];
                &kids
            }
            N::ZExt(a) => {
                t.extend([6, w]);
                kids[0] = a;
                &kids[..1]
            }
            N::SExt(a) => {
                t.extend([7, w]);
                kids[0] = a;
                &kids[..1]
            }
            N::Extract(a, lo) => {
                t.extend([8, w, lo]);
                kids[0] = a;
                &kids[..1]
            }
            N::Concat(a, b) => {
                t.extend([9, w]);
                kids = [a, b, 0];
                &kids[..2]
            }
        };
        for x in k {
            self.canon1(*x, t, vars, seen);
        }
    }
    fn join(&self, a: Ex, b: Ex) -> Rc<[u32]> {
        self.join2(self.vars[a as usize].clone(), b)
    }
    fn join2(&self, va: Rc<[u32]>, b: Ex) -> Rc<[u32]> {
        let vb = &self.vars[b as usize];
        if vb.is_empty() || Rc::ptr_eq(&va, vb) || va == *vb {
            return va;
        }
        if va.is_empty() {
            return vb.clone();
        }
        let mut v: Vec<u32> = va.iter().chain(vb.iter()).copied().collect();
        v.sort_unstable();
        v.dedup();
        if v.len() == va.len() {
            return va;
        }
        if v.len() == vb.len() {
            return vb.clone();
        }
        Rc::from(v)
    }
    pub fn cst(&mut self, w: u32, v: u128) -> Ex {
        self.intern(N::Const(mask(w, v)), w)
    }
    pub fn var(&mut self, i: u32, w: u32) -> Ex {
        self.intern(N::Var(i), w)
    }
    pub fn bin(&mut self, op: BinOp, a: Ex, b: Ex) -> Ex {
        use BinOp::*;
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(r) = cbin(op, w, x, y) {
                return self.cst(w, r);
            }
        }
        let ones = mask(w, u128::MAX);
        match op {
            Add => {
                if cb == Some(0) {
                    return a;
                }
                if ca == Some(0) {
                    return b;
                }
                if let (Some(c), N::Bin(Add, x, y)) = (cb, self.n(a)) {
                    if let Some(d) = self.as_const(y) {
                        let k = self.cst(w, c.wrapping_add(d));
                        return self.bin(Add, x, k);
                    }
                }
                if ca.is_some() {
                    return self.bin(Add, b, a);
                }
            }
            Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.cst(w, 0);
                }
                if let Some(c) = cb {
                    let k = self.cst(w, (0u128).wrapping_sub(c));
                    return self.bin(Add, a, k);
                }
            }
            Mul => {
                if ca.is_some() {
                    return self.bin(Mul, b, a);
                }
                match cb {
                    Some(0) => return b,
                    Some(1) => return a,
                    _ => {}
                }
            }
            UDiv => {
                if cb == Some(1) {
                    return a;
                }
            }
            Shl | LShr | AShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(c) = cb {
                    if op != AShr && c >= w as u128 {
                        return self.cst(w, 0);
                    }
                    // lshr as extract+zext helps byte-wise code
                    if op == LShr && c < w as u128 {
                        let x = self.extract(a, c as u32, w - c as u32);
                        return self.zext(x, w);
                    }
                }
            }
            And => {
                if a == b {
                    return a;
                }
                if ca.is_some() {
                    return self.bin(And, b, a);
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return b;
                    }
                    if c == ones {
                        return a;
                    }
                    // low mask
                    if (c & (c + 1)) == 0 {
                        let k = c.count_ones();
                        let x = self.extract(a, 0, k);
                        return self.zext(x, w);
                    }
                }
            }
            Or => {
                if a == b {
                    return a;
                }
                if ca.is_some() {
                    return self.bin(Or, b, a);
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c == ones {
                        return b;
                    }
                }
            }
            Xor => {
                if a == b {
                    return self.cst(w, 0);
                }
                if ca.is_some() {
                    return self.bin(Xor, b, a);
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if w == 1 {
                        return self.not(a);
                    }
                }
            }
            _ => {}
        }
        if w == 1 {
            if op == Add {
                return self.bin(Xor, a, b);
            }
        }
        let (a, b) = if matches!(op, Add | Mul | And | Or | Xor) && self.after(a, b) && self.as_const(b).is_none() { (b, a) } else { (a, b) };
        self.intern(N::Bin(op, a, b), w)
    }
    /// canonical operand order, independent of the order in which this arena met the expressions
    fn after(&self, a: Ex, b: Ex) -> bool {
        (self.hash[a as usize], a) > (self.hash[b as usize], b)
    }
    pub fn not(&mut self, a: Ex) -> Ex {
        match self.n(a) {
            N::Const(v) => self.cst(1, 1 - v),
            N::Cmp(p, x, y) => self.cmp(neg_pred(p), x, y),
            N::Bin(BinOp::Xor, x, y) if self.as_const(y) == Some(1) => x,
            N::Ite(c, x, y) if self.w(a) == 1 => {
                let nx = self.not(x);
                let ny = self.not(y);
                self.ite(c, nx, ny)
            }
            _ => {
                let one = self.cst(1, 1);
                self.intern(N::Bin(BinOp::Xor, a, one), 1)
            }
        }
    }
    pub fn cmp(&mut self, p: Pred, a: Ex, b: Ex) -> Ex {
        use Pred::*;
        let w = self.w(a);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.cst(1, ccmp(p, w, x, y) as u128);
        }
        if a == b {
            return self.cst(1, matches!(p, Eq | Ule | Uge | Sle | Sge) as u128);
        }
        if ca.is_some() {
            let q = match p {
                Eq => Eq,
                Ne => Ne,
                Ult => Ugt,
                Ule => Uge,
                Ugt => Ult,
                Uge => Ule,
                Slt => Sgt,
                Sle => Sge,
                Sgt => Slt,
                Sge => Sle,
            };
            return self.cmp(q, b, a);
        }
        // canonical: only Eq, Ult, Ule, Slt, Sle, and negated forms via Ne/…; keep predicates but fold easy ones
        if let Some(c) = cb {
            let ones = mask(w, u128::MAX);
            match p {
                Ult if c == 0 => return self.cst(1, 0),
                Uge if c == 0 => return self.cst(1, 1),
                Ugt if c == ones => return self.cst(1, 0),
                Ule if c == ones => return self.cst(1, 1),
                Ult if c == 1 => {
                    let z = self.cst(w, 0);
                    return self.cmp(Eq, a, z);
                }
                Ugt if c == 0 => return self.cmp(Ne, a, b),
                Ule if c == 0 => return self.cmp(Eq, a, b),
                Uge if c == 1 => {
                    let z = self.cst(w, 0);
                    return self.cmp(Ne, a, z);
                }
                // normalise non-strict with constants to strict
                Ule => {
                    let k = self.cst(w, c + 1);
                    return self.cmp(Ult, a, k);
                }
                Ugt => {
                    let k = self.cst(w, c + 1);
                    return self.cmp(Uge, a, k);
                }
                _ => {}
            }
            match self.n(a) {
                N::ZExt(x) => {
                    let xw = self.w(x);
                    let fits = c <= mask(xw, u128::MAX);
                    match p {
                        Eq | Ne => {
                            if !fits {
                                return self.cst(1, (p == Ne) as u128);
                            }
                            let k = self.cst(xw, c);
                            return self.cmp(p, x, k);
                        }
                        Ult => {
                            if !fits {
                                return self.cst(1, 1);
                            }
                            let k = self.cst(xw, c);
                            return self.cmp(p, x, k);
                        }
                        Uge => {
                            if !fits {
                                return self.cst(1, 0);
                            }
                            let k = self.cst(xw, c);
                            return self.cmp(p, x, k);
                        }
                        _ => {}
                    }
                }
                N::SExt(x) if matches!(p, Eq | Ne) => {
                    let xw = self.w(x);
                    let k = mask(xw, c);
                    if mask(w, sx(xw, k) as u128) != c {
                        return self.cst(1, (p == Ne) as u128);
                    }
                    let k = self.cst(xw, k);
                    return self.cmp(p, x, k);
                }
                N::Bin(BinOp::Add, x, y) if matches!(p, Eq | Ne) => {
                    if let Some(d) = self.as_const(y) {
                        let k = self.cst(w, c.wrapping_sub(d));
                        return self.cmp(p, x, k);
                    }
                }
                N::Bin(BinOp::Xor, x, y) if matches!(p, Eq | Ne) => {
                    if let Some(d) = self.as_const(y) {
                        let k = self.cst(w, c ^ d);
                        return self.cmp(p, x, k);
                    }
                }
                N::Ite(cc, x, y) => {
                    let (cx, cy) = (self.as_const(x), self.as_const(y));
                    if cx.is_some() || cy.is_some() {
                        let px = self.cmp(p, x, b);
                        let py = self.cmp(p, y, b);
                        return self.ite(cc, px, py);
                    }
                }
                N::Concat(h, l) if matches!(p, Eq | Ne) => {
                    let lw = self.w(l);
                    let hw = w - lw;
                    if self.as_const(h).is_some() || self.as_const(l).is_some() {
                        let kh = self.cst(hw, c >> lw);
                        let kl = self.cst(lw, c);
                        let e1 = self.cmp(Eq, h, kh);
                        let e2 = self.cmp(Eq, l, kl);
                        let r = self.bin(BinOp::And, e1, e2);
                        return if p == Eq { r } else { self.not(r) };
                    }
                }
                _ => {}
            }
            if w == 1 && matches!(p, Eq | Ne) {
                return if (c == 1) == (p == Eq) { a } else { self.not(a) };
            }
        } else {
            match (self.n(a), self.n(b)) {
                (N::ZExt(x), N::ZExt(y)) if self.w(x) == self.w(y) && matches!(p, Eq | Ne | Ult | Ule | Ugt | Uge) => return self.cmp(p, x, y),
                (N::SExt(x), N::SExt(y)) if self.w(x) == self.w(y) => return self.cmp(p, x, y),
                _ => {}
            }
            // orient
            match p {
                Ugt => return self.cmp(Ult, b, a),
                Uge => return self.cmp(Ule, b, a),
                Sgt => return self.cmp(Slt, b, a),
                Sge => return self.cmp(Sle, b, a),
                Eq | Ne if self.after(a, b) => return self.intern(N::Cmp(p, b, a), 1),
                _ => {}
            }
        }
        self.intern(N::Cmp(p, a, b), 1)
    }
    pub fn ite(&mut self, c: Ex, a: Ex, b: Ex) -> Ex {
        if let Some(v) = self.as_const(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(BinOp::Or, c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.bin(BinOp::And, nc, b);
                }
                (None, Some(0)) => return self.bin(BinOp::And, c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(BinOp::Or, nc, a);
                }
                _ => {}
            }
        }
        self.intern(N::Ite(c, a, b), w)
    }
    pub fn zext(&mut self, a: Ex, w: u32) -> Ex {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        match self.n(a) {
            N::Const(v) => return self.cst(w, v),
            N::ZExt(x) => return self.zext(x, w),
            _ => {}
        }
        self.intern(N::ZExt(a), w)
    }
    pub fn sext(&mut self, a: Ex, w: u32) -> Ex {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        match self.n(a) {
            N::Const(v) => return self.cst(w, sx(aw, v) as u128),
            N::SExt(x) => return self.sext(x, w),
            N::ZExt(x) => return self.zext(x, w),
            _ => {}
        }
        self.intern(N::SExt(a), w)
    }
    pub fn extract(&mut self, a: Ex, lo: u32, w: u32) -> Ex {
        let aw = self.w(a);
        if lo == 0 && w == aw {
            return a;
        }
        match self.n(a) {
            N::Const(v) => return self.cst(w, v >> lo),
            N::Extract(x, l2) => return self.extract(x, l2 + lo, w),
            N::ZExt(x) => {
                let xw = self.w(x);
                if lo >= xw {
                    return self.cst(w, 0);
                }
                if lo + w <= xw {
                    return self.extract(x, lo, w);
                }
                let y = self.extract(x, lo, xw - lo);
                return self.zext(y, w);
            }
            N::SExt(x) => {
                let xw = self.w(x);
                if lo + w <= xw {
                    return self.extract(x, lo, w);
                }
                if lo == 0 {
                    return self.sext(x, w);
                }
            }
            N::Concat(h, l) => {
                let lw = self.w(l);
                if lo + w <= lw {
                    return self.extract(l, lo, w);
                }
                if lo >= lw {
                    return self.extract(h, lo - lw, w);
                }
                let y = self.extract(l, lo, lw - lo);
                let x = self.extract(h, 0, lo + w - lw);
                return self.concat(x, y);
            }
            N::Ite(c, x, y) if self.as_const(x).is_some() || self.as_const(y).is_some() => {
                let x = self.extract(x, lo, w);
                let y = self.extract(y, lo, w);
                return self.ite(c, x, y);
            }
            N::Bin(op, x, y) if matches!(op, BinOp::And | BinOp::Or | BinOp::Xor) => {
                let x = self.extract(x, lo, w);
                let y = self.extract(y, lo, w);
                return self.bin(op, x, y);
            }
            _ => {}
        }
        self.intern(N::Extract(a, lo), w)
    }
    pub fn concat(&mut self, h: Ex, l: Ex) -> Ex {
        let (hw, lw) = (self.w(h), self.w(l));
        match (self.n(h), self.n(l)) {
            (N::Const(a), N::Const(b)) => return self.cst(hw + lw, (a << lw) | b),
            (N::Const(0), _) => return self.zext(l, hw + lw),
            (N::Extract(x, xl), N::Extract(y, yl)) if x == y && xl == yl + lw => return self.extract(x, yl, hw + lw),
            (N::Extract(x, xl), _) if x == l && xl == lw => return self.extract(x, 0, hw + lw),
            // zext split in bytes: extract(zext(x))==const 0 handled above; hi part of a zext
            (N::ZExt(z), N::Extract(y, yl)) => {
                if let N::Extract(x, xl) = self.n(z) {
                    if x == y && xl == yl + lw {
                        let zw = self.w(z);
                        let t = self.extract(x, yl, zw + lw);
                        return self.zext(t, hw + lw);
                    }
                }
            }
            _ => {}
        }
        self.intern(N::Concat(h, l), hw + lw)
    }
    pub fn eval(&self, e: Ex, model: &[u128], memo: &mut HashMap<Ex, u128, FxB>) -> u128 {
        match self.nodes[e as usize] {
            (N::Const(v), _) => return v,
            (N::Var(i), w) => return mask(w, model.get(i as usize).copied().unwrap_or(0)),
            _ => {}
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let (n, w) = self.nodes[e as usize];
        let r = match n {
            N::Bin(op, a, b) => {
                let x = self.eval(a, model, memo);
                let y = self.eval(b, model, memo);
                // division by zero follows SMT-LIB
                cbin(op, w, x, y).unwrap_or_else(|| match op {
                    BinOp::UDiv => mask(w, u128::MAX),
                    BinOp::SDiv => {
                        if sx(w, x) < 0 {
                            1
                        } else {
                            mask(w, u128::MAX)
                        }
                    }
                    _ => x,
                })
            }
            N::Cmp(p, a, b) => {
                let x = self.eval(a, model, memo);
                let y = self.eval(b, model, memo);
                ccmp(p, self.w(a), x, y) as u128
            }
            N::Ite(c, a, b) => {
                if self.eval(c, model, memo) == 1 {
                    self.eval(a, model, memo)
                } else {
                    self.eval(b, model, memo)
                }
            }
            N::ZExt(a) => self.eval(a, model, memo),
            N::SExt(a) => mask(w, sx(self.w(a), self.eval(a, model, memo)) as u128),
            N::Extract(a, lo) => mask(w, self.eval(a, model, memo) >> lo),
            N::Concat(h, l) => (self.eval(h, model, memo) << self.w(l)) | self.eval(l, model, memo),
            _ => unreachable!(),
        };
        memo.insert(e, r);
        r
    }
}
