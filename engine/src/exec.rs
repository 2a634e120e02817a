//! Symbolic interpreter. A path is executed with a concrete model for all symbolic variables plus a
//! symbolic shadow; at every branch on a symbolic value the solver decides whether the other side is
//! feasible under the path condition, and if so a new path (its model) is queued. Every feasible path is
//! visited exactly once. A worker explores depth first: the state at a decision with further feasible
//! alternatives is kept (memory by an undo journal), and the next alternative is continued from there with
//! its own model. An alternative can also be handed to another worker, which re-executes it from the start.
use crate::expr::*;
use crate::ir::*;
use crate::z3::{Res, Z3};
use std::collections::{HashMap, HashSet};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug)]
pub struct Val {
    pub c: u128,
    pub s: Ex,
}
pub const V0: Val = Val { c: 0, s: 0 };
pub fn vc(c: u128) -> Val {
    Val { c, s: 0 }
}

#[derive(Clone, Debug)]
pub struct Job {
    pub model: Vec<u64>,
    pub bound: u32,
    pub expect: u64,
}

#[derive(Clone, Debug)]
pub enum Stop {
    Done,
    Pruned,
    Violation { kind: String, label: String },
    Error(String),
}
type X<T> = Result<T, Stop>;

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub paths: u64,
    pub done: u64,
    pub pruned: u64,
    pub steps: u64,
    pub decisions: u64,
    pub queries: u64,
    pub q_sat: u64,
    pub q_unsat: u64,
    pub q_unknown: u64,
    pub cache_hits: u64,
    pub implied: u64,
    pub solver_s: f64,
    pub max_pc: usize,
    pub max_vars: usize,
    pub sched_points: u64,
    pub max_threads: usize,
    pub asserts_sym: u64,
    pub max_slice: usize,
}
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.paths += o.paths;
        self.done += o.done;
        self.pruned += o.pruned;
        self.steps += o.steps;
        self.decisions += o.decisions;
        self.queries += o.queries;
        self.q_sat += o.q_sat;
        self.q_unsat += o.q_unsat;
        self.q_unknown += o.q_unknown;
        self.cache_hits += o.cache_hits;
        self.implied += o.implied;
        self.solver_s += o.solver_s;
        self.max_pc = self.max_pc.max(o.max_pc);
        self.max_vars = self.max_vars.max(o.max_vars);
        self.sched_points += o.sched_points;
        self.max_threads = self.max_threads.max(o.max_threads);
        self.asserts_sym += o.asserts_sym;
        self.max_slice = self.max_slice.max(o.max_slice);
    }
}

#[derive(Clone, Debug)]
pub struct Witness {
    pub kind: String,
    pub label: String,
    pub values: Vec<u64>,   // lsx_* data values in call order
    pub schedule: Vec<u8>,  // next thread at every scheduling event
    pub stack: Vec<String>,
    pub model: Vec<u64>,
}

#[derive(Clone)]
pub struct Cfg {
    pub entry: u32,
    pub params: Vec<u64>,
    pub max_steps: u64,
    pub preempt: u32,
    pub solver_ms: u32,
    pub race: bool,
    pub trace: bool,
    pub dump: Option<String>,
    /// completed paths to keep per worker
    pub samples: usize,
    pub seed: u64,
}

const ARENA: usize = 192 << 20;
const STACK: u64 = 4 << 20;
const MAXT: usize = 6;
const STACK_BASE: u64 = DATA_BASE + (ARENA as u64) - STACK * (MAXT as u64 + 1);

struct Mem {
    b: Vec<u8>,
    st: Vec<u8>,
    sh: Vec<u64>,
    hp: u64,
}
const LIVE: u8 = 1;
const FREED: u8 = 2;
const RO: u8 = 3;

#[derive(Clone, Copy, Debug)]
struct Alloc {
    size: u64,
    live: bool,
}

#[derive(Clone, Copy)]
struct Frame<'m> {
    f: &'m Func,
    blk: u32,
    ip: u32,
    base: u32,
    dst: u32,
    nret: u32,
    sp: u64,
    cont: u32,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum TS {
    Run,
    Futex(u64),
    Join,
    Done,
}
type VC = [u32; MAXT];
#[derive(Clone)]
struct Thread<'m> {
    frames: Vec<Frame<'m>>,
    regs: Vec<Val>,
    sp: u64,
    maxsp: u64,
    ts: TS,
    tls: HashMap<u64, u64>,
    vc: VC,
    acqp: VC,
    relf: VC,
    waitval: u32,
    /// changes of shared memory made by this thread
    writes: u64,
    /// after a spin-loop hint or yield: not worth running before another thread changed something
    /// (the number of changes of the other threads at that point)
    stall: Option<u64>,
}

/// the state at a decision with alternatives that are still to be explored
struct Chk<'m> {
    thr: Vec<Thread<'m>>,
    cur: usize,
    frames: Vec<Frame<'m>>,
    regs: Vec<Val>,
    sp: u64,
    multi: bool,
    preempts: u32,
    sched_len: usize,
    vars_len: usize,
    pc_len: usize,
    pclog_len: usize,
    depth: u32,
    steps: u64,
    live: i64,
    hp: u64,
    j: (usize, usize, usize),
    alts: Vec<Job>,
}
/// undo record
enum J {
    /// offset, length, which parts were saved (1 bytes, 2 shadow, 4 state; 8 the old shadow was zero)
    Mem(u32, u32, u8),
    Malloc(u64),
    Free(u64),
    Race(u64, Option<RaceCell>),
    Rel(u64, Option<VC>),
}

#[derive(Clone)]
struct RaceCell {
    e: Vec<(u8, u8, u8, u32)>, // mask, kind, tid, clk
}

#[derive(Clone)]
enum CRes {
    Unsat,
    Sat(Box<[(u32, u128)]>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum In {
    None,
    Panic,
    Abort,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    AlignedAlloc,
    Memcpy,
    MemcpyFn,
    Memset,
    Bcmp,
    Memcmp,
    Strlen,
    Syscall,
    Errno,
    Nop,
    Ret0,
    Write,
    Umin,
    Umax,
    Smin,
    Smax,
    UaddSat,
    UsubSat,
    SaddSat,
    SsubSat,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    Ucmp,
    Scmp,
    Abs,
    IsConst,
    Expect,
    Assume,
    TlsAddr,
    Pause,
    ObjSize,
    Ptrmask,
    LsxSym(u32),
    LsxRange,
    LsxAssume,
    LsxFail,
    LsxCover,
    LsxParam,
    LsxConc,
    LsxSpawn,
    LsxJoin,
    LsxYield,
    SchedYield,
    LsxLive,
    LsxTrace,
    LsxTid,
    LsxIgnoreLeaks,
    VecReduce(u32),
    Unsupported,
}

pub struct Worker<'m> {
    pub m: &'m Module,
    pub cfg: Cfg,
    pub ar: Arena,
    z3: Z3,
    cache: HashMap<Box<[Ex]>, CRes, FxB>,
    canon: HashMap<Box<[u32]>, CRes, FxB>,
    intr: Vec<In>,
    mem: Mem,
    ginit: Vec<(u64, Vec<u8>, u8)>,
    data_end: u64,
    allocs: HashMap<u64, Alloc, FxB>,
    live: i64,
    // path state
    model: Vec<u64>,
    vars: Vec<(Ex, bool)>, // expression, is data value
    pc: Vec<Ex>,
    pcset: HashSet<Ex, FxB>,
    depth: u32,
    bound: u32,
    expect: u64,
    pub new_jobs: Vec<Job>,
    chks: Vec<Chk<'m>>,
    jr: Vec<J>,
    jb: Vec<u8>,
    js: Vec<u64>,
    /// journaling is on
    jon: bool,
    pclog: Vec<Ex>,
    ev: Vec<(u32, u128)>,
    epoch: u32,
    frp: *const Frame<'m>,
    /// the instruction (by step number) that has passed its scheduling point
    op_at: u64,
    steps0: u64,
    thr: Vec<Thread<'m>>,
    cur: usize,
    frames: Vec<Frame<'m>>,
    regs: Vec<Val>,
    sp: u64,
    steps: u64,
    preempts: u32,
    schedule: Vec<u8>,
    multi: bool,
    race: HashMap<u64, RaceCell, FxB>,
    rel: HashMap<u64, VC, FxB>,
    pub st: Stats,
    pub fns_seen: Vec<bool>,
    pub covers: HashSet<String>,
    pub samples: Vec<Witness>,
    rnd: u64,
    pub stop_flag: Option<std::sync::Arc<std::sync::atomic::AtomicBool>>,
    pub incomplete: HashSet<String>,
}

fn viol<T>(kind: &str, label: impl Into<String>) -> X<T> {
    Err(Stop::Violation { kind: kind.to_string(), label: label.into() })
}
fn err<T>(s: impl Into<String>) -> X<T> {
    Err(Stop::Error(s.into()))
}

fn is_panic_fn(n: &str) -> bool {
    if n.contains("9panicking11panic_count") {
        return false;
    }
    (n.contains("4core9panicking") || n.contains("3std9panicking") || n.contains("rust_begin_unwind") || n.contains("rust_panic") || n.contains("___rustc10rust_panic"))
        && !n.contains("drop_glue")
}

impl<'m> Worker<'m> {
    pub fn new(m: &'m Module, cfg: Cfg) -> Worker<'m> {
        let seed = cfg.seed;
        let intr = m.fns.iter().map(|f| Self::classify(&f.name, f.body.is_some())).collect();
        let mut z3 = Z3::new(cfg.solver_ms);
        z3.dump = cfg.dump.clone();
        let nf = m.fns.len();
        let mut w = Worker {
            m,
            cfg,
            ar: Arena::new(),
            z3,
            cache: HashMap::default(),
            canon: HashMap::default(),
            intr,
            mem: Mem { b: vec![0; ARENA], st: vec![0; ARENA], sh: vec![0; ARENA], hp: 0 },
            ginit: vec![],
            data_end: m.data_end(),
            allocs: HashMap::default(),
            live: 0,
            model: vec![],
            vars: vec![],
            pc: vec![],
            pcset: HashSet::default(),
            depth: 0,
            bound: 0,
            expect: 0,
            new_jobs: vec![],
            chks: vec![],
            jr: vec![],
            jb: vec![],
            js: vec![],
            jon: false,
            pclog: vec![],
            ev: vec![],
            epoch: 1,
            frp: std::ptr::null(),
            op_at: u64::MAX,
            steps0: 0,
            thr: vec![],
            cur: 0,
            frames: vec![],
            regs: vec![],
            sp: STACK_BASE,
            steps: 0,
            preempts: 0,
            schedule: vec![],
            multi: false,
            race: HashMap::default(),
            rel: HashMap::default(),
            st: Stats::default(),
            fns_seen: vec![false; nf],
            covers: HashSet::new(),
            samples: vec![],
            rnd: seed,
            stop_flag: None,
            incomplete: HashSet::new(),
        };
        w.init_globals();
        w
    }

    fn classify(n: &str, body: bool) -> In {
        if is_panic_fn(n) {
            return In::Panic;
        }
        if let Some(r) = n.strip_prefix("llvm.") {
            let base = |p: &str| r.starts_with(p);
            return if base("memcpy") || base("memmove") {
                In::Memcpy
            } else if base("memset") {
                In::Memset
            } else if base("umin.") {
                In::Umin
            } else if base("umax.") {
                In::Umax
            } else if base("smin.") {
                In::Smin
            } else if base("smax.") {
                In::Smax
            } else if base("uadd.sat") {
                In::UaddSat
            } else if base("usub.sat") {
                In::UsubSat
            } else if base("sadd.sat") {
                In::SaddSat
            } else if base("ssub.sat") {
                In::SsubSat
            } else if base("uadd.with") {
                In::UaddO
            } else if base("usub.with") {
                In::UsubO
            } else if base("umul.with") {
                In::UmulO
            } else if base("sadd.with") {
                In::SaddO
            } else if base("ssub.with") {
                In::SsubO
            } else if base("smul.with") {
                In::SmulO
            } else if base("ctlz") {
                In::Ctlz
            } else if base("cttz") {
                In::Cttz
            } else if base("ctpop") {
                In::Ctpop
            } else if base("bswap") {
                In::Bswap
            } else if base("bitreverse") {
                In::Bitrev
            } else if base("fshl") {
                In::Fshl
            } else if base("fshr") {
                In::Fshr
            } else if base("ucmp") {
                In::Ucmp
            } else if base("scmp") {
                In::Scmp
            } else if base("abs") {
                In::Abs
            } else if base("is.constant") {
                In::IsConst
            } else if base("expect") {
                In::Expect
            } else if base("assume") {
                In::Assume
            } else if base("threadlocal.address") {
                In::TlsAddr
            } else if base("x86.sse2.pause") || base("x86.sse.pause") {
                In::Pause
            } else if base("trap") || base("ubsantrap") || base("debugtrap") {
                In::Abort
            } else if base("objectsize") {
                In::ObjSize
            } else if base("ptrmask") {
                In::Ptrmask
            } else if base("vector.reduce.or") {
                In::VecReduce(0)
            } else if base("vector.reduce.and") {
                In::VecReduce(1)
            } else if base("vector.reduce.add") {
                In::VecReduce(2)
            } else if base("lifetime") || base("experimental.noalias") || base("donothing") || base("prefetch") || base("invariant") || base("dbg") || base("sideeffect") || base("x86.sse2.mfence") {
                In::Nop
            } else {
                In::Unsupported
            };
        }
        match n {
            "malloc" => In::Malloc,
            "calloc" => In::Calloc,
            "realloc" => In::Realloc,
            "free" => In::Free,
            "posix_memalign" => In::PosixMemalign,
            "aligned_alloc" | "memalign" => In::AlignedAlloc,
            "memcpy" | "memmove" => In::MemcpyFn,
            "memset" => In::Memset,
            "bcmp" => In::Bcmp,
            "memcmp" => In::Memcmp,
            "strlen" => In::Strlen,
            "syscall" => In::Syscall,
            "__errno_location" => In::Errno,
            "abort" | "exit" | "_exit" => In::Abort,
            "write" | "writev" => In::Write,
            "__cxa_thread_atexit_impl" | "pthread_setspecific" | "pthread_key_create" => In::Ret0,
            "sched_yield" => In::SchedYield,
            "lsx_u64" => In::LsxSym(64),
            "lsx_u32" => In::LsxSym(32),
            "lsx_u16" => In::LsxSym(16),
            "lsx_u8" => In::LsxSym(8),
            "lsx_bool" => In::LsxSym(1),
            "lsx_range" => In::LsxRange,
            "lsx_assume" => In::LsxAssume,
            "lsx_fail" => In::LsxFail,
            "lsx_cover" => In::LsxCover,
            "lsx_param" => In::LsxParam,
            "lsx_concrete" => In::LsxConc,
            "lsx_spawn" => In::LsxSpawn,
            "lsx_join" => In::LsxJoin,
            "lsx_yield" => In::LsxYield,
            "lsx_live" => In::LsxLive,
            "lsx_trace" => In::LsxTrace,
            "lsx_tid" => In::LsxTid,
            "lsx_ignore_leaks" => In::LsxIgnoreLeaks,
            _ => {
                if body {
                    if n.contains("18handle_alloc_error") {
                        In::Abort
                    } else {
                        In::None
                    }
                } else if n.contains("rust_no_alloc_shim_is_unstable") {
                    In::Nop
                } else {
                    In::Unsupported
                }
            }
        }
    }

    // ---------------------------------------------------------------- memory
    fn init_globals(&mut self) {
        let mut gi = vec![];
        for g in &self.m.gvars {
            if g.tls || g.external {
                continue;
            }
            let mut b = vec![0u8; g.size as usize];
            for (off, w, e) in &g.init {
                let v = match e {
                    CExpr::Int(v) => *v,
                    CExpr::Sym(n, k) => match self.m.sym_addr(n) {
                        Some(a) => a.wrapping_add(*k as u64) as u128,
                        None => 0,
                    },
                };
                let n = ((*w + 7) / 8) as usize;
                b[*off as usize..*off as usize + n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
            gi.push((g.addr, b, if g.constant { RO } else { LIVE }));
        }
        for (a, b, st) in &gi {
            let o = (*a - DATA_BASE) as usize;
            self.mem.b[o..o + b.len()].copy_from_slice(b);
            for x in &mut self.mem.st[o..o + b.len()] {
                *x = *st
            }
        }
        self.ginit = gi.into_iter().filter(|g| g.2 == LIVE).collect();
        self.mem.hp = (self.data_end + 4095) & !4095;
    }
    fn reset(&mut self, job: &Job) {
        let h0 = ((self.data_end + 4095) & !4095) - DATA_BASE;
        let h1 = self.mem.hp - DATA_BASE + 64;
        let (a, b) = (h0 as usize, h1 as usize);
        self.mem.b[a..b].fill(0);
        self.mem.st[a..b].fill(0);
        self.mem.sh[a..b].fill(0);
        for i in 0..self.thr.len() {
            let lo = (STACK_BASE - DATA_BASE + STACK * i as u64) as usize;
            let hi = lo + (self.thr[i].maxsp - (STACK_BASE + STACK * i as u64)) as usize + 64;
            self.mem.b[lo..hi].fill(0);
            self.mem.st[lo..hi].fill(0);
            self.mem.sh[lo..hi].fill(0);
        }
        for (a, b, _) in &self.ginit {
            let o = (*a - DATA_BASE) as usize;
            self.mem.b[o..o + b.len()].copy_from_slice(b);
            self.mem.sh[o..o + b.len()].fill(0);
        }
        self.mem.hp = DATA_BASE + h0;
        self.allocs.clear();
        self.live = 0;
        self.model = job.model.clone();
        self.bound = job.bound;
        self.expect = job.expect;
        self.vars.clear();
        self.pc.clear();
        self.pcset.clear();
        self.pclog.clear();
        self.chks.clear();
        self.jr.clear();
        self.jb.clear();
        self.js.clear();
        self.jon = false;
        self.epoch += 1;
        self.op_at = u64::MAX;
        self.steps0 = 0;
        self.depth = 0;
        self.thr.clear();
        self.cur = 0;
        self.frames.clear();
        self.regs.clear();
        self.sp = STACK_BASE;
        self.steps = 0;
        self.preempts = 0;
        self.schedule.clear();
        self.multi = false;
        self.race.clear();
        self.rel.clear();
        if self.ar.nodes.len() > 1_500_000 {
            self.ar = Arena::new();
            self.z3.reset();
            self.cache.clear();
            self.ev.clear();
        }
    }
    // ---------------------------------------------------------------- backtracking
    /// journal the old contents of a range of memory
    fn jmem(&mut self, o: usize, n: usize, mut what: u8) {
        if !self.jon || n == 0 {
            return;
        }
        if what & 1 != 0 {
            self.jb.extend_from_slice(&self.mem.b[o..o + n]);
        }
        if what & 2 != 0 {
            let sh = &self.mem.sh[o..o + n];
            if sh.iter().all(|x| *x == 0) {
                what |= 8;
            } else {
                self.js.extend_from_slice(sh);
            }
        }
        if what & 4 != 0 {
            self.jb.extend_from_slice(&self.mem.st[o..o + n]);
        }
        self.jr.push(J::Mem(o as u32, n as u32, what));
    }
    fn undo(&mut self, to: (usize, usize, usize)) {
        while self.jr.len() > to.0 {
            match self.jr.pop().unwrap() {
                J::Mem(o, n, what) => {
                    let (o, n) = (o as usize, n as usize);
                    if what & 4 != 0 {
                        let k = self.jb.len() - n;
                        self.mem.st[o..o + n].copy_from_slice(&self.jb[k..]);
                        self.jb.truncate(k);
                    }
                    if what & 8 != 0 {
                        self.mem.sh[o..o + n].fill(0);
                    } else if what & 2 != 0 {
                        let k = self.js.len() - n;
                        self.mem.sh[o..o + n].copy_from_slice(&self.js[k..]);
                        self.js.truncate(k);
                    }
                    if what & 1 != 0 {
                        let k = self.jb.len() - n;
                        self.mem.b[o..o + n].copy_from_slice(&self.jb[k..]);
                        self.jb.truncate(k);
                    }
                }
                J::Malloc(a) => {
                    self.allocs.remove(&a);
                }
                J::Free(a) => self.allocs.get_mut(&a).unwrap().live = true,
                J::Race(k, Some(c)) => {
                    self.race.insert(k, c);
                }
                J::Race(k, None) => {
                    self.race.remove(&k);
                }
                J::Rel(k, Some(c)) => {
                    self.rel.insert(k, c);
                }
                J::Rel(k, None) => {
                    self.rel.remove(&k);
                }
            }
        }
        debug_assert!(self.jb.len() == to.1 && self.js.len() == to.2);
    }
    /// Keep the current state, in which the current instruction is to be executed again, for the
    /// alternatives. `adj`: the instruction pointer was advanced already.
    fn keep(&mut self, depth: u32, vars_len: usize, adj: bool, alts: Vec<Job>) {
        if alts.is_empty() {
            return;
        }
        let mut frames = self.frames.clone();
        let mut used = 0;
        if let Some(l) = frames.last_mut() {
            // the frame the interpreter works on
            let mut fr = unsafe { *self.frp };
            if adj {
                fr.ip -= 1;
            }
            used = (fr.base + fr.f.nslots) as usize;
            *l = fr;
        }
        let mut thr = self.thr.clone();
        if self.multi && adj && self.op_at == self.steps {
            thr[self.cur].waitval = 1;
        }
        let regs = self.regs[..used.min(self.regs.len())].to_vec();
        self.chks.push(Chk {
            thr,
            cur: self.cur,
            frames,
            regs,
            sp: self.sp,
            multi: self.multi,
            preempts: self.preempts,
            sched_len: self.schedule.len(),
            vars_len,
            pc_len: self.pc.len(),
            pclog_len: self.pclog.len(),
            depth,
            steps: self.steps.saturating_sub(1),
            live: self.live,
            hp: self.mem.hp,
            j: (self.jr.len(), self.jb.len(), self.js.len()),
            alts,
        });
        self.jon = true;
    }
    /// Hands out the alternatives of the oldest decision.
    pub fn donate(&mut self, all: bool) -> Vec<Job> {
        let mut r = vec![];
        for c in self.chks.iter_mut() {
            r.append(&mut c.alts);
            if !all && !r.is_empty() {
                break;
            }
        }
        r
    }
    /// continue with the next alternative of the most recent decision
    pub fn next(&mut self) -> Option<(Stop, Option<Witness>)> {
        if self.ar.nodes.len() > 1_500_000 {
            let d = self.donate(true);
            self.new_jobs.extend(d);
        }
        if self.cache.len() > 500_000 {
            self.cache.clear();
        }
        if self.canon.len() > 500_000 {
            self.canon.clear();
        }
        let job = loop {
            let c = self.chks.last_mut()?;
            match c.alts.pop() {
                Some(j) => break j,
                None => {
                    self.chks.pop();
                }
            }
        };
        let to = self.chks.last().unwrap().j;
        self.undo(to);
        let last = self.chks.last().unwrap().alts.is_empty();
        if last {
            let c = self.chks.pop().unwrap();
            self.thr = c.thr;
            self.frames = c.frames;
            self.regs = c.regs;
            self.cur = c.cur;
            self.sp = c.sp;
            self.multi = c.multi;
            self.preempts = c.preempts;
            self.schedule.truncate(c.sched_len);
            self.vars.truncate(c.vars_len);
            self.pc.truncate(c.pc_len);
            for x in self.pclog.drain(c.pclog_len..) {
                self.pcset.remove(&x);
            }
            self.depth = c.depth;
            self.steps = c.steps;
            self.live = c.live;
            self.mem.hp = c.hp;
            if self.chks.is_empty() {
                self.jon = false;
                self.jr.clear();
                self.jb.clear();
                self.js.clear();
            }
        } else {
            let c = self.chks.last().unwrap();
            self.thr.clone_from(&c.thr);
            self.frames.clone_from(&c.frames);
            self.regs.clone_from(&c.regs);
            self.cur = c.cur;
            self.sp = c.sp;
            self.multi = c.multi;
            self.preempts = c.preempts;
            self.schedule.truncate(c.sched_len);
            self.vars.truncate(c.vars_len);
            self.pc.truncate(c.pc_len);
            for x in self.pclog.drain(c.pclog_len..) {
                self.pcset.remove(&x);
            }
            self.depth = c.depth;
            self.steps = c.steps;
            self.live = c.live;
            self.mem.hp = c.hp;
        }
        self.steps0 = self.steps;
        self.op_at = u64::MAX;
        self.model = job.model;
        self.bound = job.bound;
        self.expect = job.expect;
        self.epoch += 1;
        // the concrete parts follow the new model
        for i in 0..self.regs.len() {
            let x = self.regs[i].s;
            if x != 0 {
                self.regs[i].c = self.evalx(x);
            }
        }
        if self.multi {
            for t in 0..self.thr.len() {
                for i in 0..self.thr[t].regs.len() {
                    let x = self.thr[t].regs[i].s;
                    if x != 0 {
                        let c = self.evalx(x);
                        self.thr[t].regs[i].c = c;
                    }
                }
            }
        }
        self.st.paths += 1;
        let r = self.interp();
        Some(self.finish(r))
    }
    /// the value of an expression in the current model
    fn evalx(&mut self, e: Ex) -> u128 {
        let (n, w) = self.ar.nodes[e as usize];
        match n {
            N::Const(v) => return v,
            N::Var(i) => return mask(w, self.model.get(i as usize).copied().unwrap_or(0) as u128),
            _ => {}
        }
        if self.ev.len() <= e as usize {
            self.ev.resize(self.ar.nodes.len() + 1024, (0, 0));
        }
        let (ep, v) = self.ev[e as usize];
        if ep == self.epoch {
            return v;
        }
        let r = match n {
            N::Bin(op, a, b) => {
                let (x, y) = (self.evalx(a), self.evalx(b));
                cbin(op, w, x, y).unwrap_or_else(|| match op {
                    BinOp::UDiv => mask(w, u128::MAX),
                    BinOp::SDiv => {
                        if sx(w, x) < 0 {
                            1
                        } else {
                            mask(w, u128::MAX)
                        }
                    }
                    _ => x,
                })
            }
            N::Cmp(p, a, b) => {
                let (x, y) = (self.evalx(a), self.evalx(b));
                ccmp(p, self.ar.w(a), x, y) as u128
            }
            N::Ite(c, a, b) => {
                if self.evalx(c) == 1 {
                    self.evalx(a)
                } else {
                    self.evalx(b)
                }
            }
            N::ZExt(a) => self.evalx(a),
            N::SExt(a) => {
                let x = self.evalx(a);
                mask(w, sx(self.ar.w(a), x) as u128)
            }
            N::Extract(a, lo) => mask(w, self.evalx(a) >> lo),
            N::Concat(h, l) => {
                let x = self.evalx(h);
                (x << self.ar.w(l)) | self.evalx(l)
            }
            _ => unreachable!(),
        };
        self.ev[e as usize] = (self.epoch, r);
        r
    }
    #[inline]
    fn chk(&self, a: u64, n: u64, write: bool) -> X<usize> {
        let o = a.wrapping_sub(DATA_BASE);
        if o >= ARENA as u64 || o + n > ARENA as u64 {
            return viol("memory", format!("access to invalid address {:#x} ({} bytes)", a, n));
        }
        let o = o as usize;
        for s in &self.mem.st[o..o + n as usize] {
            if *s != LIVE {
                if *s == RO && !write {
                    continue;
                }
                return viol(
                    "memory",
                    match *s {
                        FREED => format!("use after free ({} of {} bytes)", if write { "write" } else { "read" }, n),
                        RO => "write to constant".to_string(),
                        _ => format!("out of bounds {} of {} bytes", if write { "write" } else { "read" }, n),
                    },
                );
            }
        }
        Ok(o)
    }
    fn load(&mut self, a: u64, w: u32) -> X<Val> {
        let n = ((w + 7) / 8) as usize;
        let o = self.chk(a, n as u64, false)?;
        let mut buf = [0u8; 16];
        buf[..n].copy_from_slice(&self.mem.b[o..o + n]);
        let c = u128::from_le_bytes(buf);
        let sh = &self.mem.sh[o..o + n];
        if sh.iter().all(|x| *x == 0) {
            return Ok(vc(mask(w, c)));
        }
        let e0 = sh[0];
        let ex0 = (e0 >> 8) as Ex;
        let i0 = (e0 & 255) as u32;
        let mut e;
        if e0 != 0 && (1..n).all(|k| sh[k] == e0 + k as u64) {
            let ew = self.ar.w(ex0);
            let need = n as u32 * 8;
            e = if i0 == 0 && ew == need { ex0 } else { self.ar.extract(ex0, i0 * 8, need) };
        } else {
            let shv: Vec<u64> = sh.to_vec();
            e = 0;
            for k in 0..n {
                let b = if shv[k] == 0 { self.ar.cst(8, buf[k] as u128) } else { self.ar.extract((shv[k] >> 8) as Ex, (shv[k] & 255) as u32 * 8, 8) };
                e = if k == 0 { b } else { self.ar.concat(b, e) };
            }
        }
        if self.ar.w(e) > w {
            e = self.ar.extract(e, 0, w);
        }
        // the bytes of symbolic cells are not kept up to date
        let c = self.evalx(e);
        Ok(self.mk(mask(w, c), e))
    }
    fn store(&mut self, a: u64, w: u32, v: Val) -> X<()> {
        let n = ((w + 7) / 8) as usize;
        let o = self.chk(a, n as u64, true)?;
        self.jmem(o, n, 3);
        self.mem.b[o..o + n].copy_from_slice(&v.c.to_le_bytes()[..n]);
        if v.s == 0 {
            self.mem.sh[o..o + n].fill(0);
        } else {
            let e = if w % 8 != 0 { self.ar.zext(v.s, n as u32 * 8) } else { v.s };
            for k in 0..n {
                self.mem.sh[o + k] = ((e as u64) << 8) | k as u64;
            }
        }
        Ok(())
    }
    fn mk(&self, c: u128, e: Ex) -> Val {
        if e != 0 && self.ar.as_const(e).is_some() {
            debug_assert_eq!(self.ar.as_const(e), Some(c));
            Val { c, s: 0 }
        } else {
            Val { c, s: e }
        }
    }
    fn malloc(&mut self, size: u64, align: u64, zero: bool) -> X<u64> {
        let _ = zero;
        let al = align.max(16);
        let a = (self.mem.hp + 32 + al - 1) / al * al;
        let end = a + size;
        if end + 64 >= STACK_BASE || size > (64 << 20) {
            return err(format!("heap exhausted (allocation of {} bytes)", size));
        }
        self.mem.hp = end + 16;
        let o = (a - DATA_BASE) as usize;
        self.jmem(o, size as usize, 4);
        if self.jon {
            self.jr.push(J::Malloc(a));
        }
        self.mem.st[o..o + size as usize].fill(LIVE);
        self.allocs.insert(a, Alloc { size, live: true });
        self.live += 1;
        Ok(a)
    }
    fn free(&mut self, a: u64) -> X<()> {
        if a == 0 {
            return Ok(());
        }
        match self.allocs.get_mut(&a) {
            None => viol("memory", format!("free of a pointer that was not allocated ({:#x})", a)),
            Some(al) if !al.live => viol("memory", "double free"),
            Some(al) => {
                al.live = false;
                let n = al.size;
                if self.jon {
                    self.jr.push(J::Free(a));
                }
                self.live -= 1;
                if self.multi {
                    let mut k = 0;
                    while k < n {
                        self.race_access(a + k, (n - k).min(8), true, false)?;
                        k += 8 - ((a + k) & 7);
                    }
                }
                let o = (a - DATA_BASE) as usize;
                self.jmem(o, n as usize, 4);
                self.mem.st[o..o + n as usize].fill(FREED);
                Ok(())
            }
        }
    }
    fn memmove(&mut self, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let so = self.chk(s, n, false)?;
        let dof = self.chk(d, n, true)?;
        if self.multi {
            self.race_range(s, n, false)?;
            self.race_range(d, n, true)?;
        }
        self.jmem(dof, n as usize, 3);
        self.mem.b.copy_within(so..so + n as usize, dof);
        self.mem.sh.copy_within(so..so + n as usize, dof);
        Ok(())
    }
    fn read_str(&self, p: u64, n: u64) -> String {
        match self.chk(p, n, false) {
            Ok(o) => String::from_utf8_lossy(&self.mem.b[o..o + n as usize]).into_owned(),
            Err(_) => "?".into(),
        }
    }

    // ---------------------------------------------------------------- races
    fn race_range(&mut self, a: u64, n: u64, write: bool) -> X<()> {
        let mut k = 0;
        while k < n {
            let step = (8 - ((a + k) & 7)).min(n - k);
            self.race_access(a + k, step, write, false)?;
            k += step;
        }
        Ok(())
    }
    fn race_access(&mut self, a: u64, n: u64, write: bool, atomic: bool) -> X<()> {
        if !self.cfg.race {
            return Ok(());
        }
        // stacks are private unless shared through pointers; they are still tracked
        let mut off = 0;
        while off < n {
            let p = a + off;
            let g = p & !7;
            let lo = p & 7;
            let cnt = (8 - lo).min(n - off);
            let m = (((1u16 << cnt) - 1) << lo) as u8;
            let kind = (write as u8) | ((atomic as u8) << 1);
            let tid = self.cur as u8;
            let vcl = self.thr[self.cur].vc;
            let clk = vcl[self.cur];
            if self.jon {
                let old = self.race.get(&g).cloned();
                self.jr.push(J::Race(g, old));
            }
            let cell = self.race.entry(g).or_insert_with(|| RaceCell { e: vec![] });
            for (em, ek, et, ec) in cell.e.iter() {
                if *et != tid && em & m != 0 && (ek | kind) & 1 == 1 && !(ek & 2 != 0 && atomic) && vcl[*et as usize] < *ec {
                    return viol(
                        "race",
                        format!(
                            "data race: {} {} unordered with {} {}",
                            if atomic { "atomic" } else { "plain" },
                            if write { "write" } else { "read" },
                            if ek & 2 != 0 { "atomic" } else { "plain" },
                            if ek & 1 != 0 { "write" } else { "read" }
                        ),
                    );
                }
            }
            cell.e.retain(|(em, ek, et, _)| !(*et == tid && *ek == kind && (em & !m) == 0));
            cell.e.push((m, kind, tid, clk));
            off += cnt;
        }
        Ok(())
    }
    fn sync_acquire(&mut self, a: u64, o: Ord) {
        if let Some(r) = self.rel.get(&a) {
            let t = &mut self.thr[self.cur];
            for i in 0..MAXT {
                if o.acq() {
                    t.vc[i] = t.vc[i].max(r[i]);
                }
                t.acqp[i] = t.acqp[i].max(r[i]);
            }
        }
    }
    fn sync_release(&mut self, a: u64, o: Ord, rmw: bool) {
        let t = &mut self.thr[self.cur];
        let mut r = if o.rel() { t.vc } else { t.relf };
        if rmw {
            if let Some(p) = self.rel.get(&a) {
                for i in 0..MAXT {
                    r[i] = r[i].max(p[i]);
                }
            }
        }
        let old = self.rel.insert(a, r);
        if self.jon {
            self.jr.push(J::Rel(a, old));
        }
        if o.rel() {
            t.vc[self.cur] += 1;
        }
    }
    fn sync_fence(&mut self, o: Ord) {
        let t = &mut self.thr[self.cur];
        if o.acq() {
            for i in 0..MAXT {
                t.vc[i] = t.vc[i].max(t.acqp[i]);
            }
        }
        if o.rel() {
            t.relf = t.vc;
            t.vc[self.cur] += 1;
        }
    }

    // ---------------------------------------------------------------- solver
    fn slice(&self, q: Ex) -> Vec<Ex> {
        let mut set: HashSet<u32, FxB> = HashSet::default();
        for v in self.ar.vars[q as usize].iter() {
            set.insert(*v);
        }
        let mut used = vec![false; self.pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, c) in self.pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let vs = &self.ar.vars[*c as usize];
                if vs.iter().any(|v| set.contains(v)) {
                    used[i] = true;
                    out.push(*c);
                    for v in vs.iter() {
                        if set.insert(*v) {
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        out.push(q);
        out.sort_unstable();
        out.dedup();
        out
    }
    /// is pc ∧ q satisfiable? returns the full model
    fn check(&mut self, q: Ex) -> Option<Vec<u64>> {
        self.st.queries += 1;
        if let Some(c) = self.ar.as_const(q) {
            return if c == 1 { Some(self.cur_model()) } else { None };
        }
        if self.pcset.contains(&q) {
            return Some(self.cur_model());
        }
        let nq = self.ar.not(q);
        if self.pcset.contains(&nq) {
            self.st.implied += 1;
            return None;
        }
        let cs = self.slice(q).into_boxed_slice();
        self.st.max_slice = self.st.max_slice.max(cs.len());
        let r = if let Some(r) = self.cache.get(&cs) {
            self.st.cache_hits += 1;
            r.clone()
        } else {
            let mut vs: Vec<u32> = vec![];
            for c in cs.iter() {
                for v in self.ar.vars[*c as usize].iter() {
                    if !vs.contains(v) {
                        vs.push(*v)
                    }
                }
            }
            // the same constraints with other variables may have been decided already
            let (key, order) = self.ar.canon(&cs);
            let known = self.canon.get(&key).map(|r| match r {
                CRes::Unsat => CRes::Unsat,
                CRes::Sat(m) => CRes::Sat(m.iter().map(|(i, v)| (order[*i as usize], *v)).collect()),
            });
            if let Some(r) = known {
                self.st.cache_hits += 1;
                self.cache.insert(cs, r.clone());
                return self.model_of(r);
            }
            let vx: Vec<(u32, Ex)> = vs.iter().map(|v| (*v, self.vars[*v as usize].0)).collect();
            let t = Instant::now();
            let r = self.z3.solve(&self.ar, &cs, &vx);
            self.st.solver_s += t.elapsed().as_secs_f64();
            let r = match r {
                Res::Sat(m) => {
                    self.st.q_sat += 1;
                    CRes::Sat(m.into_boxed_slice())
                }
                Res::Unsat => {
                    self.st.q_unsat += 1;
                    CRes::Unsat
                }
                Res::Unknown => {
                    self.st.q_unknown += 1;
                    self.incomplete.insert("solver returned unknown".into());
                    return None;
                }
            };
            let ci = match &r {
                CRes::Unsat => CRes::Unsat,
                CRes::Sat(m) => CRes::Sat(m.iter().map(|(k, v)| (order.iter().position(|o| o == k).unwrap() as u32, *v)).collect()),
            };
            self.canon.insert(key, ci);
            self.cache.insert(cs, r.clone());
            r
        };
        self.model_of(r)
    }
    fn model_of(&self, r: CRes) -> Option<Vec<u64>> {
        match r {
            CRes::Unsat => None,
            CRes::Sat(m) => {
                let mut md = self.model.clone();
                md.truncate(self.vars.len());
                for (k, v) in m.iter() {
                    while md.len() <= *k as usize {
                        md.push(0)
                    }
                    md[*k as usize] = *v as u64;
                }
                Some(md)
            }
        }
    }
    fn cur_model(&self) -> Vec<u64> {
        self.model[..self.vars.len()].to_vec()
    }
    fn add_pc(&mut self, c: Ex) {
        if self.ar.as_const(c).is_some() || self.pcset.contains(&c) {
            return;
        }
        if let N::Bin(BinOp::And, a, b) = self.ar.n(c) {
            if self.ar.w(c) == 1 {
                self.pcset.insert(c);
                self.pclog.push(c);
                self.add_pc(a);
                self.add_pc(b);
                return;
            }
        }
        self.pcset.insert(c);
        self.pclog.push(c);
        self.pc.push(c);
        self.st.max_pc = self.st.max_pc.max(self.pc.len());
    }
    fn fork(&mut self, taken: Ex, alts: &[Ex]) -> X<()> {
        if self.ar.as_const(taken).is_some() || self.pcset.contains(&taken) {
            return Ok(());
        }
        let d = self.depth;
        self.depth += 1;
        self.st.decisions += 1;
        if d + 1 == self.bound {
            let h = self.ar.hash[taken as usize];
            if self.expect != u64::MAX && h != self.expect {
                return err("internal: replayed path diverged");
            }
        } else if d >= self.bound {
            let mut out = vec![];
            for a in alts {
                if let Some(m) = self.check(*a) {
                    out.push(Job { model: m, bound: d + 1, expect: self.ar.hash[*a as usize] });
                }
            }
            self.keep(d, self.vars.len(), true, out);
        }
        self.add_pc(taken);
        Ok(())
    }
    fn branch(&mut self, v: Val) -> X<bool> {
        if v.s == 0 {
            return Ok(v.c & 1 == 1);
        }
        let t = v.c & 1 == 1;
        let n = self.ar.not(v.s);
        let (tk, alt) = if t { (v.s, n) } else { (n, v.s) };
        self.fork(tk, &[alt])?;
        Ok(t)
    }
    fn concretize(&mut self, v: Val, w: u32) -> X<u128> {
        if v.s == 0 {
            return Ok(v.c);
        }
        let k = self.ar.cst(w, v.c);
        let tk = self.ar.cmp(Pred::Eq, v.s, k);
        if self.ar.as_const(tk).is_some() || self.pcset.contains(&tk) {
            return Ok(v.c);
        }
        let d = self.depth;
        self.depth += 1;
        self.st.decisions += 1;
        if d + 1 == self.bound {
            if self.expect != u64::MAX && self.ar.hash[tk as usize] != self.expect {
                return err("internal: replayed path diverged (value)");
            }
        } else if d >= self.bound {
            // enumerate all other feasible values with the solver
            let mut out = vec![];
            let mut seen = vec![v.c];
            let mut excl = self.ar.not(tk);
            loop {
                let m = match self.check(excl) {
                    None => break,
                    Some(m) => m,
                };
                let mm: Vec<u128> = m.iter().map(|x| *x as u128).collect();
                let mut memo = HashMap::default();
                let c2 = self.ar.eval(v.s, &mm, &mut memo);
                if seen.contains(&c2) {
                    return err("internal: value enumeration repeated");
                }
                seen.push(c2);
                if seen.len() > 4096 {
                    return err("too many values for a symbolic address or size");
                }
                let k2 = self.ar.cst(w, c2);
                let e2 = self.ar.cmp(Pred::Eq, v.s, k2);
                out.push(Job { model: m, bound: d + 1, expect: self.ar.hash[e2 as usize] });
                let ne2 = self.ar.not(e2);
                excl = self.ar.bin(BinOp::And, excl, ne2);
            }
            self.keep(d, self.vars.len(), true, out);
        }
        self.add_pc(tk);
        Ok(v.c)
    }
    fn assume(&mut self, v: Val) -> X<()> {
        if v.s == 0 {
            return if v.c & 1 == 1 { Ok(()) } else { Err(Stop::Pruned) };
        }
        if v.c & 1 == 1 {
            self.add_pc(v.s);
            Ok(())
        } else {
            // the current model violates the assumption: continue with another model, if there is one
            let d = self.depth;
            if d < self.bound {
                return err("internal: assumption violated during replay");
            }
            if let Some(m) = self.check(v.s) {
                // same decisions so far; re-run with a model that satisfies the assumption.
                let j = Job { model: m, bound: self.depth, expect: u64::MAX };
                self.keep(d, self.vars.len(), true, vec![j]);
            }
            Err(Stop::Pruned)
        }
    }
    fn fresh(&mut self, w: u32, lo: u64, data: bool) -> (u32, Val) {
        let i = self.vars.len() as u32;
        if self.model.len() <= i as usize {
            self.model.push(lo);
        }
        let e = self.ar.var(i, w);
        self.vars.push((e, data));
        self.st.max_vars = self.st.max_vars.max(self.vars.len());
        (i, Val { c: mask(w, self.model[i as usize] as u128), s: e })
    }
    /// choose one of n alternatives: a fresh symbolic variable over 0..n, forked on its value
    fn choose(&mut self, n: u32, adj: bool) -> X<u32> {
        let vars_len = self.vars.len();
        let (_, v) = self.fresh(8, 0, false);
        let cur = v.c as u32;
        if cur >= n {
            return err("internal: choice out of range");
        }
        let d = self.depth;
        self.depth += 1;
        self.st.decisions += 1;
        let k = self.ar.cst(8, cur as u128);
        let tk = self.ar.cmp(Pred::Eq, v.s, k);
        if d + 1 == self.bound {
            if self.expect != u64::MAX && self.ar.hash[tk as usize] != self.expect {
                return err("internal: replayed path diverged (choice)");
            }
        } else if d >= self.bound {
            let mut out = vec![];
            for a in (0..n).rev() {
                if a == cur {
                    continue;
                }
                let k = self.ar.cst(8, a as u128);
                let e = self.ar.cmp(Pred::Eq, v.s, k);
                if let Some(m) = self.check(e) {
                    out.push(Job { model: m, bound: d + 1, expect: self.ar.hash[e as usize] });
                }
            }
            self.keep(d, vars_len, adj, out);
        }
        self.add_pc(tk);
        Ok(cur)
    }

    // ---------------------------------------------------------------- threads
    fn switch_to(&mut self, t: usize) {
        if t == self.cur {
            return;
        }
        let c = self.cur;
        std::mem::swap(&mut self.frames, &mut self.thr[c].frames);
        std::mem::swap(&mut self.regs, &mut self.thr[c].regs);
        self.thr[c].sp = self.sp;
        self.cur = t;
        std::mem::swap(&mut self.frames, &mut self.thr[t].frames);
        std::mem::swap(&mut self.regs, &mut self.thr[t].regs);
        self.sp = self.thr[t].sp;
    }
    fn runnable(&self) -> Vec<usize> {
        let all_others_done = |me: usize| self.thr.iter().enumerate().all(|(i, t)| i == me || t.ts == TS::Done);
        (0..self.thr.len())
            .filter(|i| match self.thr[*i].ts {
                TS::Run => true,
                TS::Join => all_others_done(*i),
                _ => false,
            })
            .collect()
    }
    /// scheduling event. kind: 0 before an atomic operation, 1 yield (others first), 2 cannot continue
    fn sched(&mut self, kind: u32) -> X<()> {
        if !self.multi {
            return Ok(());
        }
        self.st.sched_points += 1;
        let mut run = self.runnable();
        let me = self.cur;
        let others = |x: &Self, t: usize| x.thr.iter().enumerate().filter(|(i, _)| *i != t).map(|(_, t)| t.writes).sum::<u64>();
        if kind == 1 {
            self.thr[me].stall = Some(others(self, me));
        }
        let awake: Vec<usize> = run.iter().copied().filter(|t| self.thr[*t].stall.map_or(true, |w| w != others(self, *t))).collect();
        if awake.iter().any(|t| *t != me) || kind == 0 {
            run = awake;
        } else if kind == 1 {
            // everybody is spinning: go on until the spin loop gives up
            run.retain(|t| *t == me);
        }
        let mut opts: Vec<usize> = vec![];
        match kind {
            0 => {
                opts.push(me);
                if self.preempts < self.cfg.preempt {
                    opts.extend(run.iter().copied().filter(|t| *t != me));
                }
            }
            1 => {
                opts.extend(run.iter().copied().filter(|t| *t != me));
                if opts.is_empty() {
                    opts.push(me)
                }
            }
            _ => opts = run,
        }
        if opts.is_empty() {
            self.schedule.push(255);
            return viol("deadlock", "all threads are blocked");
        }
        let k = if opts.len() > 1 { self.choose(opts.len() as u32, kind != 0)? as usize } else { 0 };
        let t = opts[k];
        self.thr[t].stall = None;
        if kind == 0 && t != me {
            self.preempts += 1;
        }
        self.schedule.push(t as u8);
        if self.thr[t].ts == TS::Join {
            self.thr[t].ts = TS::Run;
            for o in 0..self.thr.len() {
                let v = self.thr[o].vc;
                for i in 0..MAXT {
                    self.thr[t].vc[i] = self.thr[t].vc[i].max(v[i]);
                }
            }
        }
        self.switch_to(t);
        Ok(())
    }

    // ---------------------------------------------------------------- interpreter
    #[inline]
    fn get(&self, fr: &Frame<'m>, o: Opd) -> Val {
        if o < CBASE {
            self.regs[(fr.base + o) as usize]
        } else {
            vc(fr.f.consts[(o - CBASE) as usize])
        }
    }
    fn ex(&mut self, v: Val, w: u32) -> Ex {
        if v.s != 0 {
            v.s
        } else {
            self.ar.cst(w, v.c)
        }
    }
    fn do_bin(&mut self, op: BinOp, w: u32, a: Val, b: Val) -> X<Val> {
        if a.s == 0 && b.s == 0 {
            return match cbin(op, w, a.c, b.c) {
                Some(r) => Ok(vc(r)),
                None => viol("ub", "division by zero"),
            };
        }
        if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) && b.s != 0 {
            let z = self.ar.cst(w, 0);
            let e = self.ar.cmp(Pred::Ne, b.s, z);
            let nz = self.mk((b.c != 0) as u128, e);
            if !self.branch(nz)? {
                return viol("ub", "division by zero");
            }
        }
        let c = cbin(op, w, a.c, b.c).unwrap_or(0);
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let e = self.ar.bin(op, x, y);
        Ok(self.mk(c, e))
    }
    fn do_cmp(&mut self, p: Pred, w: u32, a: Val, b: Val) -> Val {
        let c = ccmp(p, w, a.c, b.c) as u128;
        if a.s == 0 && b.s == 0 {
            return vc(c);
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let e = self.ar.cmp(p, x, y);
        self.mk(c, e)
    }
    fn do_ite(&mut self, c: Val, w: u32, a: Val, b: Val) -> Val {
        let r = if c.c & 1 == 1 { a } else { b };
        if c.s == 0 {
            return r;
        }
        if a.s == 0 && b.s == 0 && a.c == b.c {
            return a;
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let e = self.ar.ite(c.s, x, y);
        self.mk(r.c, e)
    }
    fn do_cast(&mut self, k: CastK, from: u32, to: u32, a: Val) -> Val {
        match k {
            CastK::Same => a,
            CastK::Trunc => {
                let c = mask(to, a.c);
                if a.s == 0 {
                    return vc(c);
                }
                let e = self.ar.extract(a.s, 0, to);
                self.mk(c, e)
            }
            CastK::ZExt => {
                if a.s == 0 {
                    return a;
                }
                let e = self.ar.zext(a.s, to);
                self.mk(a.c, e)
            }
            CastK::SExt => {
                let c = mask(to, sx(from, a.c) as u128);
                if a.s == 0 {
                    return vc(c);
                }
                let e = self.ar.sext(a.s, to);
                self.mk(c, e)
            }
        }
    }
    fn addr(&mut self, v: Val) -> X<u64> {
        Ok(self.concretize(v, 64)? as u64)
    }

    fn goto(&mut self, fr: &mut Frame<'m>, t: u32) -> X<()> {
        let from = fr.blk;
        let b = &fr.f.blocks[t as usize];
        if !b.phis.is_empty() {
            let e = match b.edges.iter().find(|e| e.0 == from) {
                Some(e) => &e.1,
                None => return err("phi without edge"),
            };
            if e.len() == 1 && e[0].2 == 1 {
                let v = self.get(fr, e[0].0);
                self.regs[(fr.base + e[0].1) as usize] = v;
            } else {
                let mut tmp: Vec<Val> = Vec::with_capacity(e.len() + 4);
                for (s, _, n) in e.iter() {
                    for k in 0..*n {
                        tmp.push(self.get(fr, s + k));
                    }
                }
                let mut i = 0;
                for (_, d, n) in e.iter() {
                    for k in 0..*n {
                        self.regs[(fr.base + d + k) as usize] = tmp[i];
                        i += 1;
                    }
                }
            }
        }
        fr.blk = t;
        fr.ip = 0;
        Ok(())
    }

    fn push_call(&mut self, fid: u32, args: &[Val], dst: u32, nret: u32, cont: u32) -> X<()> {
        let m: &'m Module = self.m;
        let f = match m.func(fid) {
            Ok(f) => f,
            Err(e) => return err(e),
        };
        self.fns_seen[fid as usize] = true;
        let base = match self.frames.last() {
            Some(fr) => fr.base + fr.f.nslots,
            None => 0,
        };
        let need = (base + f.nslots) as usize;
        if self.regs.len() < need {
            self.regs.resize(need.max(1024), V0);
        }
        if self.frames.len() > 2000 {
            return viol("stack", "call stack too deep");
        }
        let mut i = 0;
        for (s, n) in &f.params {
            for k in 0..*n {
                if i >= args.len() {
                    return err(format!("argument count calling {}", f.name));
                }
                self.regs[(base + s + k) as usize] = args[i];
                i += 1;
            }
        }
        self.frames.push(Frame { f, blk: 0, ip: 0, base, dst, nret, sp: self.sp, cont });
        Ok(())
    }

    fn stack_names(&self) -> Vec<String> {
        self.frames
            .iter()
            .rev()
            .take(40)
            .map(|f| {
                let b = &f.f.blocks[f.blk as usize];
                let l = b.lines.get((f.ip as usize).saturating_sub(1)).copied().unwrap_or(0);
                format!("{}:{}", demangle(&f.f.name), l)
            })
            .collect()
    }

    pub fn run(&mut self, job: &Job) -> (Stop, Option<Witness>) {
        self.reset(job);
        self.st.paths += 1;
        let tmain = Thread { frames: vec![], regs: vec![], sp: STACK_BASE, maxsp: STACK_BASE, ts: TS::Run, tls: HashMap::new(), vc: [1; MAXT], acqp: [0; MAXT], relf: [0; MAXT], waitval: 0, writes: 0, stall: None };
        self.thr.push(tmain);
        let r = match self.push_call(self.cfg.entry, &[], u32::MAX, 0, u32::MAX) {
            Ok(()) => self.interp(),
            Err(e) => Err(e),
        };
        self.finish(r)
    }
    fn finish(&mut self, r: X<()>) -> (Stop, Option<Witness>) {
        let stop = match r {
            Ok(()) => Stop::Done,
            Err(e) => e,
        };
        self.st.steps += self.steps - self.steps0;
        self.st.max_threads = self.st.max_threads.max(self.thr.len());
        match &stop {
            Stop::Done => {
                self.st.done += 1;
                // a few completed paths are kept, to be run on the real machine code
                let n = self.st.done;
                let k = self.cfg.samples;
                let w = || Witness {
                    kind: "sample".into(),
                    label: String::new(),
                    values: self.vars.iter().enumerate().filter(|(_, v)| v.1).map(|(i, _)| self.model[i]).collect(),
                    schedule: self.schedule.clone(),
                    stack: vec![],
                    model: vec![],
                };
                if self.samples.len() < k {
                    self.samples.push(w());
                } else if k > 0 {
                    self.rnd = self.rnd.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    let i = (self.rnd >> 33) % n as u64;
                    if (i as usize) < k {
                        self.samples[i as usize] = w();
                    }
                }
            }
            Stop::Pruned => self.st.pruned += 1,
            _ => {}
        }
        let w = match &stop {
            Stop::Violation { kind, label } => Some(Witness {
                kind: kind.clone(),
                label: label.clone(),
                values: self.vars.iter().enumerate().filter(|(_, v)| v.1).map(|(i, _)| self.model[i]).collect(),
                schedule: self.schedule.clone(),
                stack: self.stack_names(),
                model: self.model.clone(),
            }),
            _ => None,
        };
        if std::env::var("LSX_STACK").is_ok() {
            if let Stop::Error(e) = &stop {
                eprintln!("error {} at {:#?}", e, self.stack_names());
            }
        }
        (stop, w)
    }

    fn interp(&mut self) -> X<()> {
        'outer: loop {
            // (re)load the current frame
            let mut fr = match self.frames.last() {
                Some(f) => *f,
                None => {
                    // thread finished
                    if self.thr[self.cur].ts != TS::Done {
                        self.thr[self.cur].ts = TS::Done;
                        self.thr[self.cur].writes += 1;
                    }
                    if self.cur == 0 {
                        if self.thr.iter().any(|t| t.ts != TS::Done) {
                            return err("main harness thread returned before the others (missing join)");
                        }
                        return Ok(());
                    }
                    self.sched(2)?;
                    continue;
                }
            };
            self.frp = &raw const fr;
            loop {
                let blk = &fr.f.blocks[fr.blk as usize];
                let ins = match blk.ins.get(fr.ip as usize) {
                    Some(i) => i,
                    None => return err("fell off a block"),
                };
                fr.ip += 1;
                self.steps += 1;
                if self.steps & 0xffff == 0 {
                    if self.steps > self.cfg.max_steps {
                        *self.frames.last_mut().unwrap() = fr;
                        return viol("nontermination", "step limit of the path exceeded");
                    }
                    if let Some(f) = &self.stop_flag {
                        if f.load(std::sync::atomic::Ordering::Relaxed) {
                            return err("time budget");
                        }
                    }
                }
                macro_rules! g {
                    ($o:expr) => {
                        self.get(&fr, $o)
                    };
                }
                macro_rules! set {
                    ($d:expr, $v:expr) => {{
                        let v = $v;
                        self.regs[(fr.base + $d) as usize] = v;
                    }};
                }
                // any early return below must leave the frame position for the stack trace
                macro_rules! t {
                    ($e:expr) => {
                        match $e {
                            Ok(v) => v,
                            Err(e) => {
                                if let Some(l) = self.frames.last_mut() {
                                    *l = fr;
                                }
                                return Err(e);
                            }
                        }
                    };
                }
                macro_rules! sp {
                    ($k:expr) => {
                        if self.multi {
                            let me = self.cur;
                            // re-execute nothing: the frame is saved after advancing ip, the operation runs
                            // when the thread is scheduled again
                            fr.ip -= 1;
                            *self.frames.last_mut().unwrap() = fr;
                            if self.pending_op(me) {
                                self.op_at = self.steps;
                                fr.ip += 1;
                            } else {
                                t!(self.sched($k));
                                let now = self.cur;
                                self.mark_pending(now, me);
                                if now != me {
                                    continue 'outer;
                                }
                                self.op_at = self.steps;
                                fr.ip += 1;
                            }
                        }
                    };
                }
                match ins {
                    I::Bin { op, w, a, b, dst, n, .. } => {
                        for k in 0..*n {
                            let (x, y) = (g!(a + k), g!(b + k));
                            let r = t!(self.do_bin(*op, *w, x, y));
                            set!(dst + k, r);
                        }
                    }
                    I::Cmp { p, w, a, b, dst, n } => {
                        for k in 0..*n {
                            let (x, y) = (g!(a + k), g!(b + k));
                            let r = self.do_cmp(*p, *w, x, y);
                            set!(dst + k, r);
                        }
                    }
                    I::Cast { k, from, to, a, dst, n } => {
                        for i in 0..*n {
                            let x = g!(a + i);
                            let r = self.do_cast(*k, *from, *to, x);
                            set!(dst + i, r);
                        }
                    }
                    I::Copy { src, dst, n } => {
                        for k in 0..*n {
                            set!(dst + k, g!(src + k));
                        }
                    }
                    I::Select { c, cn, a, b, dst, n, w } => {
                        let cs: Vec<Val> = if *cn > 1 { (0..*cn).map(|k| g!(c + k)).collect() } else { vec![] };
                        let c0 = g!(*c);
                        for k in 0..*n {
                            let cc = if *cn > 1 { cs[k as usize] } else { c0 };
                            let (x, y) = (g!(a + k), g!(b + k));
                            let r = self.do_ite(cc, *w, x, y);
                            set!(dst + k, r);
                        }
                    }
                    I::Load { ptr, dst, parts, ord } => {
                        if ord.is_some() {
                            sp!(0);
                        }
                        let p = t!({
                            let v = g!(*ptr);
                            self.addr(v)
                        });
                        for (k, (off, w)) in parts.iter().enumerate() {
                            let a = p.wrapping_add(*off as u64);
                            let v = t!(self.load(a, *w));
                            if self.multi {
                                t!(self.race_access(a, ((*w + 7) / 8) as u64, false, ord.is_some()));
                                if let Some(o) = ord {
                                    self.sync_acquire(a, *o);
                                }
                            }
                            set!(dst + k as u32, v);
                        }
                    }
                    I::Store { ptr, src, parts, ord } => {
                        if ord.is_some() {
                            sp!(0);
                        }
                        let p = t!({
                            let v = g!(*ptr);
                            self.addr(v)
                        });
                        for (k, (off, w)) in parts.iter().enumerate() {
                            let a = p.wrapping_add(*off as u64);
                            let v = g!(src + k as u32);
                            t!(self.store(a, *w, v));
                            if self.multi {
                                t!(self.race_access(a, ((*w + 7) / 8) as u64, true, ord.is_some()));
                                if let Some(o) = ord {
                                    self.thr[self.cur].writes += 1;
                                    self.sync_release(a, *o, false);
                                }
                            }
                        }
                    }
                    I::LoadVecBits { ptr, dst, n, w } => {
                        let p = t!({
                            let v = g!(*ptr);
                            self.addr(v)
                        });
                        let tot = n * w;
                        let v = t!(self.load(p, tot));
                        for k in 0..*n {
                            let e = if v.s != 0 { self.ar.extract(v.s, k * w, *w) } else { 0 };
                            let r = self.mk(mask(*w, v.c >> (k * w)), e);
                            set!(dst + k, r);
                        }
                    }
                    I::StoreVecBits { .. } => t!(err("store of a bit vector")),
                    I::Gep { base, off, idx, dst } => {
                        let b = g!(*base);
                        let mut c = (b.c as u64).wrapping_add(*off);
                        let mut sym = b.s;
                        let mut symoff = false;
                        for (o, sc, w) in idx.iter() {
                            let v = g!(*o);
                            c = c.wrapping_add((sx(*w, v.c) as u64).wrapping_mul(*sc));
                            if v.s != 0 {
                                symoff = true
                            }
                        }
                        if sym != 0 || symoff {
                            let mut e = if sym != 0 { sym } else { self.ar.cst(64, b.c) };
                            let k = self.ar.cst(64, *off as u128);
                            e = self.ar.bin(BinOp::Add, e, k);
                            for (o, sc, w) in idx.iter() {
                                let v = g!(*o);
                                let x = self.ex(v, *w);
                                let x = if *w < 64 {
                                    self.ar.sext(x, 64)
                                } else if *w > 64 {
                                    self.ar.extract(x, 0, 64)
                                } else {
                                    x
                                };
                                let s = self.ar.cst(64, *sc as u128);
                                let p = self.ar.bin(BinOp::Mul, x, s);
                                e = self.ar.bin(BinOp::Add, e, p);
                            }
                            sym = e;
                        }
                        let r = self.mk(c as u128, sym);
                        set!(*dst, r);
                    }
                    I::Alloca { size, align, count, dst } => {
                        let n = t!({
                            let v = g!(*count);
                            self.concretize(v, 64)
                        }) as u64;
                        let al = (*align).max(8);
                        let a = (self.sp + 16 + al - 1) / al * al;
                        let sz = size * n;
                        let lim = STACK_BASE + STACK * (self.cur as u64 + 1) - 4096;
                        if a + sz > lim {
                            t!(viol::<()>("stack", "stack overflow"));
                        }
                        self.sp = a + sz;
                        if self.sp > self.thr[self.cur].maxsp {
                            self.thr[self.cur].maxsp = self.sp;
                        }
                        let o = (a - DATA_BASE) as usize;
                        self.jmem(o, sz as usize, 6);
                        self.mem.st[o..o + sz as usize].fill(LIVE);
                        self.mem.sh[o..o + sz as usize].fill(0);
                        set!(*dst, vc(a as u128));
                    }
                    I::Br(t) => t!(self.goto(&mut fr, *t)),
                    I::CondBr(c, a, b) => {
                        let v = g!(*c);
                        let r = t!(self.branch(v));
                        t!(self.goto(&mut fr, if r { *a } else { *b }));
                    }
                    I::Switch { v, w, cases, def } => {
                        let x = g!(*v);
                        let mut tgt = *def;
                        let mut hit = usize::MAX;
                        for (i, (c, t)) in cases.iter().enumerate() {
                            if *c == x.c {
                                tgt = *t;
                                hit = i;
                                break;
                            }
                        }
                        if x.s != 0 {
                            let mut alts = vec![];
                            let mut taken = 0;
                            let mut defe = self.ar.cst(1, 1);
                            for (i, (c, _)) in cases.iter().enumerate() {
                                let k = self.ar.cst(*w, *c);
                                let e = self.ar.cmp(Pred::Eq, x.s, k);
                                let ne = self.ar.not(e);
                                defe = self.ar.bin(BinOp::And, defe, ne);
                                if i == hit {
                                    taken = e
                                } else {
                                    alts.push(e)
                                }
                            }
                            if hit == usize::MAX {
                                taken = defe
                            } else {
                                alts.push(defe)
                            }
                            t!(self.fork(taken, &alts));
                        }
                        t!(self.goto(&mut fr, tgt));
                    }
                    I::Ret { v, n } => {
                        let vals: [Val; 4];
                        let many: Vec<Val>;
                        let vs: &[Val] = if *n <= 4 {
                            let mut a = [V0; 4];
                            for k in 0..*n {
                                a[k as usize] = g!(v + k);
                            }
                            vals = a;
                            &vals[..*n as usize]
                        } else {
                            many = (0..*n).map(|k| g!(v + k)).collect();
                            &many
                        };
                        // pop the stack memory
                        let lo = (fr.sp - DATA_BASE) as usize;
                        let hi = (self.sp - DATA_BASE) as usize;
                        if hi > lo {
                            self.jmem(lo, hi - lo, 6);
                            self.mem.st[lo..hi].fill(0);
                            self.mem.sh[lo..hi].fill(0);
                            if self.multi && self.cfg.race {
                                // the slots may be reused by this thread only
                                let mut gk = fr.sp & !7;
                                while gk < self.sp {
                                    let old = self.race.remove(&gk);
                                    if self.jon && old.is_some() {
                                        self.jr.push(J::Race(gk, old));
                                    }
                                    gk += 8;
                                }
                            }
                        }
                        self.sp = fr.sp;
                        self.frames.pop();
                        if let Some(c) = self.frames.last_mut() {
                            if fr.dst != u32::MAX {
                                for (k, x) in vs.iter().enumerate().take(fr.nret as usize) {
                                    self.regs[(c.base + fr.dst) as usize + k] = *x;
                                }
                            }
                            let mut c = *c;
                            if fr.cont != u32::MAX {
                                self.goto(&mut c, fr.cont)?;
                            }
                            *self.frames.last_mut().unwrap() = c;
                        }
                        continue 'outer;
                    }
                    I::Unreachable => t!(viol("ub", "unreachable code executed")),
                    I::Rmw { op, ptr, v, w, dst, ord } => {
                        sp!(0);
                        let p = t!({
                            let v = g!(*ptr);
                            self.addr(v)
                        });
                        let old = t!(self.load(p, *w));
                        let x = g!(*v);
                        let new = match op {
                            RmwOp::Xchg => x,
                            RmwOp::Add => t!(self.do_bin(BinOp::Add, *w, old, x)),
                            RmwOp::Sub => t!(self.do_bin(BinOp::Sub, *w, old, x)),
                            RmwOp::And => t!(self.do_bin(BinOp::And, *w, old, x)),
                            RmwOp::Or => t!(self.do_bin(BinOp::Or, *w, old, x)),
                            RmwOp::Xor => t!(self.do_bin(BinOp::Xor, *w, old, x)),
                            RmwOp::Nand => {
                                let a = t!(self.do_bin(BinOp::And, *w, old, x));
                                t!(self.do_bin(BinOp::Xor, *w, a, vc(mask(*w, u128::MAX))))
                            }
                            RmwOp::Max | RmwOp::Min | RmwOp::UMax | RmwOp::UMin => {
                                let p = match op {
                                    RmwOp::Max => Pred::Sgt,
                                    RmwOp::Min => Pred::Slt,
                                    RmwOp::UMax => Pred::Ugt,
                                    _ => Pred::Ult,
                                };
                                let c = self.do_cmp(p, *w, old, x);
                                self.do_ite(c, *w, old, x)
                            }
                        };
                        t!(self.store(p, *w, new));
                        if self.multi {
                            if old.s != 0 || new.s != 0 || old.c != new.c {
                                self.thr[self.cur].writes += 1;
                            }
                            t!(self.race_access(p, ((*w + 7) / 8) as u64, true, true));
                            self.sync_acquire(p, *ord);
                            self.sync_release(p, *ord, true);
                        }
                        set!(*dst, old);
                    }
                    I::CmpXchg { ptr, cmp, new, w, dst, ord, ford } => {
                        sp!(0);
                        let p = t!({
                            let v = g!(*ptr);
                            self.addr(v)
                        });
                        let old = t!(self.load(p, *w));
                        let c = g!(*cmp);
                        let eq = self.do_cmp(Pred::Eq, *w, old, c);
                        let ok = t!(self.branch(eq));
                        if ok {
                            let nv = g!(*new);
                            t!(self.store(p, *w, nv));
                            self.thr[self.cur].writes += 1;
                        }
                        if self.multi {
                            t!(self.race_access(p, ((*w + 7) / 8) as u64, ok, true));
                            self.sync_acquire(p, if ok { *ord } else { *ford });
                            if ok {
                                self.sync_release(p, *ord, true);
                            }
                        }
                        set!(*dst, old);
                        set!(dst + 1, vc(ok as u128));
                    }
                    I::Fence(o) => {
                        if self.multi {
                            self.sync_fence(*o);
                        }
                    }
                    I::InsElem { v, n, e, i, dst } => {
                        let ix = t!({
                            let x = g!(*i);
                            self.concretize(x, 64)
                        }) as u32;
                        for k in 0..*n {
                            let x = if k == ix { g!(*e) } else { g!(v + k) };
                            set!(dst + k, x);
                        }
                    }
                    I::ExtElem { v, n, i, dst } => {
                        let ix = t!({
                            let x = g!(*i);
                            self.concretize(x, 64)
                        }) as u32;
                        set!(*dst, g!(v + ix.min(n - 1)));
                    }
                    I::Shuffle { a, b, n, mask, dst } => {
                        let vs: Vec<Val> = mask.iter().map(|m| if *m < *n { g!(a + m) } else { g!(b + (m - n).min(n - 1)) }).collect();
                        for (k, v) in vs.into_iter().enumerate() {
                            set!(dst + k as u32, v);
                        }
                    }
                    I::InsVal { a, n, e, en, off, dst } => {
                        let ev: Vec<Val> = (0..*en).map(|k| g!(e + k)).collect();
                        for k in 0..*n {
                            let v = if k >= *off && k < off + en { ev[(k - off) as usize] } else { g!(a + k) };
                            set!(dst + k, v);
                        }
                    }
                    I::BitVec { a, an, aw, dst, dn, dw } => {
                        if an * aw > 128 {
                            t!(err::<()>("wide vector bitcast"));
                        }
                        let mut c = 0u128;
                        let mut e: Ex = 0;
                        let anysym = (0..*an).any(|k| g!(a + k).s != 0);
                        for k in 0..*an {
                            let v = g!(a + k);
                            c |= v.c << (k * aw);
                            if anysym {
                                let x = self.ex(v, *aw);
                                e = if k == 0 { x } else { self.ar.concat(x, e) };
                            }
                        }
                        for k in 0..*dn {
                            let x = if anysym { self.ar.extract(e, k * dw, *dw) } else { 0 };
                            let r = self.mk(mask(*dw, c >> (k * dw)), x);
                            set!(dst + k, r);
                        }
                    }
                    I::Unsup(s) => t!(err(format!("unsupported: {}", s))),
                    I::Call { callee, args, dst, nret, retw, cont } => {
                        let fid = match callee {
                            Callee::Fn(id) => *id,
                            Callee::Ind(o) => {
                                let v = g!(*o);
                                let a = t!(self.addr(v));
                                if a < CODE_BASE || (a - CODE_BASE) % 16 != 0 || (a - CODE_BASE) / 16 >= self.m.fns.len() as u64 {
                                    t!(viol("memory", format!("call of invalid function pointer {:#x}", a)))
                                } else {
                                    ((a - CODE_BASE) / 16) as u32
                                }
                            }
                            Callee::Asm(s) => {
                                // black_box style empty assembly
                                if s.split('|').next().map(|x| x.trim().is_empty()).unwrap_or(true) {
                                    if *dst != u32::MAX && *nret > 0 && !args.is_empty() {
                                        set!(*dst, g!(args[0].0));
                                    }
                                    continue;
                                }
                                t!(err(format!("inline assembly {}", s)))
                            }
                        };
                        let it = self.intr[fid as usize];
                        if it == In::None {
                            let mut buf = [V0; 8];
                            let mut big: Vec<Val> = vec![];
                            let tot: u32 = args.iter().map(|a| a.1).sum();
                            let mut i = 0;
                            if tot > 8 {
                                big.reserve(tot as usize);
                            }
                            for (o, n, _) in args.iter() {
                                for k in 0..*n {
                                    let v = g!(o + k);
                                    if tot > 8 {
                                        big.push(v)
                                    } else {
                                        buf[i] = v;
                                    }
                                    i += 1;
                                }
                            }
                            *self.frames.last_mut().unwrap() = fr;
                            let r = if tot > 8 { self.push_call(fid, &big, *dst, *nret, *cont) } else { self.push_call(fid, &buf[..i], *dst, *nret, *cont) };
                            t!(r);
                            continue 'outer;
                        }
                        // scheduling events of intrinsics
                        match it {
                            In::Syscall => {
                                sp!(0);
                            }
                            In::Pause | In::LsxYield | In::SchedYield => {
                                if self.multi {
                                    if *dst != u32::MAX {
                                        set!(*dst, vc(0));
                                    }
                                    *self.frames.last_mut().unwrap() = fr;
                                    t!(self.sched(1));
                                    continue 'outer;
                                }
                            }
                            _ => {}
                        }
                        let mut av: Vec<Val> = Vec::with_capacity(args.len());
                        let mut aw: Vec<u32> = Vec::with_capacity(args.len());
                        for (o, n, w) in args.iter() {
                            for k in 0..*n {
                                av.push(g!(o + k));
                                aw.push(*w);
                            }
                        }
                        *self.frames.last_mut().unwrap() = fr;
                        let mut out = [V0; 2];
                        let nv = args.first().map(|a| a.1).unwrap_or(1);
                        let act = if nv > 1 && !matches!(it, In::VecReduce(_)) {
                            t!(err("vector intrinsic"))
                        } else {
                            t!(self.intrinsic(it, fid, &av, &aw, *retw, &mut out))
                        };
                        fr = *self.frames.last().unwrap();
                        if *dst != u32::MAX {
                            for k in 0..(*nret).min(2) {
                                set!(dst + k, out[k as usize]);
                            }
                        }
                        if act {
                            // blocked: switch
                            *self.frames.last_mut().unwrap() = fr;
                            t!(self.sched(2));
                            continue 'outer;
                        }
                        if *cont != u32::MAX {
                            t!(self.goto(&mut fr, *cont));
                        }
                    }
                }
            }
        }
    }

    // A thread that was switched away from at a scheduling point resumes *at* the operation, without
    // passing through a second scheduling point.
    fn pending_op(&mut self, t: usize) -> bool {
        let p = self.thr[t].waitval == 1;
        self.thr[t].waitval = 0;
        p
    }
    fn mark_pending(&mut self, now: usize, me: usize) {
        if now != me {
            self.thr[me].waitval = 1;
        }
    }

    fn ovf(&mut self, op: BinOp, signed: bool, w: u32, a: Val, b: Val) -> X<[Val; 2]> {
        let r = self.do_bin(op, w, a, b)?;
        let (ew, ext) = (if op == BinOp::Mul { 2 * w } else { w + 1 }, if signed { CastK::SExt } else { CastK::ZExt });
        if ew > 128 && a.s == 0 && b.s == 0 {
            // concrete 64x64 multiply etc. fits in 128 bits; wider ones are not needed
        }
        if ew > 128 {
            return err("128-bit overflow arithmetic");
        }
        let x = self.do_cast(ext, w, ew, a);
        let y = self.do_cast(ext, w, ew, b);
        let z = self.do_bin(op, ew, x, y)?;
        let back = self.do_cast(ext, w, ew, r);
        let o = self.do_cmp(Pred::Ne, ew, z, back);
        Ok([r, o])
    }

    fn intrinsic(&mut self, it: In, fid: u32, a: &[Val], aw: &[u32], retw: u32, out: &mut [Val; 2]) -> X<bool> {
        let w = retw;
        match it {
            In::None => unreachable!(),
            In::Nop => {}
            In::Panic => {
                let n = &self.m.fns[fid as usize].name;
                let mut l = demangle(n);
                // core::panicking::panic(&str, loc) carries the message
                if n.contains("9panicking5panic") && a.len() >= 2 {
                    l = format!("{}: {}", l, self.read_str(a[0].c as u64, a[1].c as u64));
                }
                return viol("panic", l);
            }
            In::Abort => return viol("abort", demangle(&self.m.fns[fid as usize].name)),
            In::Malloc => {
                let n = self.concretize(a[0], 64)? as u64;
                out[0] = vc(self.malloc(n, 16, false)? as u128);
            }
            In::Calloc => {
                let n = self.concretize(a[0], 64)? as u64;
                let m = self.concretize(a[1], 64)? as u64;
                out[0] = vc(self.malloc(n.wrapping_mul(m), 16, true)? as u128);
            }
            In::AlignedAlloc => {
                let al = self.concretize(a[0], 64)? as u64;
                let n = self.concretize(a[1], 64)? as u64;
                out[0] = vc(self.malloc(n, al, false)? as u128);
            }
            In::PosixMemalign => {
                let p = self.addr(a[0])?;
                let al = self.concretize(a[1], 64)? as u64;
                let n = self.concretize(a[2], 64)? as u64;
                let r = self.malloc(n, al, false)?;
                self.store(p, 64, vc(r as u128))?;
            }
            In::Realloc => {
                let p = self.addr(a[0])?;
                let n = self.concretize(a[1], 64)? as u64;
                let r = self.malloc(n, 16, false)?;
                if p != 0 {
                    let old = match self.allocs.get(&p) {
                        Some(al) if al.live => al.size,
                        _ => return viol("memory", "realloc of a dead pointer"),
                    };
                    self.memmove(r, p, old.min(n))?;
                    self.free(p)?;
                }
                out[0] = vc(r as u128);
            }
            In::Free => {
                let p = self.addr(a[0])?;
                self.free(p)?;
            }
            In::Memcpy | In::MemcpyFn => {
                let n = self.concretize(a[2], aw[2])? as u64;
                let d = self.addr(a[0])?;
                let s = self.addr(a[1])?;
                self.memmove(d, s, n)?;
                out[0] = a[0];
            }
            In::Memset => {
                let n = self.concretize(a[2], aw[2])? as u64;
                let d = self.addr(a[0])?;
                if n > 0 {
                    let o = self.chk(d, n, true)?;
                    if self.multi {
                        self.race_range(d, n, true)?;
                    }
                    self.jmem(o, n as usize, 3);
                    self.mem.b[o..o + n as usize].fill(a[1].c as u8);
                    let x = if a[1].s == 0 {
                        0
                    } else {
                        let e = if self.ar.w(a[1].s) > 8 { self.ar.extract(a[1].s, 0, 8) } else { a[1].s };
                        (e as u64) << 8
                    };
                    self.mem.sh[o..o + n as usize].fill(x);
                }
                out[0] = a[0];
            }
            In::Bcmp | In::Memcmp => {
                let n = self.concretize(a[2], 64)? as u64;
                let p = self.addr(a[0])?;
                let q = self.addr(a[1])?;
                let mut r = vc(0);
                for k in (0..n).rev() {
                    let x = self.load(p + k, 8)?;
                    let y = self.load(q + k, 8)?;
                    if self.multi {
                        self.race_access(p + k, 1, false, false)?;
                        self.race_access(q + k, 1, false, false)?;
                    }
                    let ne = self.do_cmp(Pred::Ne, 8, x, y);
                    let d = if it == In::Bcmp {
                        vc(1)
                    } else {
                        let x = self.do_cast(CastK::ZExt, 8, 32, x);
                        let y = self.do_cast(CastK::ZExt, 8, 32, y);
                        self.do_bin(BinOp::Sub, 32, x, y)?
                    };
                    r = self.do_ite(ne, 32, d, r);
                }
                out[0] = r;
            }
            In::Strlen => {
                let p = self.addr(a[0])?;
                let mut n = 0;
                loop {
                    let v = self.load(p + n, 8)?;
                    if v.s != 0 {
                        return err("strlen of symbolic data");
                    }
                    if v.c == 0 {
                        break;
                    }
                    n += 1;
                }
                out[0] = vc(n as u128);
            }
            In::Errno => {
                let e = self.tls_addr(u64::MAX, 4)?;
                out[0] = vc(e as u128);
            }
            In::Ret0 => out[0] = vc(0),
            In::Write => out[0] = a[2],
            In::Umin | In::Umax | In::Smin | In::Smax => {
                let p = match it {
                    In::Umin => Pred::Ult,
                    In::Umax => Pred::Ugt,
                    In::Smin => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let c = self.do_cmp(p, w, a[0], a[1]);
                out[0] = self.do_ite(c, w, a[0], a[1]);
            }
            In::UaddSat => {
                let [r, o] = self.ovf(BinOp::Add, false, w, a[0], a[1])?;
                out[0] = self.do_ite(o, w, vc(mask(w, u128::MAX)), r);
            }
            In::UsubSat => {
                let c = self.do_cmp(Pred::Ult, w, a[0], a[1]);
                let r = self.do_bin(BinOp::Sub, w, a[0], a[1])?;
                out[0] = self.do_ite(c, w, vc(0), r);
            }
            In::SaddSat | In::SsubSat => {
                let [r, o] = self.ovf(if it == In::SaddSat { BinOp::Add } else { BinOp::Sub }, true, w, a[0], a[1])?;
                let neg = self.do_cmp(Pred::Slt, w, a[0], vc(0));
                let lo = vc(1u128 << (w - 1));
                let hi = vc((1u128 << (w - 1)) - 1);
                let s = self.do_ite(neg, w, lo, hi);
                out[0] = self.do_ite(o, w, s, r);
            }
            In::UaddO => *out = self.ovf(BinOp::Add, false, w, a[0], a[1])?,
            In::UsubO => {
                let r = self.do_bin(BinOp::Sub, w, a[0], a[1])?;
                let c = self.do_cmp(Pred::Ult, w, a[0], a[1]);
                *out = [r, c];
            }
            In::UmulO => *out = self.ovf(BinOp::Mul, false, w, a[0], a[1])?,
            In::SaddO => *out = self.ovf(BinOp::Add, true, w, a[0], a[1])?,
            In::SsubO => *out = self.ovf(BinOp::Sub, true, w, a[0], a[1])?,
            In::SmulO => *out = self.ovf(BinOp::Mul, true, w, a[0], a[1])?,
            In::Ctlz | In::Cttz => {
                let lead = it == In::Ctlz;
                if a[0].s == 0 {
                    let v = a[0].c;
                    let r = if v == 0 {
                        w
                    } else if lead {
                        w - (128 - v.leading_zeros())
                    } else {
                        v.trailing_zeros()
                    };
                    out[0] = vc(r as u128);
                } else {
                    let mut r = vc(w as u128);
                    for k in 0..w {
                        // lowest priority first
                        let bit = if lead { k } else { w - 1 - k };
                        let e = self.ar.extract(a[0].s, bit, 1);
                        let c = self.mk((a[0].c >> bit) & 1, e);
                        let n = if lead { w - 1 - bit } else { bit };
                        r = self.do_ite(c, w, vc(n as u128), r);
                    }
                    out[0] = r;
                }
            }
            In::Ctpop => {
                if a[0].s == 0 {
                    out[0] = vc(a[0].c.count_ones() as u128);
                } else {
                    let mut r = vc(0);
                    for k in 0..w {
                        let e = self.ar.extract(a[0].s, k, 1);
                        let c = self.mk((a[0].c >> k) & 1, e);
                        let x = self.do_cast(CastK::ZExt, 1, w, c);
                        r = self.do_bin(BinOp::Add, w, r, x)?;
                    }
                    out[0] = r;
                }
            }
            In::Bswap | In::Bitrev => {
                if a[0].s != 0 {
                    let unit = if it == In::Bswap { 8 } else { 1 };
                    let n = w / unit;
                    let mut e = 0;
                    let mut c = 0u128;
                    for k in 0..n {
                        let x = self.ar.extract(a[0].s, (n - 1 - k) * unit, unit);
                        c |= mask(unit, a[0].c >> ((n - 1 - k) * unit)) << (k * unit);
                        e = if k == 0 { x } else { self.ar.concat(x, e) };
                    }
                    out[0] = self.mk(c, e);
                } else {
                    let v = a[0].c;
                    out[0] = vc(if it == In::Bswap { v.swap_bytes() >> (128 - w) } else { v.reverse_bits() >> (128 - w) });
                }
            }
            In::Fshl | In::Fshr => {
                if a[2].s != 0 {
                    return err("funnel shift by symbolic amount");
                }
                let k = (a[2].c % w as u128) as u32;
                let k = if it == In::Fshl { k } else { (w - k) % w };
                // fshl by k (for fshr: by w-k, with k==0 meaning the low operand)
                if k == 0 {
                    out[0] = if it == In::Fshl || a[2].c % w as u128 != 0 { a[0] } else { a[1] };
                } else {
                    let h = self.do_bin(BinOp::Shl, w, a[0], vc(k as u128))?;
                    let l = self.do_bin(BinOp::LShr, w, a[1], vc((w - k) as u128))?;
                    out[0] = self.do_bin(BinOp::Or, w, h, l)?;
                }
            }
            In::Ucmp | In::Scmp => {
                let (pl, pg) = if it == In::Ucmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.do_cmp(pl, aw[0], a[0], a[1]);
                let g = self.do_cmp(pg, aw[0], a[0], a[1]);
                let r = self.do_ite(g, w, vc(1), vc(0));
                out[0] = self.do_ite(l, w, vc(mask(w, u128::MAX)), r);
            }
            In::Abs => {
                let neg = self.do_cmp(Pred::Slt, w, a[0], vc(0));
                let m = self.do_bin(BinOp::Sub, w, vc(0), a[0])?;
                out[0] = self.do_ite(neg, w, m, a[0]);
            }
            In::IsConst => out[0] = vc(0),
            In::Expect => out[0] = a[0],
            In::Assume => {
                if a[0].s == 0 && a[0].c & 1 == 0 {
                    return viol("ub", "llvm.assume of a false condition");
                }
            }
            In::TlsAddr => {
                let base = a[0].c as u64;
                let m: &'m Module = self.m;
                let g = match m.gvars.iter().find(|g| g.tls && g.addr == base) {
                    Some(g) => g,
                    None => return err("threadlocal.address on unknown global"),
                };
                let fresh = !self.thr[self.cur].tls.contains_key(&base);
                let p = self.tls_addr(base, g.size)?;
                if fresh {
                    for (off, w, e) in &g.init {
                        let v = match e {
                            CExpr::Int(v) => *v,
                            CExpr::Sym(n, k) => m.sym_addr(n).unwrap_or(0).wrapping_add(*k as u64) as u128,
                        };
                        self.store(p + off, *w, vc(v))?;
                    }
                }
                out[0] = vc(p as u128);
            }
            In::Pause | In::LsxYield => {}
            In::SchedYield => out[0] = vc(0),
            In::ObjSize => out[0] = vc(mask(w, u128::MAX)),
            In::Ptrmask => out[0] = self.do_bin(BinOp::And, 64, a[0], a[1])?,
            In::VecReduce(k) => {
                let mut r = a[0];
                for x in &a[1..] {
                    r = self.do_bin(
                        match k {
                            0 => BinOp::Or,
                            1 => BinOp::And,
                            _ => BinOp::Add,
                        },
                        w,
                        r,
                        *x,
                    )?;
                }
                out[0] = r;
            }
            In::Syscall => return self.syscall(a, out),
            In::LsxSym(sw) => {
                let (_, v) = self.fresh(sw, 0, true);
                out[0] = if sw < retw { self.do_cast(CastK::ZExt, sw, retw, v) } else { v };
            }
            In::LsxRange => {
                // inclusive bounds
                let lo = a[0].c as u64;
                let hi = a[1].c as u64;
                if a[0].s != 0 || a[1].s != 0 {
                    return err("lsx_range with symbolic bounds");
                }
                if lo > hi {
                    return err("lsx_range empty");
                }
                let (_, v) = self.fresh(w, lo, true);
                let l = self.do_cmp(Pred::Uge, w, v, vc(lo as u128));
                let h = self.do_cmp(Pred::Ule, w, v, vc(hi as u128));
                if l.c != 1 || h.c != 1 {
                    return err("internal: model outside the range of a variable");
                }
                if lo == hi {
                    out[0] = vc(lo as u128);
                    let k = self.ar.cst(w, lo as u128);
                    let e = self.ar.cmp(Pred::Eq, v.s, k);
                    self.add_pc(e);
                } else {
                    if l.s != 0 {
                        self.add_pc(l.s);
                    }
                    if h.s != 0 {
                        self.add_pc(h.s);
                    }
                    out[0] = v;
                }
            }
            In::LsxAssume => self.assume(Val { c: a[0].c & 1, s: a[0].s })?,
            In::LsxFail => {
                let s = self.read_str(a[0].c as u64, a[1].c as u64);
                return viol("assert", s);
            }
            In::LsxCover => {
                let s = self.read_str(a[0].c as u64, a[1].c as u64);
                if !self.covers.contains(&s) {
                    self.covers.insert(s);
                }
            }
            In::LsxParam => {
                let i = a[0].c as usize;
                out[0] = vc(self.cfg.params.get(i).copied().unwrap_or(0) as u128);
            }
            In::LsxConc => out[0] = vc(self.concretize(a[0], aw[0])?),
            In::LsxTrace => {
                if self.cfg.trace {
                    eprintln!("trace[{}] {:#x} = {}", self.cur, a[0].c, a[0].c);
                }
            }
            In::LsxTid => out[0] = vc(self.cur as u128),
            In::LsxLive => out[0] = vc(mask(w, self.live as u128)),
            In::LsxIgnoreLeaks => {}
            In::LsxSpawn => {
                let f = a[0].c as u64;
                let fid = ((f - CODE_BASE) / 16) as u32;
                let t = self.thr.len();
                if t >= MAXT {
                    return err("too many threads");
                }
                let mut v = self.thr[self.cur].vc;
                v[t] += 1;
                self.thr[self.cur].vc[self.cur] += 1;
                let sb = STACK_BASE + STACK * t as u64;
                let me = self.cur;
                self.thr.push(Thread { frames: vec![], regs: vec![], sp: sb, maxsp: sb, ts: TS::Run, tls: HashMap::new(), vc: v, acqp: [0; MAXT], relf: [0; MAXT], waitval: 0, writes: 0, stall: None });
                self.multi = true;
                self.switch_to(t);
                let r = self.push_call(fid, &[a[1]], u32::MAX, 0, u32::MAX);
                self.switch_to(me);
                r?;
                out[0] = vc(t as u128);
            }
            In::LsxJoin => {
                if self.multi {
                    self.thr[self.cur].ts = TS::Join;
                    return Ok(true);
                }
            }
            In::Unsupported => return err(format!("call of unsupported external {}", self.m.fns[fid as usize].name)),
        }
        Ok(false)
    }
    fn tls_addr(&mut self, key: u64, size: u64) -> X<u64> {
        if let Some(a) = self.thr[self.cur].tls.get(&key) {
            return Ok(*a);
        }
        let a = self.malloc(size, 16, true)?;
        self.live -= 1;
        self.thr[self.cur].tls.insert(key, a);
        Ok(a)
    }
    fn syscall(&mut self, a: &[Val], out: &mut [Val; 2]) -> X<bool> {
        let nr = a[0].c as u64;
        if nr != 202 {
            return err(format!("syscall {}", nr));
        }
        let addr = self.addr(a[1])?;
        let op = (a[2].c as u32) & 0x7f;
        let val = a[3].c as u32;
        match op {
            0 | 9 => {
                let v = self.load(addr, 32)?;
                let cv = self.concretize(v, 32)? as u32;
                if cv != val {
                    let e = self.tls_addr(u64::MAX, 4)?;
                    self.store(e, 32, vc(11))?;
                    out[0] = vc(mask(64, u128::MAX));
                    return Ok(false);
                }
                if !self.multi {
                    return viol("deadlock", "futex wait with a single thread");
                }
                self.thr[self.cur].ts = TS::Futex(addr);
                out[0] = vc(0);
                Ok(true)
            }
            1 | 10 => {
                let mut n = 0;
                while n < val {
                    let w: Vec<usize> = (0..self.thr.len()).filter(|t| self.thr[*t].ts == TS::Futex(addr)).collect();
                    if w.is_empty() {
                        break;
                    }
                    // wake in order of thread number (std's locks are correct for any order)
                    self.thr[w[0]].ts = TS::Run;
                    self.thr[self.cur].writes += 1;
                    n += 1;
                }
                out[0] = vc(n as u128);
                Ok(false)
            }
            _ => err(format!("futex op {}", op)),
        }
    }
}

pub fn cfg_deadline(s: f64) -> Instant {
    Instant::now() + Duration::from_secs_f64(s)
}

/// readable form of a v0-mangled name: the identifiers in order
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut parts: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1
            }
            if let Ok(l) = n[st..i].parse::<usize>() {
                if i < b.len() && b[i] == b'_' {
                    i += 1
                }
                if l > 0 && l < 80 && i + l <= b.len() {
                    parts.push(n[i..i + l].to_string());
                    i += l;
                    continue;
                }
            }
        } else if b[i] == b's' || b[i] == b'B' || b[i] == b'C' {
            // disambiguators and back references: skip base-62 digits up to '_'
            let mut j = i + 1;
            if b[i] == b'C' && j < b.len() && b[j] == b's' {
                j += 1
            } else if b[i] == b'C' {
                i += 1;
                continue;
            }
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        i += 1;
    }
    parts.join("::")
}
