//! Symbolic executor: interprets the LLVM IR, forking at symbolic branches.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};

/// Reported when a path exceeds the step limit; only believed when the native run
/// does not end either.
const ENDLESS: &str = "livelock: the code runs on without waiting for anything";

#[derive(Clone)]
pub struct Frame {
    func: usize,
    blk: u32,
    ip: u32,
    regs: Vec<V>,
    /// destination register in the caller
    dst: u32,
    /// normal destination of an invoke, or u32::MAX
    inv: u32,
    sp: u64,
}

#[derive(Clone)]
pub struct State {
    cur: Frame,
    below: Vec<Arc<Frame>>,
    mem: Mem,
    pc: Vec<V>,
    model: Arc<Vec<u64>>,
    /// widths of the symbolic inputs created so far
    inputs: Vec<u8>,
    conc: Vec<(u128, u64)>,
    obs: Vec<(V, u8)>,
    msgs: Vec<Arc<str>>,
    steps: u64,
    forks: u32,
    errno: u64,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub msg: String,
    pub at: String,
    pub inputs: Vec<(u8, u64)>,
    pub trace: Vec<String>,
    pub notes: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Sample {
    pub key: u128,
    pub inputs: Vec<(u8, u64)>,
    pub obs: Vec<u64>,
}

pub struct Opts {
    pub max_steps: u64,
    pub max_paths: u64,
    pub time_s: f64,
    pub threads: usize,
    pub samples: usize,
    pub stop: bool,
    pub known: Vec<String>,
    pub solver_ms: u32,
    pub max_conc: u32,
    pub trace: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ext {
    Unknown,
    Nop,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    AlignedAlloc,
    Memcpy,
    Memset,
    Bcmp,
    Memcmp,
    Strlen,
    Ret0,
    RetNeg1,
    Errno,
    Getrandom,
    Syscall,
    ClockGettime,
    Abort,
    Write,
    SymInt(u32),
    SymBytes,
    SymAssume,
    SymAssert,
    SymFail,
    SymObs,
    SymObsBytes,
    SymCover,
    SymChoice,
    SymConc,
    SymHeap,
    SymMsg,
    SymPrune,
    SymIsSym,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitreverse,
    Fshl,
    Fshr,
    Umax,
    Umin,
    Smax,
    Smin,
    Uadd,
    Usub,
    Umul,
    Sadd,
    Ssub,
    Smul,
    UaddSat,
    UsubSat,
    SaddSat,
    SsubSat,
    Abs,
    Ucmp,
    Scmp,
    Ident,
    Expect,
    IsConst,
    LoadRel,
    VReduce(u8),
    Memchr,
    Trap,
}

fn resolve(n: &str) -> Ext {
    use Ext::*;
    let l = |p: &str| n.starts_with(p);
    if let Some(r) = n.strip_prefix("llvm.") {
        let l = |p: &str| r.starts_with(p);
        return if l("memcpy") || l("memmove") {
            Memcpy
        } else if l("memset") {
            Memset
        } else if l("lifetime") || l("assume") || l("experimental.noalias") || l("dbg") || l("x86.sse2.pause") || l("invariant") || l("prefetch") || l("va_") || l("donothing") {
            Nop
        } else if l("ctlz") {
            Ctlz
        } else if l("cttz") {
            Cttz
        } else if l("ctpop") {
            Ctpop
        } else if l("bswap") {
            Bswap
        } else if l("bitreverse") {
            Bitreverse
        } else if l("fshl") {
            Fshl
        } else if l("fshr") {
            Fshr
        } else if l("umax") {
            Umax
        } else if l("umin") {
            Umin
        } else if l("smax") {
            Smax
        } else if l("smin") {
            Smin
        } else if l("uadd.with") {
            Uadd
        } else if l("usub.with") {
            Usub
        } else if l("umul.with") {
            Umul
        } else if l("sadd.with") {
            Sadd
        } else if l("ssub.with") {
            Ssub
        } else if l("smul.with") {
            Smul
        } else if l("uadd.sat") {
            UaddSat
        } else if l("usub.sat") {
            UsubSat
        } else if l("sadd.sat") {
            SaddSat
        } else if l("ssub.sat") {
            SsubSat
        } else if l("abs") {
            Abs
        } else if l("ucmp") {
            Ucmp
        } else if l("scmp") {
            Scmp
        } else if l("threadlocal.address") || l("launder") || l("strip.inv") || l("ssa.copy") || l("ptrmask.id") {
            Ident
        } else if l("expect") {
            Expect
        } else if l("is.constant") {
            IsConst
        } else if l("load.relative") {
            LoadRel
        } else if l("vector.reduce.add") {
            VReduce(0)
        } else if l("vector.reduce.or") {
            VReduce(1)
        } else if l("vector.reduce.and") {
            VReduce(2)
        } else if l("vector.reduce.xor") {
            VReduce(3)
        } else if l("vector.reduce.umax") {
            VReduce(4)
        } else if l("vector.reduce.umin") {
            VReduce(5)
        } else if l("trap") || l("debugtrap") || l("ubsantrap") {
            Trap
        } else {
            Unknown
        };
    }
    match n {
        "malloc" => Malloc,
        "calloc" => Calloc,
        "realloc" => Realloc,
        "free" => Free,
        "posix_memalign" => PosixMemalign,
        "aligned_alloc" => AlignedAlloc,
        "memcpy" | "memmove" => Memcpy,
        "memset" => Memset,
        "bcmp" => Bcmp,
        "memcmp" => Memcmp,
        "memchr" => Memchr,
        "strlen" => Strlen,
        "getenv" | "__cxa_thread_atexit_impl" | "pthread_atfork" | "sched_yield" | "pthread_self" | "gettid" | "getpid" => Ret0,
        "__errno_location" => Errno,
        "getrandom" => Getrandom,
        "syscall" => Syscall,
        "clock_gettime" => ClockGettime,
        "abort" => Abort,
        "write" => Write,
        "sym_u8" => SymInt(8),
        "sym_u16" => SymInt(16),
        "sym_u32" => SymInt(32),
        "sym_u64" => SymInt(64),
        "sym_bytes" => SymBytes,
        "sym_assume" => SymAssume,
        "sym_assert" => SymAssert,
        "sym_fail" => SymFail,
        "sym_obs" => SymObs,
        "sym_obs_bytes" => SymObsBytes,
        "sym_cover" => SymCover,
        "sym_choice" => SymChoice,
        "sym_concrete" => SymConc,
        "sym_heap_live" => SymHeap,
        "sym_msg" => SymMsg,
        "sym_prune" => SymPrune,
        "sym_is_symbolic" => SymIsSym,
        _ if l("sym_") => Unknown,
        "open64" | "open" | "stat64" | "statx" | "fstat64" | "read" | "mmap64" | "readlink" | "dl_iterate_phdr" => RetNeg1,
        _ => Unknown,
    }
}

pub struct Work {
    pub q: Mutex<Vec<State>>,
    pub cv: Condvar,
    pub idle: AtomicUsize,
    pub qlen: AtomicUsize,
    pub stop: AtomicBool,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub pruned: u64,
    pub infeasible: u64,
    pub steps: u64,
    pub forks: u64,
    pub max_forks: u32,
    pub asserts: u64,
    pub sym_asserts: u64,
    pub max_inputs: usize,
    pub max_path_steps: u64,
}

pub struct Global {
    pub m: &'static Module,
    exts: Vec<Ext>,
    panics: Vec<bool>,
    pub opts: Opts,
    pub work: Work,
    pub sh: Arc<Shared>,
    pub stats: Mutex<Stats>,
    pub viol: Mutex<BTreeMap<String, (Violation, u64)>>,
    pub errors: Mutex<BTreeMap<String, u64>>,
    pub covers: Mutex<BTreeSet<u64>>,
    pub samples: Mutex<BTreeMap<u128, Sample>>,
    pub covered: Mutex<Vec<Vec<bool>>>,
    pub npaths: AtomicU64,
    start: std::time::Instant,
}

pub fn run(m: &'static Module, entry: &str, opts: Opts) -> Result<Arc<Global>, String> {
    let f = *m.fidx.get(entry).ok_or(format!("no entry function {entry}"))?;
    let exts = m.exts.iter().map(|n| resolve(n)).collect();
    let panics = m
        .funcs
        .iter()
        .map(|f| f.name.contains("4core9panicking") && f.name.starts_with("_RNv") || f.name.contains("18handle_alloc_error") || f.name.contains("17capacity_overflow"))
        .collect();
    let covered = m.funcs.iter().map(|f| vec![false; f.blocks.len()]).collect();
    let n = opts.threads;
    let g = Arc::new(Global {
        m,
        exts,
        panics,
        opts,
        work: Work { q: Mutex::new(vec![]), cv: Condvar::new(), idle: AtomicUsize::new(0), qlen: AtomicUsize::new(0), stop: AtomicBool::new(false) },
        sh: Arc::new(Shared::new()),
        stats: Default::default(),
        viol: Default::default(),
        errors: Default::default(),
        covers: Default::default(),
        samples: Default::default(),
        covered: Mutex::new(covered),
        npaths: AtomicU64::new(0),
        start: std::time::Instant::now(),
    });
    let mut mem = Mem::new();
    mem.sp = SBASE + 4096;
    let st = State {
        cur: Frame { func: f, blk: 0, ip: 0, regs: vec![V::C(0); m.funcs[f].nregs as usize], dst: u32::MAX, inv: u32::MAX, sp: mem.sp },
        below: vec![],
        mem,
        pc: vec![],
        model: Arc::new(vec![]),
        inputs: vec![],
        conc: vec![],
        obs: vec![],
        msgs: vec![],
        steps: 0,
        forks: 0,
        errno: 0,
    };
    g.work.q.lock().unwrap().push(st);
    g.work.qlen.store(1, Ordering::SeqCst);
    let mut hs = vec![];
    for _ in 0..n {
        let g = g.clone();
        hs.push(std::thread::Builder::new().stack_size(512 << 20).spawn(move || Worker::new(g).main()).unwrap());
    }
    for h in hs {
        if h.join().is_err() {
            *g.errors.lock().unwrap().entry("worker thread panicked".into()).or_insert(0) += 1;
        }
    }
    Ok(g)
}

struct Worker {
    g: Arc<Global>,
    m: &'static Module,
    solver: Solver,
    local: Vec<State>,
    stats: Stats,
    cov: Vec<Vec<bool>>,
    covers: BTreeSet<u64>,
}

enum Flow {
    Next,
    End(End),
}
enum End {
    Done,
    Pruned,
    Infeasible,
    /// a violation that ends the path
    Viol(String),
    Err(String),
    /// this state was re-queued or dropped because of a fork
    Dead,
}
type R<T> = Result<T, End>;

fn er<T>(r: Result<T, String>) -> R<T> {
    r.map_err(End::Err)
}

impl Worker {
    fn new(g: Arc<Global>) -> Self {
        let m = g.m;
        Worker {
            m,
            solver: Solver::new(g.sh.clone(), g.opts.solver_ms),
            local: vec![],
            stats: Stats::default(),
            cov: m.funcs.iter().map(|f| vec![false; f.blocks.len()]).collect(),
            covers: BTreeSet::new(),
            g,
        }
    }
    fn main(mut self) {
        let g = self.g.clone();
        loop {
            if g.work.stop.load(Ordering::Relaxed) {
                break;
            }
            let st = match self.local.pop() {
                Some(s) => s,
                None => {
                    let mut q = g.work.q.lock().unwrap();
                    g.work.idle.fetch_add(1, Ordering::SeqCst);
                    let s = loop {
                        if g.work.stop.load(Ordering::Relaxed) {
                            break None;
                        }
                        if let Some(s) = q.pop() {
                            g.work.qlen.store(q.len(), Ordering::SeqCst);
                            break Some(s);
                        }
                        if g.work.idle.load(Ordering::SeqCst) == g.opts.threads {
                            g.work.stop.store(true, Ordering::SeqCst);
                            g.work.cv.notify_all();
                            break None;
                        }
                        q = g.work.cv.wait_timeout(q, std::time::Duration::from_millis(20)).unwrap().0;
                    };
                    g.work.idle.fetch_sub(1, Ordering::SeqCst);
                    match s {
                        Some(s) => s,
                        None => break,
                    }
                }
            };
            self.run_path(st);
            if g.start.elapsed().as_secs_f64() > g.opts.time_s {
                *g.errors.lock().unwrap().entry("time limit reached before the exploration was complete".into()).or_insert(0) += 1;
                g.work.stop.store(true, Ordering::SeqCst);
            }
            if g.npaths.load(Ordering::Relaxed) > g.opts.max_paths {
                *g.errors.lock().unwrap().entry("path limit reached before the exploration was complete".into()).or_insert(0) += 1;
                g.work.stop.store(true, Ordering::SeqCst);
            }
        }
        let mut s = g.stats.lock().unwrap();
        s.paths += self.stats.paths;
        s.pruned += self.stats.pruned;
        s.infeasible += self.stats.infeasible;
        s.steps += self.stats.steps;
        s.forks += self.stats.forks;
        s.asserts += self.stats.asserts;
        s.sym_asserts += self.stats.sym_asserts;
        s.max_forks = s.max_forks.max(self.stats.max_forks);
        s.max_inputs = s.max_inputs.max(self.stats.max_inputs);
        s.max_path_steps = s.max_path_steps.max(self.stats.max_path_steps);
        drop(s);
        let mut c = g.covered.lock().unwrap();
        for (a, b) in c.iter_mut().zip(self.cov.iter()) {
            for (x, y) in a.iter_mut().zip(b.iter()) {
                *x |= *y
            }
        }
        g.covers.lock().unwrap().extend(self.covers.iter());
    }
    fn push(&mut self, st: State) {
        self.stats.forks += 1;
        self.local.push(st);
        let g = &self.g;
        if self.local.len() > 1 && g.work.idle.load(Ordering::Relaxed) > g.work.qlen.load(Ordering::Relaxed) {
            let k = (self.local.len() / 2).max(1);
            let mut q = g.work.q.lock().unwrap();
            q.extend(self.local.drain(..k));
            g.work.qlen.store(q.len(), Ordering::SeqCst);
            g.work.cv.notify_all();
        }
    }
    fn inputs_of(&self, st: &State, model: &[u64]) -> Vec<(u8, u64)> {
        st.inputs.iter().enumerate().map(|(i, w)| (*w, *model.get(i).unwrap_or(&0) & mask(*w as u32))).collect()
    }
    fn where_(&self, st: &State) -> (String, Vec<String>) {
        let mut t = vec![];
        let desc = |f: &Frame, back: bool| -> Vec<String> {
            let fun = &self.m.funcs[f.func];
            let b = &fun.blocks[f.blk as usize];
            let ip = if back { (f.ip as usize).saturating_sub(1) } else { f.ip as usize };
            let d = b.dbg.get(ip.min(b.dbg.len().saturating_sub(1))).copied().unwrap_or(0);
            let mut v = vec![];
            let mut d = d;
            let mut n = 0;
            while d != 0 && n < 20 {
                let Some(l) = self.m.dilocs.get(&d) else { break };
                let (name, file) = self.scope(l.scope);
                v.push(format!("{} ({}:{})", name, file, l.line));
                d = l.inlined;
                n += 1;
            }
            if v.is_empty() {
                v.push(fun.name.clone());
            }
            v
        };
        t.extend(desc(&st.cur, false));
        for f in st.below.iter().rev().take(12) {
            t.extend(desc(f, true));
        }
        let at = t.iter().find(|x| x.contains("/repo/")).or(t.first()).cloned().unwrap_or_default();
        t.truncate(40);
        (at, t)
    }
    fn scope(&self, mut s: u32) -> (String, String) {
        let mut file = None;
        for _ in 0..50 {
            let Some((n, _, f, p)) = self.m.discopes.get(&s) else { break };
            if file.is_none() {
                file = self.m.difiles.get(f).cloned();
            }
            if !n.is_empty() || *p == 0 {
                return (n.clone(), file.unwrap_or_default());
            }
            s = *p;
        }
        (String::new(), file.unwrap_or_default())
    }
    fn violation(&mut self, st: &State, msg: &str, model: &[u64]) {
        let (at, trace) = self.where_(st);
        let v = Violation {
            msg: msg.to_string(),
            at,
            inputs: self.inputs_of(st, model),
            trace,
            notes: st.msgs.iter().map(|x| x.to_string()).collect(),
        };
        let key = msg.to_string();
        let mut t = self.g.viol.lock().unwrap();
        let e = t.entry(key.clone()).or_insert_with(|| (v.clone(), 0));
        e.1 += 1;
        if v.inputs.len() < e.0.inputs.len() {
            e.0 = v;
        }
        let n = e.1;
        drop(t);
        // such paths are long: a few are enough
        if msg == ENDLESS && n >= 4 {
            self.g.work.stop.store(true, Ordering::SeqCst);
        }
        if self.g.opts.stop && !self.g.opts.known.iter().any(|k| key == *k) {
            self.g.work.stop.store(true, Ordering::SeqCst);
        }
    }

    fn run_path(&mut self, mut st: State) {
        let e = loop {
            match self.step_block(&mut st) {
                Ok(()) => {
                    if self.g.work.stop.load(Ordering::Relaxed) {
                        return;
                    }
                    if st.steps & 0xffff == 0 && self.g.start.elapsed().as_secs_f64() > self.g.opts.time_s {
                        break End::Err("time limit reached before the exploration was complete".into());
                    }
                }
                Err(e) => break e,
            }
        };
        self.stats.max_forks = self.stats.max_forks.max(st.forks);
        self.stats.max_inputs = self.stats.max_inputs.max(st.inputs.len());
        self.stats.max_path_steps = self.stats.max_path_steps.max(st.steps);
        match e {
            End::Done => {
                self.stats.paths += 1;
                self.g.npaths.fetch_add(1, Ordering::Relaxed);
                self.sample(&st);
            }
            End::Pruned => {
                self.stats.pruned += 1;
                self.g.npaths.fetch_add(1, Ordering::Relaxed);
            }
            End::Infeasible => self.stats.infeasible += 1,
            End::Viol(msg) => {
                self.stats.paths += 1;
                self.g.npaths.fetch_add(1, Ordering::Relaxed);
                let md = st.model.clone();
                self.violation(&st, &msg, &md);
            }
            End::Err(m) => {
                let (at, tr) = self.where_(&st);
                if self.g.opts.trace {
                    eprintln!("ERROR {m} at {at}\n  {}", tr.join("\n  "));
                }
                let mut e = self.g.errors.lock().unwrap();
                if e.len() < 50 {
                    *e.entry(format!("{m} [{at}]")).or_insert(0) += 1;
                }
            }
            End::Dead => {}
        }
    }
    fn sample(&mut self, st: &State) {
        if self.g.opts.samples == 0 {
            return;
        }
        let key = st.pc.iter().fold(1u128, |h, x| hash_mix(h, x.h()));
        let mut s = self.g.samples.lock().unwrap();
        if s.len() >= self.g.opts.samples {
            let last = *s.keys().next_back().unwrap();
            if key >= last {
                return;
            }
            s.remove(&last);
        }
        let mut ev = Ev::new(&st.model);
        let obs = st.obs.iter().map(|(v, _)| ev.get(v)).collect();
        let inputs = self.inputs_of(st, &st.model);
        s.insert(key, Sample { key, inputs, obs });
    }

    // ---- solver helpers
    fn check(&mut self, st: &State, q: &V) -> R<Slice> {
        er(self.solver.check(&st.pc, q))
    }
    fn merged(&self, st: &State, s: &Slice) -> Arc<Vec<u64>> {
        let mut v = (*st.model).clone();
        if let Some(s) = s {
            for (i, x) in s.iter() {
                if v.len() <= *i as usize {
                    v.resize(*i as usize + 1, 0);
                }
                v[*i as usize] = *x;
            }
        }
        Arc::new(v)
    }
    fn assume(st: &mut State, c: &V) {
        if let V::E(n) = c {
            if let N::Bin(Bin::And, a, b) = &n.n {
                Self::assume(st, a);
                Self::assume(st, b);
                return;
            }
            if st.pc.iter().any(|x| x.h() == n.h) {
                return;
            }
            st.pc.push(c.clone());
        }
    }
    /// Decide a boolean; when both outcomes are feasible the state forks:
    /// `on_other` is applied to the clone that takes the other outcome.
    fn branch(&mut self, st: &mut State, c: &V, on_other: impl FnOnce(&mut State, bool)) -> R<bool> {
        match c {
            V::C(x) => return Ok(*x & 1 == 1),
            V::Agg(_) => return Err(End::Err("branch on aggregate".into())),
            _ => {}
        }
        let cur = Ev::new(&st.model).get(c) != 0;
        let (mine, other) = if cur { (c.clone(), not(c)) } else { (not(c), c.clone()) };
        let s = self.check(st, &other)?;
        if s.is_some() {
            let mut o = st.clone();
            o.model = self.merged(st, &s);
            Self::assume(&mut o, &other);
            o.forks += 1;
            on_other(&mut o, !cur);
            self.push(o);
            Self::assume(st, &mine);
            st.forks += 1;
        }
        Ok(cur)
    }
    /// Constant value of `v` on this path, forking the remaining values to a state
    /// that re-executes the current instruction.
    fn conc(&mut self, st: &mut State, v: &V, w: u32) -> R<u64> {
        match v {
            V::C(c) => Ok(*c),
            V::Agg(_) => Err(End::Err("concretize aggregate".into())),
            V::E(n) => {
                if n.w > 64 {
                    return er(v.as_c());
                }
                for (h, x) in st.conc.iter() {
                    if *h == n.h {
                        return Ok(*x);
                    }
                }
                let x = Ev::new(&st.model).get(v);
                let eq = cmp(crate::ir::Pred::Eq, w, v, &V::C(x));
                let ne = not(&eq);
                let s = self.check(st, &ne)?;
                if s.is_some() {
                    let mut o = st.clone();
                    o.model = self.merged(st, &s);
                    Self::assume(&mut o, &ne);
                    o.forks += 1;
                    if o.forks > self.g.opts.max_conc {
                        return Err(End::Err("too many forks on one path".into()));
                    }
                    self.push(o);
                    Self::assume(st, &eq);
                    st.forks += 1;
                }
                st.conc.push((n.h, x));
                Ok(x)
            }
        }
    }

    #[inline]
    fn op(f: &Frame, o: &Op) -> V {
        match o {
            Op::R(r) => f.regs[*r as usize].clone(),
            Op::K(v) => v.clone(),
        }
    }

    fn goto(&mut self, f: &mut Frame, t: u32) {
        let b = &self.m.funcs[f.func].blocks[t as usize];
        if !b.phis.is_empty() {
            let from = f.blk;
            if b.phis.len() == 1 {
                let (d, ins) = &b.phis[0];
                let o = &ins.iter().find(|x| x.0 == from).expect("phi edge").1;
                f.regs[*d as usize] = Self::op(f, o);
            } else {
                let vals: Vec<V> = b
                    .phis
                    .iter()
                    .map(|(_, ins)| Self::op(f, &ins.iter().find(|x| x.0 == from).expect("phi edge").1))
                    .collect();
                for ((d, _), v) in b.phis.iter().zip(vals) {
                    f.regs[*d as usize] = v;
                }
            }
        }
        f.blk = t;
        f.ip = 0;
    }

    fn ret(&mut self, st: &mut State, v: Option<V>) -> R<()> {
        let Some(p) = st.below.pop() else { return Err(End::Done) };
        let p = Arc::try_unwrap(p).unwrap_or_else(|a| (*a).clone());
        let old = std::mem::replace(&mut st.cur, p);
        st.mem.sp = old.sp;
        if old.dst != u32::MAX {
            if let Some(v) = v {
                st.cur.regs[old.dst as usize] = v;
            }
        }
        if old.inv != u32::MAX {
            let mut f = std::mem::replace(&mut st.cur, Frame { func: 0, blk: 0, ip: 0, regs: vec![], dst: 0, inv: 0, sp: 0 });
            self.goto(&mut f, old.inv);
            st.cur = f;
        }
        Ok(())
    }

    /// Run until the end of the current block (or a call/return)
    fn step_block(&mut self, st: &mut State) -> R<()> {
        let m = self.m;
        let fi = st.cur.func;
        let bi = st.cur.blk as usize;
        self.cov[fi][bi] = true;
        let b = &m.funcs[fi].blocks[bi];
        loop {
            let i = st.cur.ip as usize;
            if i >= b.insts.len() {
                return Err(End::Err("fell off block".into()));
            }
            st.steps += 1;
            self.stats.steps += 1;
            if st.steps > self.g.opts.max_steps {
                return Err(End::Viol(ENDLESS.into()));
            }
            match self.inst(st, &b.insts[i])? {
                true => return Ok(()),
                false => st.cur.ip += 1,
            }
        }
    }

    fn vbin(a: &V, b: &V, f: impl Fn(&V, &V) -> Option<V>) -> R<V> {
        match (a, b) {
            (V::Agg(x), V::Agg(y)) => {
                let mut v = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    v.push(f(p, q).ok_or(End::Err("vector division by zero".into()))?);
                }
                Ok(V::Agg(Arc::new(v)))
            }
            _ => Err(End::Err("vector op on scalar".into())),
        }
    }

    fn flat_bits(v: &V, ew: u32) -> V {
        match v {
            V::Agg(x) => {
                let mut acc = x[0].clone();
                let mut aw = ew;
                for y in x.iter().skip(1) {
                    acc = concat(y, ew, &acc, aw);
                    aw += ew;
                }
                acc
            }
            v => v.clone(),
        }
    }

    fn load_at(&mut self, st: &mut State, t: &Ty, p: &V) -> R<V> {
        match p {
            V::C(a) => er(st.mem.load(self.m, *a, t)),
            V::E(n) => {
                for (h, x) in st.conc.iter() {
                    if *h == n.h {
                        return er(st.mem.load(self.m, *x, t));
                    }
                }
                if !t.is_scalar() {
                    let a = self.conc(st, p, 64)?;
                    return er(st.mem.load(self.m, a, t));
                }
                let w = t.bits();
                let sz = t.size();
                let a0 = Ev::new(&st.model).get(p);
                if let Some((base, size)) = st.mem.object(self.m, a0) {
                    if size <= 4096 && size >= sz {
                        // in bounds?
                        let off = bin(Bin::Sub, 64, p, &V::C(base)).unwrap();
                        let oob = cmp(crate::ir::Pred::Ugt, 64, &off, &V::C(size - sz));
                        if self.check(st, &oob)?.is_none() {
                            // stride from known low bits
                            let mut stride = 1;
                            let mut start = 0;
                            for k in [4u32, 3, 2, 1] {
                                if let V::C(c) = extract(&off, 64, 0, k) {
                                    stride = 1 << k;
                                    start = c;
                                    break;
                                }
                            }
                            let mut acc: Option<V> = None;
                            let mut o = start;
                            while o + sz <= size {
                                let x = er(st.mem.load_int(self.m, base + o, w))?;
                                acc = Some(match acc {
                                    None => x,
                                    Some(a) => {
                                        let c = cmp(crate::ir::Pred::Eq, 64, &off, &V::C(o));
                                        ite(&c, w, &x, &a)
                                    }
                                });
                                o += stride;
                            }
                            if let Some(a) = acc {
                                return Ok(a);
                            }
                        }
                    }
                }
                let a = self.conc(st, p, 64)?;
                er(st.mem.load(self.m, a, t))
            }
            _ => Err(End::Err("load from aggregate".into())),
        }
    }

    /// Returns true when control moved (branch, call, return)
    fn inst(&mut self, st: &mut State, i: &Inst) -> R<bool> {
        macro_rules! op {
            ($o:expr) => {
                Self::op(&st.cur, $o)
            };
        }
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                st.cur.regs[*$d as usize] = v;
            }};
        }
        match i {
            Inst::Bin(d, o, w, a, b) => {
                let (x, y) = (op!(a), op!(b));
                if let Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem = o {
                    if let V::E(_) = y {
                        // division by zero is excluded by a preceding check; confirm
                        let z = cmp(Pred::Eq, *w, &y, &V::C(0));
                        if self.check(st, &z)?.is_some() {
                            return Err(End::Err("possible division by zero".into()));
                        }
                    }
                }
                let v = bin(*o, *w, &x, &y).ok_or(End::Err("division by zero".into()))?;
                set!(d, v)
            }
            Inst::VBin(d, o, w, a, b) => {
                let v = Self::vbin(&op!(a), &op!(b), |x, y| bin(*o, *w, x, y))?;
                set!(d, v)
            }
            Inst::Icmp(d, p, w, a, b) => set!(d, cmp(*p, *w, &op!(a), &op!(b))),
            Inst::VIcmp(d, p, w, a, b) => {
                let v = Self::vbin(&op!(a), &op!(b), |x, y| Some(cmp(*p, *w, x, y)))?;
                set!(d, v)
            }
            Inst::Cast(d, c, f, t, a) => {
                let x = op!(a);
                let v = match c {
                    Cast::Trunc => extract(&x, *f, 0, *t),
                    Cast::ZExt => zext(&x, *f, *t),
                    Cast::SExt => sext(&x, *f, *t),
                    Cast::Bit => x,
                };
                set!(d, v)
            }
            Inst::VCast(d, c, f, t, a) => {
                let x = op!(a);
                let v = match (c, f, t) {
                    (Cast::Bit, f, t) => {
                        let (ew, total) = match f {
                            Ty::Vector(n, e) => (e.bits(), *n as u32 * e.bits()),
                            f => (f.bits(), f.bits()),
                        };
                        let fl = Self::flat_bits(&x, ew);
                        match t {
                            Ty::Vector(n, e) => {
                                let eb = e.bits();
                                V::Agg(Arc::new((0..*n as u32).map(|k| extract(&fl, total, k * eb, eb)).collect()))
                            }
                            _ => fl,
                        }
                    }
                    (c, Ty::Vector(_, fe), Ty::Vector(_, te)) => {
                        let (fw, tw) = (fe.bits(), te.bits());
                        let V::Agg(v) = &x else { return Err(End::Err("vcast".into())) };
                        V::Agg(Arc::new(
                            v.iter()
                                .map(|y| match c {
                                    Cast::Trunc => extract(y, fw, 0, tw),
                                    Cast::ZExt => zext(y, fw, tw),
                                    _ => sext(y, fw, tw),
                                })
                                .collect(),
                        ))
                    }
                    _ => return Err(End::Err("vcast".into())),
                };
                set!(d, v)
            }
            Inst::Select(d, c, a, b, t, vec) => {
                let c = op!(c);
                let (x, y) = (op!(a), op!(b));
                let v = if *vec {
                    let ew = match t {
                        Ty::Vector(_, e) => e.bits(),
                        _ => 0,
                    };
                    match (&c, &x, &y) {
                        (V::Agg(c), V::Agg(x), V::Agg(y)) => {
                            V::Agg(Arc::new((0..c.len()).map(|k| ite(&c[k], ew, &x[k], &y[k])).collect()))
                        }
                        _ => return Err(End::Err("vselect".into())),
                    }
                } else {
                    match &c {
                        V::C(k) => {
                            if k & 1 == 1 {
                                x
                            } else {
                                y
                            }
                        }
                        c if matches!(t, Ty::Int(_)) => ite(c, t.bits(), &x, &y),
                        c => {
                            if self.branch(st, c, |_, _| {})? {
                                x
                            } else {
                                y
                            }
                        }
                    }
                };
                set!(d, v)
            }
            Inst::Alloca(d, size, al, n) => {
                let n = op!(n);
                let n = self.conc(st, &n, 64)?;
                let al = (*al).max(16);
                let a = (st.mem.sp + al - 1) / al * al;
                st.mem.sp = a + size * n + 16;
                if st.mem.sp > SBASE + SSIZE - 4096 {
                    return Err(End::Viol("stack exhausted".into()));
                }
                set!(d, V::C(a))
            }
            Inst::Load(d, t, p) => {
                let p = op!(p);
                let v = self.load_at(st, t, &p)?;
                set!(d, v)
            }
            Inst::Store(t, v, p) => {
                let p = op!(p);
                let a = self.conc(st, &p, 64)?;
                let v = op!(v);
                er(st.mem.store(self.m, a, t, &v))?;
            }
            Inst::Gep(d, b, off, idx) => {
                let mut a = op!(b);
                if *off != 0 {
                    a = bin(Bin::Add, 64, &a, &V::C(*off)).unwrap();
                }
                for GepIdx::Scale(o, w, s) in idx {
                    let x = sext(&op!(o), *w, 64);
                    let y = bin(Bin::Mul, 64, &x, &V::C(*s)).unwrap();
                    a = bin(Bin::Add, 64, &a, &y).unwrap();
                }
                set!(d, a)
            }
            Inst::Extract(d, a, ix) => {
                let mut v = op!(a);
                for k in ix {
                    v = match &v {
                        V::Agg(x) => x[*k as usize].clone(),
                        _ => return Err(End::Err("extractvalue".into())),
                    };
                }
                set!(d, v)
            }
            Inst::Insert(d, a, v, ix, _) => {
                fn ins(a: &V, v: &V, ix: &[u32]) -> Option<V> {
                    if ix.is_empty() {
                        return Some(v.clone());
                    }
                    match a {
                        V::Agg(x) => {
                            let mut x = (**x).clone();
                            let n = ins(&x[ix[0] as usize], v, &ix[1..])?;
                            x[ix[0] as usize] = n;
                            Some(V::Agg(Arc::new(x)))
                        }
                        _ => None,
                    }
                }
                let r = ins(&op!(a), &op!(v), ix).ok_or(End::Err("insertvalue".into()))?;
                set!(d, r)
            }
            Inst::ExtractElem(d, a, i) => {
                let i = op!(i);
                let i = self.conc(st, &i, 64)?;
                let V::Agg(x) = op!(a) else { return Err(End::Err("extractelement".into())) };
                set!(d, x[i as usize].clone())
            }
            Inst::InsertElem(d, a, v, i, n) => {
                let i = op!(i);
                let i = self.conc(st, &i, 64)?;
                let mut x = match op!(a) {
                    V::Agg(x) => (*x).clone(),
                    _ => vec![V::C(0); *n as usize],
                };
                x[i as usize] = op!(v);
                set!(d, V::Agg(Arc::new(x)))
            }
            Inst::Shuffle(d, a, b, mk) => {
                let (V::Agg(x), V::Agg(y)) = (op!(a), op!(b)) else { return Err(End::Err("shuffle".into())) };
                let v = mk
                    .iter()
                    .map(|k| {
                        let k = *k as usize;
                        if k < x.len() {
                            x[k].clone()
                        } else {
                            y.get(k - x.len()).cloned().unwrap_or(V::C(0))
                        }
                    })
                    .collect();
                set!(d, V::Agg(Arc::new(v)))
            }
            Inst::Freeze(d, a) => set!(d, op!(a)),
            Inst::CmpXchg(d, p, c, n, w) => {
                let p = op!(p);
                let a = self.conc(st, &p, 64)?;
                let old = er(st.mem.load_int(self.m, a, *w))?;
                let eq = cmp(Pred::Eq, *w, &old, &op!(c));
                let nv = ite(&eq, *w, &op!(n), &old);
                er(st.mem.store_int(self.m, a, *w, &nv))?;
                set!(d, V::Agg(Arc::new(vec![old, eq])))
            }
            Inst::AtomicRmw(d, o, p, v, w) => {
                let p = op!(p);
                let a = self.conc(st, &p, 64)?;
                let old = er(st.mem.load_int(self.m, a, *w))?;
                let v = op!(v);
                let b = |o: Bin| bin(o, *w, &old, &v).unwrap();
                let nv = match o.as_str() {
                    "xchg" => v.clone(),
                    "add" => b(Bin::Add),
                    "sub" => b(Bin::Sub),
                    "and" => b(Bin::And),
                    "or" => b(Bin::Or),
                    "xor" => b(Bin::Xor),
                    "nand" => bin(Bin::Xor, *w, &b(Bin::And), &V::C(mask(*w))).unwrap(),
                    "umax" => ite(&cmp(Pred::Ugt, *w, &old, &v), *w, &old, &v),
                    "umin" => ite(&cmp(Pred::Ult, *w, &old, &v), *w, &old, &v),
                    "max" => ite(&cmp(Pred::Sgt, *w, &old, &v), *w, &old, &v),
                    "min" => ite(&cmp(Pred::Slt, *w, &old, &v), *w, &old, &v),
                    o => return Err(End::Err(format!("atomicrmw {o}"))),
                };
                er(st.mem.store_int(self.m, a, *w, &nv))?;
                set!(d, old)
            }
            Inst::Fence => {}
            Inst::Call(d, c, args, rt, _) => return self.call(st, d.unwrap_or(u32::MAX), c, args, rt, u32::MAX),
            Inst::Invoke(d, c, args, rt, n, _) => return self.call(st, d.unwrap_or(u32::MAX), c, args, rt, *n),
            Inst::Br(t) => {
                let mut f = std::mem::replace(&mut st.cur, Frame { func: 0, blk: 0, ip: 0, regs: vec![], dst: 0, inv: 0, sp: 0 });
                self.goto(&mut f, *t);
                st.cur = f;
                return Ok(true);
            }
            Inst::CondBr(c, a, b) => {
                let c = op!(c);
                let me = self as *mut Self;
                let (a, b) = (*a, *b);
                let r = self.branch(st, &c, |o, v| {
                    // goto only reads the module
                    let w = unsafe { &mut *me };
                    let mut f = o.cur.clone();
                    w.goto(&mut f, if v { a } else { b });
                    o.cur = f;
                })?;
                let mut f = std::mem::replace(&mut st.cur, Frame { func: 0, blk: 0, ip: 0, regs: vec![], dst: 0, inv: 0, sp: 0 });
                self.goto(&mut f, if r { a } else { b });
                st.cur = f;
                return Ok(true);
            }
            Inst::Switch(v, w, cases, def) => {
                let v = op!(v);
                let t = match &v {
                    V::C(c) => cases.iter().find(|x| x.0 == *c).map(|x| x.1).unwrap_or(*def),
                    V::E(_) => {
                        // group by target
                        let mut tg: Vec<(u32, V)> = vec![];
                        let mut any = V::C(0);
                        for (c, t) in cases.iter() {
                            let e = cmp(Pred::Eq, *w, &v, &V::C(*c));
                            any = bin(Bin::Or, 1, &any, &e).unwrap();
                            if let Some(x) = tg.iter_mut().find(|x| x.0 == *t) {
                                x.1 = bin(Bin::Or, 1, &x.1, &e).unwrap();
                            } else {
                                tg.push((*t, e));
                            }
                        }
                        let d = not(&any);
                        if let Some(x) = tg.iter_mut().find(|x| x.0 == *def) {
                            x.1 = bin(Bin::Or, 1, &x.1, &d).unwrap();
                        } else {
                            tg.push((*def, d));
                        }
                        let mut mine = None;
                        let mut others = vec![];
                        {
                            let md = st.model.clone();
                            let mut ev = Ev::new(&md);
                            for (t, c) in tg {
                                if mine.is_none() && ev.get(&c) != 0 {
                                    mine = Some((t, c));
                                } else {
                                    others.push((t, c));
                                }
                            }
                        }
                        let (t, c) = mine.ok_or(End::Err("switch".into()))?;
                        let mut forked = false;
                        for (ot, oc) in others {
                            let s = self.check(st, &oc)?;
                            if s.is_some() {
                                forked = true;
                                let mut o = st.clone();
                                o.model = self.merged(st, &s);
                                Self::assume(&mut o, &oc);
                                o.forks += 1;
                                let mut f = o.cur.clone();
                                self.goto(&mut f, ot);
                                o.cur = f;
                                self.push(o);
                            }
                        }
                        if forked {
                            Self::assume(st, &c);
                            st.forks += 1;
                        }
                        t
                    }
                    _ => return Err(End::Err("switch".into())),
                };
                let mut f = std::mem::replace(&mut st.cur, Frame { func: 0, blk: 0, ip: 0, regs: vec![], dst: 0, inv: 0, sp: 0 });
                self.goto(&mut f, t);
                st.cur = f;
                return Ok(true);
            }
            Inst::Ret(v) => {
                let v = v.as_ref().map(|o| op!(o));
                self.ret(st, v)?;
                return Ok(true);
            }
            Inst::Unreachable => return Err(End::Viol("undefined behaviour: unreachable code reached".into())),
            Inst::Unsupported(s) => return Err(End::Err(format!("unsupported instruction: {s}"))),
        }
        Ok(false)
    }

    fn str_at(&mut self, st: &State, p: u64, n: u64) -> String {
        let mut v = vec![];
        for i in 0..n.min(4096) {
            match st.mem.byte(self.m, p + i) {
                Ok(V::C(c)) => v.push(c as u8),
                Ok(_) => v.push(b'?'),
                _ => break,
            }
        }
        String::from_utf8_lossy(&v).into_owned()
    }

    fn call(&mut self, st: &mut State, dst: u32, c: &Callee, args: &[(Op, Ty)], rt: &Ty, inv: u32) -> R<bool> {
        let m = self.m;
        let f = match c {
            Callee::Func(f) => *f,
            Callee::Ext(k) => return self.ext(st, dst, *k, args, rt, inv),
            Callee::Ind(o) => {
                let p = Self::op(&st.cur, o);
                let a = self.conc(st, &p, 64)?;
                if a < FBASE || a % 16 != 0 {
                    return Err(End::Err(format!("indirect call to {a:#x}")));
                }
                let k = ((a - FBASE) / 16) as usize;
                if k < m.funcs.len() {
                    k
                } else if k - m.funcs.len() < m.exts.len() {
                    return self.ext(st, dst, k - m.funcs.len(), args, rt, inv);
                } else {
                    return Err(End::Err(format!("indirect call to {a:#x}")));
                }
            }
        };
        if self.g.panics[f] {
            let name = &m.funcs[f].name;
            // location argument, when present
            let mut loc = String::new();
            for (o, t) in args.iter().rev() {
                if let (Ty::Ptr, V::C(a)) = (t, Self::op(&st.cur, o)) {
                    let (p, l, ln) = match (st.mem.load_int(m, a, 64), st.mem.load_int(m, a + 8, 64), st.mem.load_int(m, a + 16, 32)) {
                        (Ok(V::C(p)), Ok(V::C(l)), Ok(V::C(ln))) => (p, l, ln),
                        _ => continue,
                    };
                    if l > 3 && l < 300 && ln > 0 {
                        let s = self.str_at(st, p, l);
                        if s.contains(".rs") {
                            loc = format!("{s}:{ln}");
                            break;
                        }
                    }
                }
            }
            // trim "...rs\0"
            let loc = loc.replace('\0', "");
            let short = ["add_overflow", "sub_overflow", "mul_overflow", "bounds_check", "alloc_error", "capacity_overflow", "unwrap", "div_by_zero", "rem_by_zero"]
                .iter()
                .find(|s| name.contains(**s))
                .copied()
                .unwrap_or("panic");
            return Err(End::Viol(format!("panic ({short}) {loc}")));
        }
        if st.below.len() > 4000 {
            return Err(End::Viol("stack exhausted (recursion)".into()));
        }
        let fun = &m.funcs[f];
        let mut regs = vec![V::C(0); fun.nregs as usize];
        for ((o, _), p) in args.iter().zip(fun.params.iter()) {
            regs[*p as usize] = Self::op(&st.cur, o);
        }
        if inv == u32::MAX {
            st.cur.ip += 1;
        }
        let nf = Frame { func: f, blk: 0, ip: 0, regs, dst, inv, sp: st.mem.sp };
        let old = std::mem::replace(&mut st.cur, nf);
        st.below.push(Arc::new(old));
        Ok(true)
    }

    fn fresh(&mut self, st: &mut State, w: u32) -> V {
        let id = st.inputs.len() as u32;
        st.inputs.push(w as u8);
        var(id, w)
    }

    fn ext(&mut self, st: &mut State, dst: u32, k: usize, args: &[(Op, Ty)], rt: &Ty, inv: u32) -> R<bool> {
        let r = self.ext_val(st, k, args, rt)?;
        if dst != u32::MAX {
            if let Some(v) = r {
                st.cur.regs[dst as usize] = v;
            } else {
                st.cur.regs[dst as usize] = V::C(0);
            }
        }
        if inv != u32::MAX {
            let mut f = std::mem::replace(&mut st.cur, Frame { func: 0, blk: 0, ip: 0, regs: vec![], dst: 0, inv: 0, sp: 0 });
            self.goto(&mut f, inv);
            st.cur = f;
            return Ok(true);
        }
        Ok(false)
    }

    fn map1(v: &V, w: u32, f: &dyn Fn(&V, u32) -> V, t: &Ty) -> V {
        match (v, t) {
            (V::Agg(x), Ty::Vector(_, e)) => V::Agg(Arc::new(x.iter().map(|y| f(y, e.bits())).collect())),
            _ => f(v, w),
        }
    }
    fn map2(a: &V, b: &V, w: u32, t: &Ty, f: &dyn Fn(&V, &V, u32) -> V) -> V {
        match (a, b, t) {
            (V::Agg(x), V::Agg(y), Ty::Vector(_, e)) => V::Agg(Arc::new(x.iter().zip(y.iter()).map(|(p, q)| f(p, q, e.bits())).collect())),
            _ => f(a, b, w),
        }
    }

    fn ext_val(&mut self, st: &mut State, k: usize, args: &[(Op, Ty)], rt: &Ty) -> R<Option<V>> {
        let m = self.m;
        let e = self.g.exts[k];
        let a = |st: &State, i: usize| Self::op(&st.cur, &args[i].0);
        let w = args.first().map(|x| x.1.bits()).unwrap_or(0);
        macro_rules! c {
            ($i:expr) => {{
                let v = a(st, $i);
                self.conc(st, &v, args[$i].1.bits())?
            }};
        }
        use Ext::*;
        Ok(match e {
            Nop => None,
            Malloc => {
                let n = c!(0);
                Some(V::C(self.do_alloc(st, n, 16)))
            }
            Calloc => {
                let n = c!(0);
                let s = c!(1);
                Some(V::C(self.do_alloc(st, n.saturating_mul(s), 16)))
            }
            PosixMemalign => {
                let p = c!(0);
                let al = c!(1);
                let n = c!(2);
                let x = self.do_alloc(st, n, al);
                if x == 0 {
                    Some(V::C(12))
                } else {
                    er(st.mem.store_int(m, p, 64, &V::C(x)))?;
                    Some(V::C(0))
                }
            }
            AlignedAlloc => {
                let al = c!(0);
                let n = c!(1);
                Some(V::C(self.do_alloc(st, n, al)))
            }
            Realloc => {
                let p = c!(0);
                let n = c!(1);
                if p == 0 {
                    Some(V::C(self.do_alloc(st, n, 16)))
                } else {
                    let old = st.mem.obj_size(p).ok_or(End::Err("realloc of unknown block".into()))?;
                    let x = self.do_alloc(st, n, 16);
                    if x != 0 {
                        er(st.mem.copy(m, x, p, old.min(n)))?;
                        st.mem.live -= old as i64;
                    }
                    Some(V::C(x))
                }
            }
            Free => {
                let p = c!(0);
                if p != 0 {
                    let old = st.mem.obj_size(p).ok_or(End::Err(format!("free of unknown block {p:#x}")))?;
                    st.mem.live -= old as i64;
                }
                None
            }
            Memcpy => {
                let n = c!(2);
                let d = c!(0);
                let s = c!(1);
                if n > 0 {
                    er(st.mem.copy(m, d, s, n))?;
                }
                Some(V::C(d))
            }
            Memset => {
                let n = c!(2);
                let d = c!(0);
                let v = extract(&a(st, 1), args[1].1.bits(), 0, 8);
                if n > 0 {
                    er(st.mem.fill(m, d, &v, n))?;
                }
                Some(V::C(d))
            }
            Bcmp | Memcmp => {
                let n = c!(2);
                let p = c!(0);
                let q = c!(1);
                let rw = rt.bits();
                let mut acc = V::C(0);
                if e == Bcmp {
                    let mut all = V::C(1);
                    for i in 0..n {
                        let x = er(st.mem.byte(m, p + i))?;
                        let y = er(st.mem.byte(m, q + i))?;
                        let eq = cmp(Pred::Eq, 8, &x, &y);
                        all = bin(Bin::And, 1, &all, &eq).unwrap();
                        if let V::C(0) = all {
                            break;
                        }
                    }
                    return Ok(Some(ite(&all, rw, &V::C(0), &V::C(1))));
                }
                for i in (0..n).rev() {
                    let x = er(st.mem.byte(m, p + i))?;
                    let y = er(st.mem.byte(m, q + i))?;
                    let eq = cmp(Pred::Eq, 8, &x, &y);
                    let lt = cmp(Pred::Ult, 8, &x, &y);
                    let ne = ite(&lt, rw, &V::C(mask(rw)), &V::C(1));
                    acc = ite(&eq, rw, &acc, &ne);
                }
                Some(acc)
            }
            Memchr => {
                let n = c!(2);
                let p = c!(0);
                let v = extract(&a(st, 1), args[1].1.bits(), 0, 8);
                let mut acc = V::C(0);
                for i in (0..n).rev() {
                    let x = er(st.mem.byte(m, p + i))?;
                    let eq = cmp(Pred::Eq, 8, &x, &v);
                    acc = ite(&eq, 64, &V::C(p + i), &acc);
                }
                Some(acc)
            }
            Strlen => {
                let p = c!(0);
                let mut n = 0;
                loop {
                    match er(st.mem.byte(m, p + n))? {
                        V::C(0) => break,
                        V::C(_) => n += 1,
                        _ => return Err(End::Err("strlen of symbolic string".into())),
                    }
                }
                Some(V::C(n))
            }
            Ret0 => Some(V::C(0)),
            RetNeg1 => Some(V::C(mask(rt.bits()))),
            Write => {
                let n = c!(2);
                Some(V::C(n))
            }
            Errno => {
                if st.errno == 0 {
                    st.errno = st.mem.alloc(8, 16);
                }
                Some(V::C(st.errno))
            }
            Getrandom => {
                let p = c!(0);
                let n = c!(1);
                self.random(st, p, n)?;
                Some(V::C(n))
            }
            Syscall => {
                let nr = c!(0);
                match nr {
                    318 => {
                        let p = c!(1);
                        let n = c!(2);
                        self.random(st, p, n)?;
                        Some(V::C(n))
                    }
                    202 => {
                        let opn = c!(2) & 0x7f;
                        if opn == 0 || opn == 9 {
                            return Err(End::Viol("deadlock: thread blocks on a lock it can never obtain".into()));
                        }
                        Some(V::C(0))
                    }
                    n => return Err(End::Err(format!("system call {n}"))),
                }
            }
            ClockGettime => {
                let p = c!(1);
                er(st.mem.store_int(m, p, 64, &V::C(1000)))?;
                er(st.mem.store_int(m, p + 8, 64, &V::C(0)))?;
                Some(V::C(0))
            }
            Abort => return Err(End::Viol("process aborted".into())),
            Trap => return Err(End::Viol("trap executed".into())),
            SymInt(w) => Some(self.fresh(st, w)),
            SymBytes => {
                let n = c!(1);
                let p = c!(0);
                for i in 0..n {
                    let v = self.fresh(st, 8);
                    er(st.mem.store_int(m, p + i, 8, &v))?;
                }
                None
            }
            SymAssume => {
                let v = a(st, 0);
                let cnd = cmp(Pred::Ne, w, &v, &V::C(0));
                match &cnd {
                    V::C(0) => return Err(End::Infeasible),
                    V::C(_) => {}
                    c => {
                        if Ev::new(&st.model).get(c) == 0 {
                            let s = self.check(st, c)?;
                            if s.is_none() {
                                return Err(End::Infeasible);
                            }
                            st.model = self.merged(st, &s);
                        }
                        Self::assume(st, c);
                    }
                }
                None
            }
            SymAssert => {
                let v = a(st, 0);
                let cnd = cmp(Pred::Ne, w, &v, &V::C(0));
                self.stats.asserts += 1;
                match &cnd {
                    V::C(0) => {
                        let p = c!(1);
                        let n = c!(2);
                        let msg = self.str_at(st, p, n);
                        return Err(End::Viol(msg));
                    }
                    V::C(_) => {}
                    cd => {
                        self.stats.sym_asserts += 1;
                        let p = c!(1);
                        let n = c!(2);
                        let neg = not(cd);
                        let s = self.check(st, &neg)?;
                        if s.is_some() {
                            let md = self.merged(st, &s);
                            let msg = self.str_at(st, p, n);
                            let mut o = st.clone();
                            Self::assume(&mut o, &neg);
                            self.violation(&o, &msg, &md);
                            // continue with the assertion assumed
                            if Ev::new(&st.model).get(cd) == 0 {
                                let s = self.check(st, cd)?;
                                if s.is_none() {
                                    return Err(End::Infeasible);
                                }
                                st.model = self.merged(st, &s);
                            }
                            Self::assume(st, cd);
                        }
                    }
                }
                None
            }
            SymFail => {
                let p = c!(0);
                let n = c!(1);
                let msg = self.str_at(st, p, n);
                return Err(End::Viol(msg));
            }
            SymObs => {
                let v = a(st, 0);
                st.obs.push((v, w as u8));
                None
            }
            SymObsBytes => {
                let p = c!(0);
                let n = c!(1);
                st.obs.push((V::C(n), 64));
                for i in 0..n {
                    let b = er(st.mem.byte(m, p + i))?;
                    st.obs.push((b, 8));
                }
                None
            }
            SymCover => {
                let x = c!(0);
                self.covers.insert(x);
                None
            }
            SymChoice => {
                let n = c!(0);
                if n <= 1 {
                    return Ok(Some(V::C(0)));
                }
                // a fresh input bounded by n, resolved to each of its values
                // (resolved by the caller's branches)
                let v = self.fresh(st, 8);
                let cd = cmp(Pred::Ult, 8, &v, &V::C(n));
                Self::assume(st, &cd);
                let mut acc = None;
                for x in 1..n {
                    let eq = cmp(Pred::Eq, 8, &v, &V::C(x));
                    let s = self.check(st, &eq)?;
                    if s.is_some() {
                        let mut o = st.clone();
                        o.model = self.merged(st, &s);
                        Self::assume(&mut o, &eq);
                        o.forks += 1;
                        // resume after the call with the value in the destination register
                        acc = Some((o, x));
                    }
                    if let Some((o, x)) = acc.take() {
                        self.resume_with(o, x)?;
                    }
                }
                let eq = cmp(Pred::Eq, 8, &v, &V::C(0));
                Self::assume(st, &eq);
                let id = st.inputs.len() - 1;
                let md = Arc::make_mut(&mut st.model);
                if md.len() > id {
                    md[id] = 0;
                }
                st.forks += 1;
                Some(V::C(0))
            }
            SymConc => {
                let v = a(st, 0);
                Some(V::C(self.conc(st, &v, w)?))
            }
            SymHeap => Some(V::C(st.mem.live as u64)),
            SymMsg => {
                let p = c!(0);
                let n = c!(1);
                let s = self.str_at(st, p, n);
                st.msgs.push(s.into());
                None
            }
            SymPrune => return Err(End::Pruned),
            SymIsSym => Some(V::C(1)),
            Ctlz => {
                let x = a(st, 0);
                Some(Self::map1(
                    &x,
                    w,
                    &|x, w| {
                        let mut acc = V::C(w as u64);
                        for i in 0..w {
                            acc = ite(&extract(x, w, i, 1), w, &V::C((w - 1 - i) as u64), &acc);
                        }
                        acc
                    },
                    &args[0].1,
                ))
            }
            Cttz => {
                let x = a(st, 0);
                Some(Self::map1(
                    &x,
                    w,
                    &|x, w| {
                        let mut acc = V::C(w as u64);
                        for i in (0..w).rev() {
                            acc = ite(&extract(x, w, i, 1), w, &V::C(i as u64), &acc);
                        }
                        acc
                    },
                    &args[0].1,
                ))
            }
            Ctpop => {
                let x = a(st, 0);
                Some(Self::map1(
                    &x,
                    w,
                    &|x, w| {
                        let mut acc = V::C(0);
                        for i in 0..w {
                            acc = bin(Bin::Add, w, &acc, &zext(&extract(x, w, i, 1), 1, w)).unwrap();
                        }
                        acc
                    },
                    &args[0].1,
                ))
            }
            Bswap => {
                let x = a(st, 0);
                Some(Self::map1(
                    &x,
                    w,
                    &|x, w| {
                        let mut acc = extract(x, w, w - 8, 8);
                        let mut aw = 8;
                        for i in 1..w / 8 {
                            let b = extract(x, w, w - 8 - i * 8, 8);
                            acc = concat(&b, 8, &acc, aw);
                            aw += 8;
                        }
                        acc
                    },
                    &args[0].1,
                ))
            }
            Bitreverse => {
                let x = a(st, 0);
                Some(Self::map1(
                    &x,
                    w,
                    &|x, w| {
                        let mut acc = extract(x, w, w - 1, 1);
                        for i in 1..w {
                            acc = concat(&extract(x, w, w - 1 - i, 1), 1, &acc, i);
                        }
                        acc
                    },
                    &args[0].1,
                ))
            }
            Fshl | Fshr => {
                if let Ty::Vector(n, el) = &args[0].1 {
                    let ew = el.bits();
                    let (V::Agg(x), V::Agg(y), V::Agg(s)) = (a(st, 0), a(st, 1), a(st, 2)) else { return Err(End::Err("fsh".into())) };
                    let mut v = vec![];
                    for i in 0..*n as usize {
                        let s = er(s[i].as_c())? % ew as u64;
                        v.push(fsh(e == Fshl, &x[i], &y[i], s as u32, ew));
                    }
                    return Ok(Some(V::Agg(Arc::new(v))));
                }
                let s = c!(2) % w as u64;
                Some(fsh(e == Fshl, &a(st, 0), &a(st, 1), s as u32, w))
            }
            Umax | Umin | Smax | Smin => {
                let p = match e {
                    Umax => Pred::Ugt,
                    Umin => Pred::Ult,
                    Smax => Pred::Sgt,
                    _ => Pred::Slt,
                };
                Some(Self::map2(&a(st, 0), &a(st, 1), w, &args[0].1, &|x, y, w| ite(&cmp(p, w, x, y), w, x, y)))
            }
            Uadd | Usub | Umul | Sadd | Ssub | Smul => {
                let (x, y) = (a(st, 0), a(st, 1));
                let (r, o) = ovf(e, w, &x, &y);
                Some(V::Agg(Arc::new(vec![r, o])))
            }
            UaddSat => Some(Self::map2(&a(st, 0), &a(st, 1), w, &args[0].1, &|x, y, w| {
                let (r, o) = ovf(Uadd, w, x, y);
                ite(&o, w, &V::C(mask(w)), &r)
            })),
            UsubSat => Some(Self::map2(&a(st, 0), &a(st, 1), w, &args[0].1, &|x, y, w| {
                let (r, o) = ovf(Usub, w, x, y);
                ite(&o, w, &V::C(0), &r)
            })),
            SaddSat | SsubSat => Some(Self::map2(&a(st, 0), &a(st, 1), w, &args[0].1, &|x, y, w| {
                let (r, o) = ovf(if e == SaddSat { Sadd } else { Ssub }, w, x, y);
                let neg = cmp(Pred::Slt, w, x, &V::C(0));
                let sat = ite(&neg, w, &V::C(1 << (w - 1)), &V::C(mask(w) >> 1));
                ite(&o, w, &sat, &r)
            })),
            Abs => {
                let x = a(st, 0);
                Some(Self::map1(
                    &x,
                    w,
                    &|x, w| {
                        let n = bin(Bin::Sub, w, &V::C(0), x).unwrap();
                        ite(&cmp(Pred::Slt, w, x, &V::C(0)), w, &n, x)
                    },
                    &args[0].1,
                ))
            }
            Ucmp | Scmp => {
                let (x, y) = (a(st, 0), a(st, 1));
                let rw = rt.bits();
                let lt = cmp(if e == Ucmp { Pred::Ult } else { Pred::Slt }, w, &x, &y);
                let eq = cmp(Pred::Eq, w, &x, &y);
                Some(ite(&lt, rw, &V::C(mask(rw)), &ite(&eq, rw, &V::C(0), &V::C(1))))
            }
            Ident | Expect => Some(a(st, 0)),
            IsConst => Some(V::C(0)),
            LoadRel => {
                let p = c!(0);
                let o = c!(1);
                let v = er(st.mem.load_int(m, p.wrapping_add(o), 32))?;
                let d = sext64(er(v.as_c())?, 32);
                Some(V::C(p.wrapping_add(d)))
            }
            VReduce(k) => {
                let V::Agg(x) = a(st, 0) else { return Err(End::Err("reduce".into())) };
                let rw = rt.bits();
                let mut acc = x[0].clone();
                for y in x.iter().skip(1) {
                    acc = match k {
                        0 => bin(Bin::Add, rw, &acc, y).unwrap(),
                        1 => bin(Bin::Or, rw, &acc, y).unwrap(),
                        2 => bin(Bin::And, rw, &acc, y).unwrap(),
                        3 => bin(Bin::Xor, rw, &acc, y).unwrap(),
                        4 => ite(&cmp(Pred::Ugt, rw, &acc, y), rw, &acc, y),
                        _ => ite(&cmp(Pred::Ult, rw, &acc, y), rw, &acc, y),
                    };
                }
                Some(acc)
            }
            Unknown => return Err(End::Err(format!("call of unmodelled external function {}", m.exts[k]))),
        })
    }
    /// Queue a clone that continues after the current call with a constant result.
    fn resume_with(&mut self, mut o: State, x: u64) -> R<()> {
        let b = &self.m.funcs[o.cur.func].blocks[o.cur.blk as usize];
        match &b.insts[o.cur.ip as usize] {
            Inst::Call(d, ..) => {
                if let Some(d) = d {
                    o.cur.regs[*d as usize] = V::C(x);
                }
                o.cur.ip += 1;
            }
            Inst::Invoke(d, _, _, _, n, _) => {
                if let Some(d) = d {
                    o.cur.regs[*d as usize] = V::C(x);
                }
                let n = *n;
                let mut f = o.cur.clone();
                self.goto(&mut f, n);
                o.cur = f;
            }
            _ => return Err(End::Err("choice".into())),
        }
        self.push(o);
        Ok(())
    }
    fn do_alloc(&mut self, st: &mut State, n: u64, al: u64) -> u64 {
        if n > 16 << 30 {
            return 0;
        }
        st.mem.alloc(n, al)
    }
    fn random(&mut self, st: &mut State, p: u64, n: u64) -> R<()> {
        for i in 0..n {
            er(st.mem.set_byte(self.m, p + i, (0x5a ^ (i * 37)) as u8))?;
        }
        Ok(())
    }
}

fn fsh(left: bool, x: &V, y: &V, s: u32, w: u32) -> V {
    if s == 0 {
        return if left { x.clone() } else { y.clone() };
    }
    let s = if left { s } else { w - s };
    // (x << s) | (y >> (w - s))
    concat(&extract(x, w, 0, w - s), w - s, &extract(y, w, w - s, s), s)
}

fn ovf(e: Ext, w: u32, x: &V, y: &V) -> (V, V) {
    match e {
        Ext::Uadd => {
            let r = bin(Bin::Add, w, x, y).unwrap();
            let o = match y {
                // x + c overflows iff x > max - c
                V::C(c) if w <= 64 => cmp(Pred::Ugt, w, x, &V::C(mask(w) - c)),
                _ => cmp(Pred::Ult, w, &r, x),
            };
            (r, o)
        }
        Ext::Usub => (bin(Bin::Sub, w, x, y).unwrap(), cmp(Pred::Ult, w, x, y)),
        Ext::Umul => {
            let d = 2 * w;
            let p = bin(Bin::Mul, d, &zext(x, w, d), &zext(y, w, d)).unwrap();
            let r = extract(&p, d, 0, w);
            let hi = extract(&p, d, w, w);
            (r, cmp(Pred::Ne, w, &hi, &V::C(0)))
        }
        Ext::Sadd => {
            let r = bin(Bin::Add, w, x, y).unwrap();
            let t = bin(Bin::And, w, &bin(Bin::Xor, w, x, &r).unwrap(), &bin(Bin::Xor, w, y, &r).unwrap()).unwrap();
            (r, cmp(Pred::Slt, w, &t, &V::C(0)))
        }
        Ext::Ssub => {
            let r = bin(Bin::Sub, w, x, y).unwrap();
            let t = bin(Bin::And, w, &bin(Bin::Xor, w, x, y).unwrap(), &bin(Bin::Xor, w, x, &r).unwrap()).unwrap();
            (r, cmp(Pred::Slt, w, &t, &V::C(0)))
        }
        _ => {
            let d = 2 * w;
            let p = bin(Bin::Mul, d, &sext(x, w, d), &sext(y, w, d)).unwrap();
            let r = extract(&p, d, 0, w);
            let back = sext(&r, w, d);
            (r, cmp(Pred::Ne, d, &p, &back))
        }
    }
}

/// Source lines of /repo covered, by file
pub fn coverage(g: &Global) -> (BTreeMap<String, BTreeSet<u32>>, BTreeSet<String>, usize) {
    let m = g.m;
    let cov = g.covered.lock().unwrap();
    let mut lines: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let mut funcs = BTreeSet::new();
    let mut nf = 0;
    let mut memo: HashMap<u32, (String, String)> = HashMap::new();
    for (fi, f) in m.funcs.iter().enumerate() {
        if cov[fi].iter().any(|x| *x) {
            nf += 1;
        }
        for (bi, b) in f.blocks.iter().enumerate() {
            if !cov[fi][bi] {
                continue;
            }
            for d in &b.dbg {
                let mut d = *d;
                let mut n = 0;
                while d != 0 && n < 30 {
                    let Some(l) = m.dilocs.get(&d) else { break };
                    let (name, file) = memo
                        .entry(l.scope)
                        .or_insert_with(|| {
                            let mut s = l.scope;
                            let mut file = None;
                            for _ in 0..50 {
                                let Some((n, ln, f, p)) = m.discopes.get(&s) else { break };
                                if file.is_none() {
                                    file = m.difiles.get(f).cloned();
                                }
                                if !n.is_empty() {
                                    let q = if ln.is_empty() { n.clone() } else { ln.clone() };
                                    return (format!("{n}|{q}"), file.unwrap_or_default());
                                }
                                if *p == 0 {
                                    break;
                                }
                                s = *p;
                            }
                            (String::new(), file.unwrap_or_default())
                        })
                        .clone();
                    if file.contains("/repo/") {
                        lines.entry(file.clone()).or_default().insert(l.line);
                        let short = file.split("/repo/").last().unwrap_or("").to_string();
                        let nm = name.split('|').next().unwrap_or("").to_string();
                        if !nm.is_empty() {
                            funcs.insert(format!("{short}::{nm}"));
                        }
                    }
                    d = l.inlined;
                    n += 1;
                }
            }
        }
    }
    (lines, funcs, nf)
}
