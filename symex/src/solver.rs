//! Z3 (C API) back end: one context per worker thread, independence slicing,
//! and a query cache shared by all workers.
use crate::expr::*;
use crate::ir::Bin;
use std::collections::{HashMap, HashSet};
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_set_param_value(c: P, id: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, s: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
}

extern "C" fn on_error(_c: P, e: c_int) {
    eprintln!("z3 error {e}");
    std::process::exit(2);
}

pub type Slice = Option<Arc<Vec<(u32, u64)>>>;

pub struct Shared {
    cache: Vec<Mutex<HashMap<u128, Slice>>>,
    pub queries: AtomicU64,
    pub cached: AtomicU64,
    pub sat: AtomicU64,
    pub unsat: AtomicU64,
    pub nanos: AtomicU64,
    pub max_nanos: AtomicU64,
}
impl Shared {
    pub fn new() -> Self {
        Shared {
            cache: (0..64).map(|_| Mutex::new(HashMap::new())).collect(),
            queries: AtomicU64::new(0),
            cached: AtomicU64::new(0),
            sat: AtomicU64::new(0),
            unsat: AtomicU64::new(0),
            nanos: AtomicU64::new(0),
            max_nanos: AtomicU64::new(0),
        }
    }
}

pub struct Solver {
    ctx: P,
    solver: P,
    bv: HashMap<u128, P>,
    bo: HashMap<u128, P>,
    sorts: HashMap<u32, P>,
    sh: Arc<Shared>,
    timeout_ms: u32,
}

impl Solver {
    pub fn new(sh: Arc<Shared>, timeout_ms: u32) -> Self {
        let mut s = Solver {
            ctx: std::ptr::null_mut(),
            solver: std::ptr::null_mut(),
            bv: HashMap::new(),
            bo: HashMap::new(),
            sorts: HashMap::new(),
            sh,
            timeout_ms,
        };
        s.fresh();
        s
    }
    fn fresh(&mut self) {
        unsafe {
            if !self.ctx.is_null() {
                Z3_del_context(self.ctx);
            }
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            self.ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(self.ctx, Some(on_error));
            self.solver = Z3_mk_simple_solver(self.ctx);
            Z3_solver_inc_ref(self.ctx, self.solver);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, t.as_ptr()), self.timeout_ms);
            Z3_solver_set_params(self.ctx, self.solver, p);
        }
        self.bv.clear();
        self.bo.clear();
        self.sorts.clear();
    }
    fn sort(&mut self, w: u32) -> P {
        let c = self.ctx;
        *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(c, w) })
    }
    fn num(&mut self, v: u64, w: u32) -> P {
        let s = self.sort(w);
        unsafe { Z3_mk_unsigned_int64(self.ctx, v, s) }
    }
    fn wide(&mut self, b: &Bits) -> P {
        unsafe {
            let mut acc: Option<(P, u32)> = None;
            let mut i = 0;
            while i < b.w {
                let k = 64.min(b.w - i);
                let part = b.extract(i, k).l[0];
                let n = self.num(part, k);
                acc = Some(match acc {
                    None => (n, k),
                    Some((a, aw)) => (Z3_mk_concat(self.ctx, n, a), aw + k),
                });
                i += k;
            }
            acc.unwrap().0
        }
    }
    fn bool(&mut self, v: &V) -> P {
        let c = self.ctx;
        match v {
            V::C(x) => unsafe {
                if *x & 1 == 1 {
                    Z3_mk_true(c)
                } else {
                    Z3_mk_false(c)
                }
            },
            V::E(n) => {
                if let Some(a) = self.bo.get(&n.h) {
                    return *a;
                }
                let r = unsafe {
                    match &n.n {
                        N::Eq(a, b, w) => {
                            if *w == 1 {
                                let (x, y) = (self.bool(a), self.bool(b));
                                Z3_mk_eq(c, x, y)
                            } else {
                                let (x, y) = (self.bvv(a, *w), self.bvv(b, *w));
                                Z3_mk_eq(c, x, y)
                            }
                        }
                        N::Ult(a, b, w) => {
                            let (x, y) = (self.bvv(a, *w), self.bvv(b, *w));
                            Z3_mk_bvult(c, x, y)
                        }
                        N::Ule(a, b, w) => {
                            let (x, y) = (self.bvv(a, *w), self.bvv(b, *w));
                            Z3_mk_bvule(c, x, y)
                        }
                        N::Slt(a, b, w) => {
                            let (x, y) = (self.bvv(a, *w), self.bvv(b, *w));
                            Z3_mk_bvslt(c, x, y)
                        }
                        N::Sle(a, b, w) => {
                            let (x, y) = (self.bvv(a, *w), self.bvv(b, *w));
                            Z3_mk_bvsle(c, x, y)
                        }
                        N::Not(a) => {
                            let x = self.bool(a);
                            Z3_mk_not(c, x)
                        }
                        N::Bin(Bin::And, a, b) => {
                            let xs = [self.bool(a), self.bool(b)];
                            Z3_mk_and(c, 2, xs.as_ptr())
                        }
                        N::Bin(Bin::Or, a, b) => {
                            let xs = [self.bool(a), self.bool(b)];
                            Z3_mk_or(c, 2, xs.as_ptr())
                        }
                        N::Bin(Bin::Xor, a, b) => {
                            let (x, y) = (self.bool(a), self.bool(b));
                            Z3_mk_xor(c, x, y)
                        }
                        N::Ite(g, a, b) => {
                            let (g, x, y) = (self.bool(g), self.bool(a), self.bool(b));
                            Z3_mk_ite(c, g, x, y)
                        }
                        _ => {
                            let x = self.bvv(v, 1);
                            let one = self.num(1, 1);
                            Z3_mk_eq(c, x, one)
                        }
                    }
                };
                self.bo.insert(n.h, r);
                r
            }
            _ => panic!("bool agg"),
        }
    }
    fn bvv(&mut self, v: &V, w: u32) -> P {
        let c = self.ctx;
        match v {
            V::C(x) => {
                if w <= 64 {
                    self.num(*x, w)
                } else {
                    self.wide(&Bits::from_u64(*x, w))
                }
            }
            V::E(n) => {
                if let Some(a) = self.bv.get(&n.h) {
                    return *a;
                }
                let w = n.w;
                let r = unsafe {
                    match &n.n {
                        N::Wide(b) => {
                            let b = b.clone();
                            self.wide(&b)
                        }
                        N::Var(i) => {
                            let s = self.sort(w);
                            let sy = Z3_mk_int_symbol(c, (*i * 128 + w) as c_int);
                            Z3_mk_const(c, sy, s)
                        }
                        N::Eq(..) | N::Ult(..) | N::Ule(..) | N::Slt(..) | N::Sle(..) | N::Not(_) => {
                            let x = self.bool(v);
                            let (o, z) = (self.num(1, 1), self.num(0, 1));
                            Z3_mk_ite(c, x, o, z)
                        }
                        N::Bin(op, a, b) => {
                            let (x, y) = (self.bvv(a, w), self.bvv(b, w));
                            match op {
                                Bin::Add => Z3_mk_bvadd(c, x, y),
                                Bin::Sub => Z3_mk_bvsub(c, x, y),
                                Bin::Mul => Z3_mk_bvmul(c, x, y),
                                Bin::UDiv => Z3_mk_bvudiv(c, x, y),
                                Bin::SDiv => Z3_mk_bvsdiv(c, x, y),
                                Bin::URem => Z3_mk_bvurem(c, x, y),
                                Bin::SRem => Z3_mk_bvsrem(c, x, y),
                                Bin::Shl => Z3_mk_bvshl(c, x, y),
                                Bin::LShr => Z3_mk_bvlshr(c, x, y),
                                Bin::AShr => Z3_mk_bvashr(c, x, y),
                                Bin::And => Z3_mk_bvand(c, x, y),
                                Bin::Or => Z3_mk_bvor(c, x, y),
                                Bin::Xor => Z3_mk_bvxor(c, x, y),
                            }
                        }
                        N::ZExt(a, f) => {
                            let x = self.bvv(a, *f);
                            Z3_mk_zero_ext(c, w - f, x)
                        }
                        N::SExt(a, f) => {
                            let x = self.bvv(a, *f);
                            Z3_mk_sign_ext(c, w - f, x)
                        }
                        N::Extract(a, aw, lo) => {
                            let x = self.bvv(a, *aw);
                            Z3_mk_extract(c, lo + w - 1, *lo, x)
                        }
                        N::Concat(h, l, lw) => {
                            let (x, y) = (self.bvv(h, w - lw), self.bvv(l, *lw));
                            Z3_mk_concat(c, x, y)
                        }
                        N::Ite(g, a, b) => {
                            let (g, x, y) = (self.bool(g), self.bvv(a, w), self.bvv(b, w));
                            Z3_mk_ite(c, g, x, y)
                        }
                    }
                };
                self.bv.insert(n.h, r);
                r
            }
            _ => panic!("bv agg"),
        }
    }

    /// Is `q` satisfiable together with the constraints? Returns the assignment of
    /// the variables in the relevant slice, or None when unsatisfiable.
    pub fn check(&mut self, cons: &[V], q: &V) -> Result<Slice, String> {
        match q {
            V::C(0) => return Ok(None),
            V::C(_) => return Ok(Some(Arc::new(vec![]))),
            _ => {}
        }
        // independence slice
        let mut vs = q.vars();
        let mut used = vec![false; cons.len()];
        let mut h = 0u128;
        let mut seen = HashSet::new();
        loop {
            let mut ch = false;
            for (i, c) in cons.iter().enumerate().rev() {
                if !used[i] && vs_hit(&c.vars(), &vs) {
                    used[i] = true;
                    ch = true;
                    vs = vs_or(vs, c.vars());
                    let ch = c.h();
                    if seen.insert(ch) {
                        h = h.wrapping_add(hash_mix(ch, 0x77));
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let key = hash_mix(h, q.h());
        let sh = self.sh.clone();
        let shard = &sh.cache[(key % 64) as usize];
        if let Some(r) = shard.lock().unwrap().get(&key) {
            self.sh.cached.fetch_add(1, Ordering::Relaxed);
            return Ok(r.clone());
        }
        if self.bv.len() + self.bo.len() > 300_000 {
            self.fresh();
        }
        let t0 = std::time::Instant::now();
        let r = unsafe {
            Z3_solver_reset(self.ctx, self.solver);
            let mut vars = HashMap::new();
            let mut vis = HashSet::new();
            for (i, c) in cons.iter().enumerate() {
                if used[i] {
                    collect(c, &mut vars, &mut vis);
                    let a = self.bool(c);
                    Z3_solver_assert(self.ctx, self.solver, a);
                }
            }
            collect(q, &mut vars, &mut vis);
            let a = self.bool(q);
            Z3_solver_assert(self.ctx, self.solver, a);
            let r = Z3_solver_check(self.ctx, self.solver);
            match r {
                -1 => None,
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.solver);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = vec![];
                    for (id, (w, e)) in vars {
                        let a = self.bvv(&e, w);
                        let mut o: P = std::ptr::null_mut();
                        if !Z3_model_eval(self.ctx, m, a, true, &mut o) {
                            return Err("model eval".into());
                        }
                        let mut x = 0u64;
                        if !Z3_get_numeral_uint64(self.ctx, o, &mut x) {
                            return Err("model numeral".into());
                        }
                        out.push((id, x));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Some(Arc::new(out))
                }
                _ => return Err("solver returned unknown".into()),
            }
        };
        let n = t0.elapsed().as_nanos() as u64;
        self.sh.queries.fetch_add(1, Ordering::Relaxed);
        self.sh.nanos.fetch_add(n, Ordering::Relaxed);
        self.sh.max_nanos.fetch_max(n, Ordering::Relaxed);
        if r.is_some() { &self.sh.sat } else { &self.sh.unsat }.fetch_add(1, Ordering::Relaxed);
        shard.lock().unwrap().insert(key, r.clone());
        Ok(r)
    }
}

fn collect(v: &V, out: &mut HashMap<u32, (u32, V)>, vis: &mut HashSet<u128>) {
    if let V::E(n) = v {
        if !vis.insert(n.h) {
            return;
        }
        match &n.n {
            N::Wide(_) => {}
            N::Var(i) => {
                out.insert(*i, (n.w, v.clone()));
            }
            N::Bin(_, a, b) | N::Eq(a, b, _) | N::Ult(a, b, _) | N::Ule(a, b, _) | N::Slt(a, b, _) | N::Sle(a, b, _) | N::Concat(a, b, _) => {
                collect(a, out, vis);
                collect(b, out, vis)
            }
            N::Not(a) | N::ZExt(a, _) | N::SExt(a, _) | N::Extract(a, _, _) => collect(a, out, vis),
            N::Ite(a, b, c) => {
                collect(a, out, vis);
                collect(b, out, vis);
                collect(c, out, vis)
            }
        }
    }
}
