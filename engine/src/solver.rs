//! SMT back end: libz3 through its C API, with independent-constraint slicing and a query cache.

use crate::expr::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_del_config(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);

    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, sort: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, sort: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, sort: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_ast_to_string(c: P, a: P) -> *const c_char;
}

extern "C" fn on_err(_c: P, code: c_int) {
    eprintln!("z3 error {}", code);
    std::process::exit(3);
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cache_hits: u64,
    pub unknown: u64,
    pub time: f64,
    /// single-byte slices decided by complete truth tables over the 256 values
    pub table: u64,
    /// of those, how many were also put to Z3 (a disagreement is fatal)
    pub table_checked: u64,
    /// satisfiable branches whose witness was found by evaluation
    pub guessed: u64,
}

/// Set of byte values.
pub type Dom = [u64; 4];

pub fn first(d: &Dom) -> Option<u8> {
    (0..4).find(|&j| d[j] != 0).map(|j| (j * 64) as u8 + d[j].trailing_zeros() as u8)
}
pub fn last(d: &Dom) -> Option<u8> {
    (0..4).rev().find(|&j| d[j] != 0).map(|j| (j * 64 + 63) as u8 - d[j].leading_zeros() as u8)
}

pub enum Res {
    Unsat,
    Sat(Vec<(u16, u8)>),
    Unknown,
}

pub struct Solver {
    ctx: P,
    slv: P,
    asts: Vec<P>,
    cache: HashMap<Box<[u32]>, Option<Vec<(u16, u8)>>>,
    tables: HashMap<u32, Dom, crate::exec::FxB>,
    rng: u64,
    pub stats: Stats,
    /// Sampled queries in SMT-LIB 2, for the independent solver cross-check.
    pub samples: Vec<(String, bool)>,
    pub sample_every: u64,
    pub sample_max: usize,
}

impl Drop for Solver {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.ctx) }
    }
}

impl Solver {
    pub fn new() -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let logic = CString::new("QF_BV").unwrap();
            let slv = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, logic.as_ptr()));
            Z3_solver_inc_ref(ctx, slv);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), 30_000_000);
            Z3_solver_set_params(ctx, slv, p);
            Solver {
                ctx,
                slv,
                asts: vec![],
                cache: HashMap::new(),
                tables: Default::default(),
                rng: 1,
                stats: Stats::default(),
                samples: vec![],
                sample_every: 0,
                sample_max: 0,
            }
        }
    }

    /// Widths of one bit are Z3 booleans, everything else is a bit-vector.
    fn tr(&mut self, ar: &Arena, e: E) -> P {
        let c = self.ctx;
        unsafe {
            if e.id == 0 {
                if e.w == 1 {
                    return if e.v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) };
                }
                let s = Z3_mk_bv_sort(c, e.w as c_uint);
                if e.w <= 64 {
                    return Z3_mk_unsigned_int64(c, e.v as u64, s);
                }
                let t = CString::new(e.v.to_string()).unwrap();
                return Z3_mk_numeral(c, t.as_ptr(), s);
            }
            let i = e.id as usize;
            if i < self.asts.len() && !self.asts[i].is_null() {
                return self.asts[i];
            }
            let n = ar.nodes[i];
            let r = match n.op {
                Op::Var => Z3_mk_const(c, Z3_mk_int_symbol(c, n.a.v as c_int), Z3_mk_bv_sort(c, 8)),
                Op::Ite => {
                    let (x, y, z) = (self.tr(ar, n.a), self.tr(ar, n.b), self.tr(ar, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::ZExt | Op::SExt => {
                    let mut x = self.tr(ar, n.a);
                    if n.a.w == 1 {
                        x = self.bool2bv(x);
                    }
                    let d = (n.w - n.a.w) as c_uint;
                    if n.op == Op::ZExt {
                        Z3_mk_zero_ext(c, d, x)
                    } else {
                        Z3_mk_sign_ext(c, d, x)
                    }
                }
                Op::Extract => {
                    let x = self.tr(ar, n.a);
                    let lo = n.b.v as c_uint;
                    let r = Z3_mk_extract(c, lo + n.w as c_uint - 1, lo, x);
                    if n.w == 1 {
                        Z3_mk_eq(c, r, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)))
                    } else {
                        r
                    }
                }
                Op::Concat => {
                    let (mut x, mut y) = (self.tr(ar, n.a), self.tr(ar, n.b));
                    if n.a.w == 1 {
                        x = self.bool2bv(x);
                    }
                    if n.b.w == 1 {
                        y = self.bool2bv(y);
                    }
                    Z3_mk_concat(c, x, y)
                }
                op => {
                    let (mut x, mut y) = (self.tr(ar, n.a), self.tr(ar, n.b));
                    if n.a.w == 1 {
                        match op {
                            Op::And => Z3_mk_and(c, 2, [x, y].as_ptr()),
                            Op::Or => Z3_mk_or(c, 2, [x, y].as_ptr()),
                            Op::Xor | Op::Add | Op::Sub => {
                                if n.b.is_true() {
                                    Z3_mk_not(c, x)
                                } else {
                                    Z3_mk_xor(c, x, y)
                                }
                            }
                            Op::Eq => Z3_mk_eq(c, x, y),
                            _ => {
                                x = self.bool2bv(x);
                                y = self.bool2bv(y);
                                let r = self.bvop(op, x, y);
                                if matches!(op, Op::Ult | Op::Ule | Op::Slt | Op::Sle) {
                                    r
                                } else {
                                    Z3_mk_eq(c, r, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)))
                                }
                            }
                        }
                    } else {
                        self.bvop(op, x, y)
                    }
                }
            };
            if self.asts.len() <= i {
                self.asts.resize(ar.nodes.len().max(i + 1), std::ptr::null_mut());
            }
            self.asts[i] = r;
            r
        }
    }

    unsafe fn bool2bv(&self, x: P) -> P {
        let c = self.ctx;
        let s = Z3_mk_bv_sort(c, 1);
        Z3_mk_ite(c, x, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s))
    }

    unsafe fn bvop(&self, op: Op, x: P, y: P) -> P {
        let c = self.ctx;
        match op {
            Op::Add => Z3_mk_bvadd(c, x, y),
            Op::Sub => Z3_mk_bvsub(c, x, y),
            Op::Mul => Z3_mk_bvmul(c, x, y),
            Op::UDiv => Z3_mk_bvudiv(c, x, y),
            Op::SDiv => Z3_mk_bvsdiv(c, x, y),
            Op::URem => Z3_mk_bvurem(c, x, y),
            Op::SRem => Z3_mk_bvsrem(c, x, y),
            Op::And => Z3_mk_bvand(c, x, y),
            Op::Or => Z3_mk_bvor(c, x, y),
            Op::Xor => Z3_mk_bvxor(c, x, y),
            Op::Shl => Z3_mk_bvshl(c, x, y),
            Op::LShr => Z3_mk_bvlshr(c, x, y),
            Op::AShr => Z3_mk_bvashr(c, x, y),
            Op::Eq => Z3_mk_eq(c, x, y),
            Op::Ult => Z3_mk_bvult(c, x, y),
            Op::Ule => Z3_mk_bvule(c, x, y),
            Op::Slt => Z3_mk_bvslt(c, x, y),
            Op::Sle => Z3_mk_bvsle(c, x, y),
            _ => unreachable!(),
        }
    }

    /// Is `cons /\ q` satisfiable?  Only the constraints that (transitively) share undetermined
    /// variables with `q` matter, because `cons` itself is satisfiable.  `dom` holds, per byte, the
    /// values its own constraints leave; bytes in `fixed` have exactly one, the one in `model`.
    pub fn check(&mut self, ar: &mut Arena, cons: &[u32], q: E, model: &[u8; MAXV], dom: &[Dom], fixed: &Sup, must_smt: bool) -> Res {
        if q.id == 0 {
            return if q.v == 1 { Res::Sat(vec![]) } else { Res::Unsat };
        }
        let mut free = ar.sup[q.id as usize];
        let mut full = free;
        for j in 0..4 {
            free[j] &= !fixed[j];
        }
        let mut pick = vec![false; cons.len()];
        loop {
            let mut grew = false;
            for (i, &k) in cons.iter().enumerate() {
                if pick[i] {
                    continue;
                }
                let s = &ar.sup[k as usize];
                if (0..4).any(|j| s[j] & free[j] != 0) {
                    pick[i] = true;
                    for j in 0..4 {
                        if s[j] & !fixed[j] & !free[j] != 0 {
                            grew = true;
                        }
                        free[j] |= s[j] & !fixed[j];
                        full[j] |= s[j];
                    }
                }
            }
            if !grew {
                break;
            }
        }
        let vars: Vec<usize> = (0..MAXV).filter(|i| free[i / 64] >> (i % 64) & 1 == 1).collect();
        let mut table = None;
        if vars.len() <= 1 && !must_smt {
            self.stats.table += 1;
            let r = match vars.first() {
                None => {
                    if ar.eval(q, model) == 1 {
                        Res::Sat(vec![])
                    } else {
                        Res::Unsat
                    }
                }
                Some(&var) => {
                    // `dom` is the conjunction of everything known about this byte
                    let mut d = self.table(ar, q, var, model);
                    for j in 0..4 {
                        d[j] &= dom[var][j];
                    }
                    match first(&d) {
                        None => Res::Unsat,
                        Some(v) => Res::Sat(vec![(var as u16, v)]),
                    }
                }
            };
            if self.stats.table % 1024 != 1 {
                return r;
            }
            self.stats.table_checked += 1;
            table = Some(matches!(r, Res::Sat(_)));
        } else if !must_smt && vars.len() <= 6 {
            // cheap attempts at a witness before asking the solver
            let mut m = *model;
            for k in 0..2 + 3 * vars.len() {
                if k < 2 {
                    for &v in &vars {
                        m[v] = if k == 0 { first(&dom[v]) } else { last(&dom[v]) }.unwrap();
                    }
                } else {
                    m = *model;
                    let v = vars[(k - 2) / 3];
                    m[v] = match (k - 2) % 3 {
                        0 => first(&dom[v]).unwrap(),
                        1 => last(&dom[v]).unwrap(),
                        _ => {
                            self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                            let x = (self.rng >> 33) as u8;
                            if dom[v][x as usize / 64] >> (x % 64) & 1 == 0 {
                                continue;
                            }
                            x
                        }
                    };
                }
                if ar.eval(q, &m) == 1 && cons.iter().zip(&pick).all(|(&k, &p)| !p || ar.eval(E { v: 0, id: k, w: 1 }, &m) == 1) {
                    self.stats.guessed += 1;
                    return Res::Sat(vars.iter().map(|&v| (v as u16, m[v])).collect());
                }
            }
        }
        let sup = full;
        // determined bytes enter the query through their own constraints
        for (i, &k) in cons.iter().enumerate() {
            if !pick[i] {
                let s = &ar.sup[k as usize];
                if s.iter().map(|x| x.count_ones()).sum::<u32>() == 1 && (0..4).any(|j| s[j] & full[j] != 0) {
                    pick[i] = true;
                }
            }
        }
        let det: Vec<usize> = (0..MAXV).filter(|i| (full[i / 64] & fixed[i / 64]) >> (i % 64) & 1 == 1).collect();
        let mut key: Vec<u32> = cons.iter().zip(&pick).filter(|x| *x.1).map(|x| *x.0).collect();
        key.sort();
        key.dedup();
        for v in det {
            let x = ar.var(v);
            let e = ar.eq(x, E::c(8, model[v] as u128));
            key.push(e.id);
        }
        key.push(q.id);
        if let Some(r) = self.cache.get(&key[..]) {
            self.stats.cache_hits += 1;
            return match r {
                None => Res::Unsat,
                Some(m) => Res::Sat(m.clone()),
            };
        }
        let t0 = Instant::now();
        self.stats.queries += 1;
        let r = unsafe {
            Z3_solver_push(self.ctx, self.slv);
            for &k in &key {
                let a = self.tr(ar, E { v: 0, id: k, w: 1 });
                Z3_solver_assert(self.ctx, self.slv, a);
            }
            let r = match Z3_solver_check(self.ctx, self.slv) {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.slv);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = vec![];
                    let s = Z3_mk_bv_sort(self.ctx, 8);
                    for i in 0..MAXV {
                        if sup[i / 64] >> (i % 64) & 1 == 1 {
                            let v = Z3_mk_const(self.ctx, Z3_mk_int_symbol(self.ctx, i as c_int), s);
                            let mut o: P = std::ptr::null_mut();
                            let mut n = 0u64;
                            if !Z3_model_eval(self.ctx, m, v, true, &mut o) || !Z3_get_numeral_uint64(self.ctx, o, &mut n) {
                                eprintln!("z3 model evaluation failed");
                                std::process::exit(3);
                            }
                            out.push((i as u16, n as u8));
                        }
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_pop(self.ctx, self.slv, 1);
            r
        };
        self.stats.time += t0.elapsed().as_secs_f64();
        if let Some(t) = table {
            if !matches!(r, Res::Unknown) && t != matches!(r, Res::Sat(_)) {
                eprintln!("truth table and z3 disagree");
                std::process::exit(3);
            }
        }
        match &r {
            Res::Unsat => {
                self.stats.unsat += 1;
            }
            Res::Sat(_) => {
                self.stats.sat += 1;
            }
            Res::Unknown => self.stats.unknown += 1,
        }
        if self.sample_every > 0 && self.stats.queries % self.sample_every == 0 && self.samples.len() < self.sample_max {
            let t = self.smt2(ar, &key, &sup);
            self.samples.push((t, matches!(r, Res::Sat(_))));
        }
        match &r {
            Res::Unsat => {
                self.cache.insert(key.into(), None);
            }
            Res::Sat(m) => {
                self.cache.insert(key.into(), Some(m.clone()));
            }
            _ => {}
        }
        r
    }

    /// Truth table of a boolean node over `var`; every other variable has its value in `model`.
    pub fn table(&mut self, ar: &mut Arena, e: E, var: usize, model: &[u8; MAXV]) -> Dom {
        let single = ar.sup[e.id as usize].iter().map(|x| x.count_ones()).sum::<u32>() <= 1;
        if single {
            if let Some(t) = self.tables.get(&e.id) {
                return *t;
            }
        }
        let mut t = [0u64; 4];
        let mut m = *model;
        for v in 0..256usize {
            m[var] = v as u8;
            if ar.eval(e, &m) == 1 {
                t[v / 64] |= 1 << (v % 64);
            }
        }
        if single {
            self.tables.insert(e.id, t);
        }
        t
    }

    /// Own SMT-LIB printer (independent of the Z3 API translation), with sharing through `let`.
    fn smt2(&self, ar: &Arena, key: &[u32], sup: &Sup) -> String {
        let mut s = String::from("(set-logic QF_BV)\n");
        for i in 0..MAXV {
            if sup[i / 64] >> (i % 64) & 1 == 1 {
                s.push_str(&format!("(declare-const v{} (_ BitVec 8))\n", i));
            }
        }
        // emit definitions in id order for all reachable nodes
        let mut need = std::collections::BTreeSet::new();
        let mut st: Vec<u32> = key.to_vec();
        while let Some(i) = st.pop() {
            if i == 0 || !need.insert(i) {
                continue;
            }
            let n = ar.nodes[i as usize];
            if n.op != Op::Var {
                for e in [n.a, n.b, n.c] {
                    st.push(e.id);
                }
            }
        }
        let t = |e: E| -> String {
            if e.id != 0 {
                format!("n{}", e.id)
            } else {
                format!("(_ bv{} {})", e.v, e.w)
            }
        };
        for i in need {
            let n = ar.nodes[i as usize];
            let (a, b, c) = (t(n.a), t(n.b), t(n.c));
            let boolean = |x: String| format!("(ite {} (_ bv1 1) (_ bv0 1))", x);
            let d = match n.op {
                Op::Var => format!("v{}", n.a.v),
                Op::Add => format!("(bvadd {} {})", a, b),
                Op::Sub => format!("(bvsub {} {})", a, b),
                Op::Mul => format!("(bvmul {} {})", a, b),
                Op::UDiv => format!("(bvudiv {} {})", a, b),
                Op::SDiv => format!("(bvsdiv {} {})", a, b),
                Op::URem => format!("(bvurem {} {})", a, b),
                Op::SRem => format!("(bvsrem {} {})", a, b),
                Op::And => format!("(bvand {} {})", a, b),
                Op::Or => format!("(bvor {} {})", a, b),
                Op::Xor => format!("(bvxor {} {})", a, b),
                Op::Shl => format!("(bvshl {} {})", a, b),
                Op::LShr => format!("(bvlshr {} {})", a, b),
                Op::AShr => format!("(bvashr {} {})", a, b),
                Op::Eq => boolean(format!("(= {} {})", a, b)),
                Op::Ult => boolean(format!("(bvult {} {})", a, b)),
                Op::Ule => boolean(format!("(bvule {} {})", a, b)),
                Op::Slt => boolean(format!("(bvslt {} {})", a, b)),
                Op::Sle => boolean(format!("(bvsle {} {})", a, b)),
                Op::Concat => format!("(concat {} {})", a, b),
                Op::Extract => format!("((_ extract {} {}) {})", n.b.v + n.w as u128 - 1, n.b.v, a),
                Op::ZExt => format!("((_ zero_extend {}) {})", n.w - n.a.w, a),
                Op::SExt => format!("((_ sign_extend {}) {})", n.w - n.a.w, a),
                Op::Ite => format!("(ite (= {} (_ bv1 1)) {} {})", a, b, c),
            };
            s.push_str(&format!("(define-fun n{} () (_ BitVec {}) {})\n", i, n.w, d));
        }
        for k in key {
            s.push_str(&format!("(assert (= n{} (_ bv1 1)))\n", k));
        }
        s.push_str("(check-sat)\n");
        s
    }

    #[allow(dead_code)]
    pub fn show(&mut self, ar: &Arena, e: E) -> String {
        let a = self.tr(ar, e);
        unsafe { std::ffi::CStr::from_ptr(Z3_ast_to_string(self.ctx, a)).to_string_lossy().into_owned() }
    }
}
