//! Translation of expressions to Z3 bit-vectors, query caching and statistics.
use crate::expr::*;
use crate::llvm::*;
use std::ffi::CString;
use std::rc::Rc;
#[derive(Clone)]
pub enum Res { Sat(Rc<Vec<(u32, u8)>>), Unsat, Unknown }
#[derive(Default, Clone, Copy)]
pub struct Stats { pub queries: u64, pub cached: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub us: u64, pub max_us: u64, pub unary: u64, pub by_model: u64 }
pub struct Solver { ctx: Z, s: Z, bv: Map<E, Z>, bo: Map<E, Z>, vars: Map<u32, Z>, sorts: Map<u16, Z>, cache: Map<Vec<E>, Res>, pub st: Stats, pub dump: Option<String>, ndump: u32 }
impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            let l = Z3_mk_string_symbol(ctx, b"QF_BV\0".as_ptr() as *const _);
            let s = if std::env::var("VSYM_SIMPLE").is_ok() { Z3_mk_simple_solver(ctx) } else { Z3_mk_solver_for_logic(ctx, l) };
            Z3_solver_inc_ref(ctx, s);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = Z3_mk_string_symbol(ctx, b"timeout\0".as_ptr() as *const _);
            Z3_params_set_uint(ctx, p, k, timeout_ms);
            let k = Z3_mk_string_symbol(ctx, b"rlimit\0".as_ptr() as *const _);
            Z3_params_set_uint(ctx, p, k, timeout_ms.saturating_mul(4000));
            Z3_solver_set_params(ctx, s, p);
            Solver { ctx, s, bv: Default::default(), bo: Default::default(), vars: Default::default(), sorts: Default::default(), cache: Default::default(), st: Stats::default(), dump: std::env::var("VSYM_DUMP").ok(), ndump: 0 }
        }
    }
    /// a context of this process's own (Z3's timer thread does not survive fork)
    pub fn renew(&mut self, timeout_ms: u32) {
        let cache = std::mem::take(&mut self.cache);
        let dump = self.dump.take();
        *self = Solver { cache, dump, ..Solver::new(timeout_ms) };
    }
    fn sort(&mut self, w: u16) -> Z { let c = self.ctx; *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(c, w as u32) }) }
    fn num(&mut self, w: u16, k: u128) -> Z {
        unsafe {
            if w <= 64 { let s = self.sort(w); Z3_mk_unsigned_int64(self.ctx, k as u64, s) } else {
                let h = self.num(w - 64, k >> 64);
                let l = self.num(64, k & u64::MAX as u128);
                Z3_mk_concat(self.ctx, h, l)
            }
        }
    }
    fn var(&mut self, v: u32) -> Z {
        let s = self.sort(8);
        let c = self.ctx;
        *self.vars.entry(v).or_insert_with(|| unsafe { let y = Z3_mk_int_symbol(c, v as i32); Z3_mk_const(c, y, s) })
    }
    /// expression of width 1 as a Boolean
    pub fn to_bool(&mut self, e: E) -> Z {
        if let Some(&z) = self.bo.get(&e) { return z }
        let n = ar().n(e);
        let c = self.ctx;
        let z = unsafe {
            match n.op {
                Op::Const => if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::Tab => {
                    // union of intervals
                    let t: Vec<bool> = ar().tabs[n.b as usize].iter().map(|x| *x == 1).collect();
                    let x = self.var(n.a);
                    let ones = t.iter().filter(|b| **b).count();
                    let pol = ones <= 128;
                    let mut parts = vec![];
                    let mut i = 0;
                    while i < 256 {
                        if t[i] == pol {
                            let mut j = i;
                            while j + 1 < 256 && t[j + 1] == pol { j += 1 }
                            let lo = self.num(8, i as u128);
                            if i == j { parts.push(Z3_mk_eq(c, x, lo)) } else {
                                let hi = self.num(8, j as u128);
                                let a = [Z3_mk_bvule(c, lo, x), Z3_mk_bvule(c, x, hi)];
                                parts.push(Z3_mk_and(c, 2, a.as_ptr()));
                            }
                            i = j;
                        }
                        i += 1;
                    }
                    let o = if parts.len() == 1 { parts[0] } else { Z3_mk_or(c, parts.len() as u32, parts.as_ptr()) };
                    if pol { o } else { Z3_mk_not(c, o) }
                }
                Op::And => { let a = [self.to_bool(n.a), self.to_bool(n.b)]; Z3_mk_and(c, 2, a.as_ptr()) }
                Op::Or => { let a = [self.to_bool(n.a), self.to_bool(n.b)]; Z3_mk_or(c, 2, a.as_ptr()) }
                Op::Xor => { let a = self.to_bool(n.a); if ar().konst(n.b) == Some(1) { Z3_mk_not(c, a) } else { let b = self.to_bool(n.b); Z3_mk_xor(c, a, b) } }
                Op::Ite => { let (a, b, d) = (self.to_bool(n.a), self.to_bool(n.b), self.to_bool(n.c)); Z3_mk_ite(c, a, b, d) }
                Op::Eq if ar().w(n.a) == 1 => { let (a, b) = (self.to_bool(n.a), self.to_bool(n.b)); Z3_mk_eq(c, a, b) }
                Op::Eq => { let (a, b) = (self.to_bv(n.a), self.to_bv(n.b)); Z3_mk_eq(c, a, b) }
                Op::Ult => { let (a, b) = (self.to_bv(n.a), self.to_bv(n.b)); Z3_mk_bvult(c, a, b) }
                Op::Ule => { let (a, b) = (self.to_bv(n.a), self.to_bv(n.b)); Z3_mk_bvule(c, a, b) }
                Op::Slt => { let (a, b) = (self.to_bv(n.a), self.to_bv(n.b)); Z3_mk_bvslt(c, a, b) }
                Op::Sle => { let (a, b) = (self.to_bv(n.a), self.to_bv(n.b)); Z3_mk_bvsle(c, a, b) }
                _ => { let a = self.bv_raw(e); let one = self.num(1, 1); Z3_mk_eq(c, a, one) }
            }
        };
        self.bo.insert(e, z);
        z
    }
    pub fn to_bv(&mut self, e: E) -> Z {
        if let Some(&z) = self.bv.get(&e) { return z }
        let n = ar().n(e);
        let c = self.ctx;
        let z = if n.w == 1 && !matches!(n.op, Op::Const | Op::Extract | Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::Shl | Op::LShr | Op::AShr) {
            let b = self.to_bool(e);
            let (o, z) = (self.num(1, 1), self.num(1, 0));
            unsafe { Z3_mk_ite(c, b, o, z) }
        } else { self.bv_raw(e) };
        self.bv.insert(e, z);
        z
    }
    fn bv_raw(&mut self, e: E) -> Z {
        let n = ar().n(e);
        let c = self.ctx;
        unsafe {
            match n.op {
                Op::Const => self.num(n.w, n.k),
                Op::Tab => {
                    let t = *ar().tabs[n.b as usize].clone();
                    let x = self.var(n.a);
                    let w = n.w;
                    // affine runs, nested ite
                    let mut runs: Vec<(usize, usize, bool, u64)> = vec![]; // lo, hi, is_affine, const/offset
                    let m = mask(w) as u64;
                    let mut i = 0;
                    while i < 256 {
                        let mut j = i;
                        while j + 1 < 256 && t[j + 1] == t[i] { j += 1 }
                        let off = t[i].wrapping_sub(i as u64) & m;
                        let mut k = i;
                        while k + 1 < 256 && t[k + 1].wrapping_sub(k as u64 + 1) & m == off { k += 1 }
                        if k > j { runs.push((i, k, true, off)); i = k + 1 } else { runs.push((i, j, false, t[i])); i = j + 1 }
                    }
                    let xw = if w > 8 { let z = self.num(w - 8, 0); Z3_mk_concat(c, z, x) } else if w < 8 { Z3_mk_extract(c, w as u32 - 1, 0, x) } else { x };
                    let mut acc: Option<Z> = None;
                    for (_lo, hi, aff, k) in runs.into_iter().rev() {
                        let kk = self.num(w, k as u128);
                        let v = if aff { if k == 0 { xw } else { Z3_mk_bvadd(c, xw, kk) } } else { kk };
                        acc = Some(match acc { None => v, Some(r) => { let h = self.num(8, hi as u128); Z3_mk_ite(c, Z3_mk_bvule(c, x, h), v, r) } });
                    }
                    acc.unwrap()
                }
                Op::Ite => { let (a, b, d) = (self.to_bool(n.a), self.to_bv(n.b), self.to_bv(n.c)); Z3_mk_ite(c, a, b, d) }
                Op::Concat => { let (a, b) = (self.to_bv(n.a), self.to_bv(n.b)); Z3_mk_concat(c, a, b) }
                Op::Extract => { let a = self.to_bv(n.a); Z3_mk_extract(c, n.b + n.w as u32 - 1, n.b, a) }
                Op::SExt => {
                    let a = self.to_bv(n.a);
                    let iw = ar().w(n.a) as u32;
                    let sb = Z3_mk_extract(c, iw - 1, iw - 1, a);
                    let one = self.num(1, 1);
                    let ones = self.num(n.w - iw as u16, u128::MAX & mask(n.w - iw as u16));
                    let zer = self.num(n.w - iw as u16, 0);
                    Z3_mk_concat(c, Z3_mk_ite(c, Z3_mk_eq(c, sb, one), ones, zer), a)
                }
                op => {
                    let (a, b) = (self.to_bv(n.a), self.to_bv(n.b));
                    match op {
                        Op::Add => Z3_mk_bvadd(c, a, b), Op::Sub => Z3_mk_bvsub(c, a, b), Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b), Op::SDiv => Z3_mk_bvsdiv(c, a, b), Op::URem => Z3_mk_bvurem(c, a, b), Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b), Op::LShr => Z3_mk_bvlshr(c, a, b), Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b), Op::Or => Z3_mk_bvor(c, a, b), Op::Xor => Z3_mk_bvxor(c, a, b),
                        _ => unreachable!("{:?}", op),
                    }
                }
            }
        }
    }
    /// conjunction of width-1 expressions; model over the given variables
    pub fn check(&mut self, mut cs: Vec<E>, vars: &[u32]) -> Res {
        cs.sort_unstable();
        cs.dedup();
        if let Some(r) = self.cache.get(&cs) { self.st.cached += 1; return r.clone() }
        let t0 = std::time::Instant::now();
        let r = unsafe {
            let bs: Vec<Z> = cs.iter().map(|&e| self.to_bool(e)).collect();
            Z3_solver_push(self.ctx, self.s);
            for b in bs { Z3_solver_assert(self.ctx, self.s, b) }
            let r = Z3_solver_check(self.ctx, self.s);
            if let Some(d) = &self.dump {
                if self.st.queries % 37 == 0 && self.ndump < 200 {
                    self.ndump += 1;
                    let txt = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.ctx, self.s)).to_string_lossy().into_owned();
                    let v = ["unsat", "unknown", "sat"][(r + 1) as usize];
                    let _ = std::fs::write(format!("{}/{}-{}.{}.smt2", d, std::process::id(), self.ndump, v), format!("(set-logic QF_BV)\n{}\n(check-sat)\n", txt));
                }
            }
            let res = match r {
                -1 => Res::Unsat,
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.s);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = vec![];
                    for &v in vars {
                        let x = self.var(v);
                        let mut o: Z = std::ptr::null_mut();
                        Z3_model_eval(self.ctx, m, x, true, &mut o);
                        let mut k = 0u64;
                        Z3_get_numeral_uint64(self.ctx, o, &mut k);
                        out.push((v, k as u8));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Res::Sat(Rc::new(out))
                }
                _ => Res::Unknown,
            };
            Z3_solver_pop(self.ctx, self.s, 1);
            res
        };
        let us = t0.elapsed().as_micros() as u64;
        self.st.queries += 1;
        self.st.us += us;
        self.st.max_us = self.st.max_us.max(us);
        match r { Res::Sat(_) => self.st.sat += 1, Res::Unsat => self.st.unsat += 1, Res::Unknown => self.st.unknown += 1 }
        self.cache.insert(cs, r.clone());
        r
    }
    #[allow(dead_code)] fn unused(_: CString) {}
}
