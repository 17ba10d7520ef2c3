//! Symbolic execution of predecoded LLVM IR.
use crate::builtin;
use crate::expr::*;
use crate::load::*;
use crate::mem::*;
use crate::solver::*;
use std::rc::Rc;

pub const HEAP: u64 = 0x1_0000_0000;
pub const STACK: u64 = 0x3_0000_0000;

#[derive(Clone)]
pub struct Frame { pub f: Rc<Func>, pub pc: u32, pub regs: Vec<Val>, pub sp0: u64 }
pub struct HashCall { pub kind: u8, pub input: Vec<E>, pub out: Vec<E>, pub vars: Vec<u32> }
#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub heap: u64,
    pub sp: u64,
    pub dom: Rc<Vec<E>>,
    pub multi: Rc<Vec<E>>,
    pub model: Rc<Vec<u8>>,
    pub hashes: Rc<Vec<Rc<HashCall>>>,
    /// hash calls with concrete input by a digest of that input, and the numbers of all others
    pub hconc: Rc<Map<u64, u32>>,
    pub hsym: Rc<Vec<u32>>,
    pub inputs: Rc<Vec<(String, u32, u32)>>,
    pub choices: Rc<Vec<(String, u32)>>,
    pub notes: Rc<Vec<(String, Vec<E>)>>,
    pub known: Rc<Vec<String>>,
    pub steps: u64,
    pub forks: u32,
    pub rng: u64,
    pub asserts: u32,
    pub free: Rc<Vec<Vec<u64>>>,
}
pub struct Violation { pub id: String, pub detail: String, pub inputs: Vec<(String, Vec<u8>)>, pub choices: Vec<(String, u32)>, pub known: Vec<String>, pub stack: Vec<String> }
pub struct Witness { pub end: String, pub inputs: Vec<(String, Vec<u8>)>, pub choices: Vec<(String, u32)>, pub notes: Vec<(String, Vec<u8>)>, pub hashed: bool }
#[derive(Default)]
pub struct Report {
    pub paths: u64, pub ends: std::collections::BTreeMap<String, u64>, pub viol: Vec<Violation>, pub viol_count: std::collections::BTreeMap<String, u64>,
    pub reached: std::collections::BTreeMap<String, u64>, pub asserts: u64, pub asserts_sym: u64, pub incomplete: std::collections::BTreeMap<String, u64>, pub witnesses: Vec<Witness>, pub steps: u64, pub assert_ids: std::collections::BTreeMap<String, u64>, pub max_steps: u64,
}
pub struct Eng {
    pub p: Prog,
    pub sv: Solver,
    pub work: Vec<State>,
    pub rep: Report,
    pub nvars: u32,
    pub max_steps: u64,
    pub max_wit: usize, pub max_cert: u64,
    pub fork_at: Map<(Rc<str>, u32), u64>,
    pub trace: bool,
    pub prof: Option<Map<Rc<str>, u64>>,
    pub deadline: std::time::Instant,
    pub share: Share,
}
/// Work sharing between processes: a worker with queued states forks when a slot is free.
pub struct Share { pub page: *mut std::sync::atomic::AtomicUsize, pub jobs: usize, pub last: std::time::Instant, pub abandon: bool, pub id: usize, pub secs: u64, pub q_ms: u32 }
extern "C" { fn fork() -> i32; fn alarm(s: u32) -> u32; }
pub enum Stop { End(String), Forked, Bad(String) }
type X<T> = Result<T, Stop>;
pub fn bad<T>(s: impl Into<String>) -> X<T> { Err(Stop::Bad(s.into())) }
pub enum Dec { T, F, Both(Rc<Vec<u8>>, Rc<Vec<u8>>) }

impl State {
    pub fn model_of(&self, e: E) -> u128 { ar().eval(e, &self.model) }
    pub fn dom_of(&self, v: u32) -> E { self.dom.get(v as usize).copied().unwrap_or(0) }
}
impl Eng {
    // ---- memory -------------------------------------------------------------------------
    #[inline] fn rpage<'a>(&'a self, st: &'a State, a: u64) -> Option<&'a Page> { match st.mem.page(a) { Some(p) => Some(p), None => self.p.base.page(a) } }
    fn valid(&self, st: &State, a: u64, n: u64) -> bool {
        let e = a.wrapping_add(n);
        (a >= HEAP && e <= st.heap) || (a >= STACK && e <= st.sp) || (a >= CONST_BASE && e < HEAP && e > a) || n == 0
    }
    pub fn rd_conc(&self, st: &State, a: u64, n: usize) -> Option<Vec<u8>> {
        let mut v = Vec::with_capacity(n);
        for i in 0..n { let e = self.rd_byte(st, a + i as u64); v.push(match e { Ok(b) => b, Err(e) => ar().konst(e)? as u8 }) }
        Some(v)
    }
    #[inline] pub fn rd_byte(&self, st: &State, a: u64) -> Result<u8, E> {
        match self.rpage(st, a) {
            None => Ok(0),
            Some(p) => {
                let o = a as usize & (PS - 1);
                if let Some(s) = &p.s { if s[o] != 0 { return Err(self.simp_byte(st, s[o])) } }
                Ok(p.d[o])
            }
        }
    }
    fn simp_byte(&self, st: &State, e: E) -> E {
        // an input byte pinned to one value is a constant from then on
        let n = ar().n(e);
        if n.op == Op::Tab {
            let d = st.dom_of(n.a);
            if d != 0 {
                let dn = ar().n(d);
                if dn.op == Op::Tab {
                    let t = &ar().tabs[dn.b as usize];
                    let vt = &ar().tabs[n.b as usize];
                    let mut val = None;
                    for i in 0..256 { if t[i] == 1 { match val { None => val = Some(vt[i]), Some(x) if x == vt[i] => {}, _ => return e } } }
                    if let Some(x) = val { return ar().c(8, x as u128) }
                }
            }
        }
        e
    }
    pub fn rd_e(&self, st: &State, a: u64) -> E { match self.rd_byte(st, a) { Ok(b) => ar().c(8, b as u128), Err(e) => e } }
    pub fn wr_e(&self, st: &mut State, a: u64, e: E) {
        let p = st.mem.page_mut(a, self.p.base.page(a));
        let o = a as usize & (PS - 1);
        match ar().konst(e) {
            Some(k) => { p.d[o] = k as u8; if let Some(s) = &mut p.s { s[o] = 0 } }
            None => { p.s.get_or_insert_with(|| Box::new([0; PS]))[o] = e }
        }
    }
    pub fn wr_bytes(&self, st: &mut State, a: u64, b: &[u8]) {
        let mut a = a;
        let mut b = b;
        while !b.is_empty() {
            let o = a as usize & (PS - 1);
            let n = b.len().min(PS - o);
            let p = st.mem.page_mut(a, self.p.base.page(a));
            p.d[o..o + n].copy_from_slice(&b[..n]);
            if let Some(s) = &mut p.s { s[o..o + n].fill(0) }
            a += n as u64;
            b = &b[n..];
        }
    }
    /// load n<=16 bytes as one value
    pub fn ld_int(&self, st: &State, a: u64, n: usize) -> Val {
        let o = a as usize & (PS - 1);
        if o + n <= PS {
            match self.rpage(st, a) {
                None => return if n > 8 { Val::W(Box::new(0)) } else { Val::C(0) },
                Some(p) if p.s.is_none() || p.s.as_ref().unwrap()[o..o + n].iter().all(|x| *x == 0) => {
                    if n <= 8 {
                        let mut b = [0u8; 8];
                        b[..n].copy_from_slice(&p.d[o..o + n]);
                        return Val::C(u64::from_le_bytes(b));
                    }
                    let mut b = [0u8; 16];
                    b[..n].copy_from_slice(&p.d[o..o + n]);
                    return Val::W(Box::new(u128::from_le_bytes(b)));
                }
                _ => {}
            }
        }
        let mut acc = self.rd_e(st, a + n as u64 - 1);
        for i in (0..n - 1).rev() { let l = self.rd_e(st, a + i as u64); acc = ar().concat(acc, l) }
        self.from_e(acc)
    }
    pub fn from_e(&self, e: E) -> Val { match ar().konst(e) { Some(k) => if ar().w(e) > 64 { Val::W(Box::new(k)) } else { Val::C(k as u64) }, None => Val::E(e) } }
    pub fn st_int(&self, st: &mut State, a: u64, n: usize, v: &Val) {
        match v {
            Val::C(x) => self.wr_bytes(st, a, &x.to_le_bytes()[..n.min(8)]),
            Val::W(x) => self.wr_bytes(st, a, &x.to_le_bytes()[..n]),
            Val::E(e) => {
                let w = ar().w(*e);
                for i in 0..n {
                    let lo = 8 * i as u16;
                    let b = if lo + 8 <= w { ar().extract(*e, lo, 8) } else if lo < w { let x = ar().extract(*e, lo, w - lo); ar().zext(x, 8) } else { ar().c(8, 0) };
                    self.wr_e(st, a + i as u64, b);
                }
            }
            Val::A(_) => panic!("st_int agg"),
        }
    }
    pub fn copy(&self, st: &mut State, d: u64, s: u64, n: u64) {
        if n == 0 || d == s { return }
        let plain = { let mut a = s; let mut ok = true; while a < s + n { if let Some(p) = self.rpage(st, a) { if p.s.is_some() { ok = false; break } } a = (a & !(PS as u64 - 1)) + PS as u64; } ok };
        if plain {
            let mut buf = Vec::with_capacity(n as usize);
            let mut a = s;
            while a < s + n {
                let o = a as usize & (PS - 1);
                let k = ((s + n - a) as usize).min(PS - o);
                match self.rpage(st, a) { Some(p) => buf.extend_from_slice(&p.d[o..o + k]), None => buf.resize(buf.len() + k, 0) }
                a += k as u64;
            }
            self.wr_bytes(st, d, &buf);
        } else {
            let v: Vec<Result<u8, E>> = (0..n).map(|i| self.rd_byte(st, s + i)).collect();
            for (i, b) in v.into_iter().enumerate() {
                let a = d + i as u64;
                match b { Ok(b) => { let p = st.mem.page_mut(a, self.p.base.page(a)); let o = a as usize & (PS - 1); p.d[o] = b; if let Some(s) = &mut p.s { s[o] = 0 } } Err(e) => self.wr_e(st, a, e) }
            }
        }
    }
    pub fn load_ty(&self, st: &State, a: u64, t: TyId) -> Val {
        match &self.p.tys[t as usize] {
            Ty::Void => Val::C(0),
            Ty::Int(w) => {
                let n = (*w as usize + 7) / 8;
                let v = self.ld_int(st, a, n);
                if *w % 8 != 0 { self.trunc_val(v, *w) } else if *w > 64 { match v { Val::C(x) => Val::W(Box::new(x as u128)), v => v } } else { v }
            }
            Ty::Ptr | Ty::F64 => self.ld_int(st, a, 8),
            Ty::F32 => self.ld_int(st, a, 4),
            Ty::Agg { elems, .. } => Val::A(Rc::new(elems.iter().map(|(o, e)| self.load_ty(st, a + o, *e)).collect())),
            Ty::Vec { n, elem, .. } => {
                let (w, _) = self.p.scalar(*elem);
                if w % 8 != 0 { let x = self.ld_int(st, a, (*n as usize * w as usize + 7) / 8); return Val::A(Rc::new((0..*n).map(|i| self.ext_val(&x, (i * w as u32) as u16, w)).collect())) }
                Val::A(Rc::new((0..*n).map(|i| self.load_ty(st, a + i as u64 * w as u64 / 8, *elem)).collect()))
            }
        }
    }
    pub fn store_ty(&self, st: &mut State, a: u64, t: TyId, v: &Val) {
        match &self.p.tys[t as usize] {
            Ty::Void => {}
            Ty::Int(w) => self.st_int(st, a, (*w as usize + 7) / 8, v),
            Ty::Ptr | Ty::F64 => self.st_int(st, a, 8, v),
            Ty::F32 => self.st_int(st, a, 4, v),
            Ty::Agg { elems, .. } => { if let Val::A(x) = v { for (i, (o, e)) in elems.iter().enumerate() { self.store_ty(st, a + o, *e, &x[i]) } } }
            Ty::Vec { elem, n, .. } => { if let Val::A(x) = v {
                let (w, _) = self.p.scalar(*elem);
                if w % 8 != 0 { let tot = *n as usize * w as usize; let b = self.pack(x, w); let b = if tot <= 64 { b } else { b }; self.st_int(st, a, (tot + 7) / 8, &b); return }
                for (i, y) in x.iter().enumerate() { self.store_ty(st, a + i as u64 * w as u64 / 8, *elem, y) }
            } }
        }
    }
    // ---- values --------------------------------------------------------------------------
    pub fn ex(&self, v: &Val, w: u16) -> E { match v { Val::C(k) => ar().c(w, *k as u128), Val::W(k) => ar().c(w, **k), Val::E(e) => *e, Val::A(_) => panic!("agg as expr") } }
    pub fn mkc(&self, w: u16, k: u128) -> Val { if w > 64 { Val::W(Box::new(k & mask(w))) } else { Val::C((k & mask(w)) as u64) } }
    pub fn cv(v: &Val) -> Option<u128> { match v { Val::C(k) => Some(*k as u128), Val::W(k) => Some(**k), _ => None } }
    pub fn bin(&self, op: Op, w: u16, a: &Val, b: &Val) -> Val {
        if let (Some(x), Some(y)) = (Self::cv(a), Self::cv(b)) {
            let rw = if is_cmp(op) { 1 } else { w };
            return self.mkc(rw, fold(op, w, x, y).unwrap_or(0));
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        self.from_e(ar().bin(op, x, y))
    }
    pub fn trunc_val(&self, v: Val, w: u16) -> Val {
        match &v { Val::E(e) => if ar().w(*e) > w { self.from_e(ar().extract(*e, 0, w)) } else { v }, Val::A(_) => v, _ => self.mkc(w, Self::cv(&v).unwrap()) }
    }
    pub fn ext_val(&self, v: &Val, lo: u16, w: u16) -> Val { match v { Val::E(e) => self.from_e(ar().extract(*e, lo, w)), _ => self.mkc(w, Self::cv(v).unwrap() >> lo) } }
    pub fn zext_val(&self, v: &Val, w: u16) -> Val { match v { Val::E(e) => self.from_e(ar().zext(*e, w)), _ => self.mkc(w, Self::cv(v).unwrap()) } }
    pub fn sext_val(&self, v: &Val, fw: u16, w: u16) -> Val { match v { Val::E(e) => self.from_e(ar().sext(*e, w)), _ => self.mkc(w, sx(Self::cv(v).unwrap(), fw) as u128) } }
    pub fn ite_val(&self, c: E, a: &Val, b: &Val, w: u16) -> Val { let (x, y) = (self.ex(a, w), self.ex(b, w)); self.from_e(ar().ite(c, x, y)) }
    fn pack(&self, x: &[Val], w: u16) -> Val {
        let tot = x.len() * w as usize;
        if x.iter().all(|v| matches!(v, Val::C(_))) && tot <= 128 {
            let mut acc = 0u128;
            for (i, v) in x.iter().enumerate() { acc |= Self::cv(v).unwrap() << (i * w as usize) }
            return self.mkc(tot as u16, acc);
        }
        let mut acc = self.ex(&x[x.len() - 1], w);
        for v in x[..x.len() - 1].iter().rev() { let l = self.ex(v, w); acc = ar().concat(acc, l) }
        self.from_e(acc)
    }
    // ---- constraints ---------------------------------------------------------------------
    fn conj(&self, e: E, out: &mut Vec<E>) {
        let n = ar().n(e);
        if n.op == Op::And { self.conj(n.a, out); self.conj(n.b, out); return }
        if n.op == Op::Xor && ar().konst(n.b) == Some(1) {
            let m = ar().n(n.a);
            if m.op == Op::Or { let (x, y) = (ar().not(m.a), ar().not(m.b)); self.conj(x, out); self.conj(y, out); return }
        }
        out.push(e)
    }
    pub fn assume(&self, st: &mut State, c: E) {
        let mut v = vec![];
        self.conj(c, &mut v);
        for e in v {
            let n = ar().n(e);
            match n.op {
                Op::Const => {}
                Op::Tab => {
                    let d = Rc::make_mut(&mut st.dom);
                    if d.len() <= n.a as usize { d.resize(n.a as usize + 1, 0) }
                    let old = d[n.a as usize];
                    d[n.a as usize] = if old == 0 { e } else { ar().bin(Op::And, old, e) };
                }
                _ => { if !st.multi.contains(&e) { Rc::make_mut(&mut st.multi).push(e) } }
            }
        }
    }
    /// Is the path condition satisfiable together with c?  Returns a full model if so.
    pub fn feasible(&mut self, st: &State, c: E) -> X<Option<Rc<Vec<u8>>>> {
        match ar().konst(c) { Some(0) => return Ok(None), Some(_) => return Ok(Some(st.model.clone())), None => {} }
        if ar().eval(c, &st.model) == 1 { self.sv.st.by_model += 1; return Ok(Some(st.model.clone())) }
        let mut cs = vec![];
        self.conj(c, &mut cs);
        // domains
        let mut dom: Map<u32, E> = Default::default();
        for &e in &cs {
            let n = ar().n(e);
            if n.op == Op::Tab {
                let o = *dom.entry(n.a).or_insert_with(|| st.dom_of(n.a));
                let nd = if o == 0 { e } else { ar().bin(Op::And, o, e) };
                if ar().konst(nd) == Some(0) { self.sv.st.unary += 1; self.certify(st, &cs)?; return Ok(None) }
                dom.insert(n.a, nd);
            } else if n.op == Op::Const && n.k == 0 { return Ok(None) }
        }
        // a disjunct that contradicts the known values of its only variable cannot help
        for c in cs.iter_mut() {
            let mut ds = vec![];
            self.disj(*c, &mut ds);
            if ds.len() < 2 { continue }
            let n0 = ds.len();
            ds.retain(|&d| {
                let n = ar().n(d);
                match n.op {
                    Op::Const => n.k != 0,
                    Op::Tab => { let o = dom.get(&n.a).copied().unwrap_or_else(|| st.dom_of(n.a)); o == 0 || ar().konst(ar().bin(Op::And, o, d)) != Some(0) }
                    _ => true,
                }
            });
            if ds.is_empty() { self.sv.st.unary += 1; let c = *c; self.certify(st, &[c])?; return Ok(None) }
            if ds.len() < n0 { *c = ds[1..].iter().fold(ds[0], |x, y| ar().bin(Op::Or, x, *y)); }
        }
        let symh = st.hashes.iter().any(|h| !h.vars.is_empty());
        let mut ax: Vec<E> = vec![];
        for _round in 0..400 {
            let mut vars: Set<u32> = Default::default();
            for &e in cs.iter().chain(ax.iter()) { vars.extend(ar().vars(e).iter()) }
            // closure over constraints sharing variables
            let mut used = vec![false; st.multi.len()];
            let mut extra: Vec<E> = ax.clone();
            loop {
                let mut ch = false;
                for (i, &m) in st.multi.iter().enumerate() {
                    if !used[i] && ar().vars(m).iter().any(|v| vars.contains(v)) {
                        used[i] = true;
                        extra.push(m);
                        for v in ar().vars(m).iter() { vars.insert(*v); }
                        ch = true;
                    }
                }
                if !ch { break }
            }
            let mut m = st.model.to_vec();
            if extra.is_empty() && cs.iter().all(|e| ar().n(*e).op == Op::Tab) {
                self.sv.st.unary += 1;
                for c in &cs {
                    let v = ar().n(*c).a;
                    let o = st.dom_of(v);
                    let mut d = if o == 0 { *c } else { ar().bin(Op::And, o, *c) };
                    for c2 in &cs { if ar().n(*c2).a == v { d = ar().bin(Op::And, d, *c2) } }
                    if ar().konst(d) == Some(0) { self.certify(st, &cs)?; return Ok(None) }
                    if ar().n(d).op == Op::Const { continue }
                    let t = &ar().tabs[ar().n(d).b as usize];
                    if m.len() <= v as usize { m.resize(v as usize + 1, 0) }
                    if t[m[v as usize] as usize] != 1 { m[v as usize] = (0..256usize).find(|i| t[*i] == 1).unwrap() as u8 }
                }
            } else {
                let mut q = cs.clone();
                q.extend(extra);
                for &v in &vars { let d = st.dom_of(v); if d != 0 && ar().konst(d).is_none() { q.push(d) } }
                let mut vs: Vec<u32> = vars.iter().copied().collect();
                vs.sort_unstable();
                let (t0, nq) = (std::time::Instant::now(), q.len());
                let r = self.sv.check(q, &vs);
                if t0.elapsed().as_millis() > 700 && std::env::var("VSYM_SLOW").is_ok() { let f = st.frames.last().unwrap(); eprintln!("SLOW {} ms, {} conjuncts, {} vars, {} axioms, {} hashes, at {}@{}: {}", t0.elapsed().as_millis(), nq, vs.len(), ax.len(), st.hashes.len(), f.f.name, f.pc, match r { Res::Sat(_) => "sat", Res::Unsat => "unsat", _ => "unknown" }) }
                match r {
                    Res::Unsat => return Ok(None),
                    Res::Unknown => return bad("solver returned unknown (timeout)"),
                    Res::Sat(mv) => for &(v, k) in mv.iter() { if m.len() <= v as usize { m.resize(v as usize + 1, 0) } m[v as usize] = k },
                }
            }
            if !symh { return Ok(Some(Rc::new(m))) }
            let n = ax.len();
            self.hash_repair(st, &mut m, &vars, &mut ax);
            if ax.len() == n { return Ok(Some(Rc::new(m))) }
        }
        bad("hash congruence axioms did not converge")
    }
    /// Have the SMT solver confirm what the truth tables of single bytes say: no value satisfies `cs`.
    fn certify(&mut self, st: &State, cs: &[E]) -> X<()> {
        let mut vars: Set<u32> = Default::default();
        for &e in cs { vars.extend(ar().vars(e).iter()) }
        let mut q = cs.to_vec();
        for &v in &vars { let d = st.dom_of(v); if d != 0 && ar().konst(d).is_none() { q.push(d) } }
        let c0 = self.sv.st.cached;
        let r = self.sv.check(q, &[]);
        self.sv.st.cached = c0;
        match r { Res::Unsat => Ok(()), Res::Sat(_) => bad("the solver contradicts a truth table"), Res::Unknown => bad("solver returned unknown (timeout)") }
    }
    /// Have the SMT solver confirm that the condition of a finished path is satisfiable.
    fn certify_path(&mut self, st: &State) -> bool {
        let mut q = st.multi.to_vec();
        for &d in st.dom.iter() { if d != 0 && ar().konst(d).is_none() { q.push(d) } }
        if q.is_empty() { return true }
        let c0 = self.sv.st.cached;
        let r = self.sv.check(q, &[]);
        self.sv.st.cached = c0;
        !matches!(r, Res::Unsat)
    }
    /// Give unconstrained hash outputs their real value under the model, and collect the
    /// congruence axioms (equal inputs iff equal outputs) that the model violates.
    fn hash_repair(&self, st: &State, m: &mut Vec<u8>, vars: &Set<u32>, ax: &mut Vec<E>) {
        let mut fixed: Set<u32> = Default::default();
        for &e in st.multi.iter() { fixed.extend(ar().vars(e).iter()) }
        let mut outs: Vec<Vec<u8>> = vec![];
        let mut inps: Vec<Vec<u8>> = vec![];
        let (mut by_in, mut by_out): (Map<(u8, Vec<u8>), Vec<usize>>, Map<(u8, Vec<u8>), Vec<usize>>) = Default::default();
        let mut found = vec![];
        for (i, h) in st.hashes.iter().enumerate() {
            ar().begin_eval();
            let inp: Vec<u8> = h.input.iter().map(|e| ar().eval_rec(*e, m) as u8).collect();
            let free = !h.vars.is_empty() && h.vars.iter().all(|v| !vars.contains(v) && !fixed.contains(v) && st.dom_of(*v) == 0);
            if free {
                let o = by_in.get(&(h.kind, inp.clone())).map(|j| outs[j[0]].clone())
                    .unwrap_or_else(|| if h.kind == 0 { crate::hash::sha256(&inp[..32], &inp[32..]).to_vec() } else { crate::hash::md5(&inp[..16], &inp[16..]).to_vec() });
                for (v, x) in h.vars.iter().zip(o) { if m.len() <= *v as usize { m.resize(*v as usize + 1, 0) } m[*v as usize] = x }
            }
            ar().begin_eval();
            let out: Vec<u8> = h.out.iter().map(|e| ar().eval_rec(*e, m) as u8).collect();
            let (ki, ko) = ((h.kind, inp.clone()), (h.kind, out.clone()));
            let mut near: Vec<usize> = by_in.get(&ki).into_iter().chain(by_out.get(&ko)).flatten().copied().collect();
            near.sort_unstable(); near.dedup();
            for j in near { if (inps[j] == inp) != (outs[j] == out) && !(st.hashes[j].vars.is_empty() && h.vars.is_empty()) { found.push((j, i)) } }
            by_in.entry(ki).or_default().push(i); by_out.entry(ko).or_default().push(i);
            inps.push(inp); outs.push(out);
        }
        for (j, i) in found {
            let e = self.hash_axiom(st, &st.hashes[j], &st.hashes[i]);
            if ar().konst(e) != Some(1) && !ax.contains(&e) { ax.push(e) }
        }
    }
    fn disj(&self, e: E, out: &mut Vec<E>) {
        let n = ar().n(e);
        if n.op == Op::Or { self.disj(n.a, out); self.disj(n.b, out); return }
        if n.op == Op::Xor && ar().konst(n.b) == Some(1) {
            let m = ar().n(n.a);
            if m.op == Op::And { let (x, y) = (ar().not(m.a), ar().not(m.b)); self.disj(x, out); self.disj(y, out); return }
        }
        out.push(e)
    }
    /// Are two byte expressions equal for every value the path allows their only variable?
    pub fn same(&self, st: &State, x: E, y: E) -> bool {
        if x == y { return true }
        let (a, b) = (ar().n(x), ar().n(y));
        let (v, ta, tb) = match (a.op, b.op) {
            (Op::Tab, Op::Tab) if a.a == b.a => (a.a, Some(a.b), Some(b.b)),
            (Op::Tab, Op::Const) => (a.a, Some(a.b), None),
            (Op::Const, Op::Tab) => (b.a, None, Some(b.b)),
            _ => return false,
        };
        let d = st.dom_of(v);
        if d == 0 { return false }
        let dn = ar().n(d);
        if dn.op != Op::Tab { return false }
        let t = &ar().tabs[dn.b as usize];
        (0..256usize).all(|i| t[i] != 1 || {
            let f = |t: Option<u32>, k: u128| match t { Some(t) => ar().tabs[t as usize][i], None => k as u64 };
            f(ta, a.k) == f(tb, b.k)
        })
    }
    pub fn hash_axiom(&self, st: &State, h: &HashCall, g: &HashCall) -> E {
        let a = ar();
        let mut v = vec![];
        for k in 0..h.input.len() {
            if self.same(st, h.input[k], g.input[k]) { continue }
            let mut e = a.bin(Op::Eq, h.input[k], g.input[k]);
            let n = a.n(e);
            if n.op == Op::Tab { let d = st.dom_of(n.a); if d != 0 { let x = a.bin(Op::And, d, e); if a.konst(x) == Some(0) { e = a.c(1, 0) } } }
            if a.konst(e) == Some(0) { v = vec![(a.c(8, 0), a.c(8, 1))]; break }
            v.push((h.input[k], g.input[k])) }
        let i = a.eq_all(&v);
        let v: Vec<(E, E)> = h.out.iter().copied().zip(g.out.iter().copied()).collect();
        let o = a.eq_all(&v);
        a.bin(Op::Eq, i, o)
    }
    pub fn decide(&mut self, st: &State, c: E) -> X<Dec> {
        match ar().konst(c) { Some(1) => return Ok(Dec::T), Some(_) => return Ok(Dec::F), None => {} }
        let nc = ar().not(c);
        if ar().eval(c, &st.model) == 1 {
            match self.feasible(st, nc)? { None => Ok(Dec::T), Some(m) => Ok(Dec::Both(st.model.clone(), m)) }
        } else {
            match self.feasible(st, c)? { None => Ok(Dec::F), Some(m) => Ok(Dec::Both(m, st.model.clone())) }
        }
    }
    /// enumerate the feasible values of e; each with a model
    pub fn values(&mut self, st: &State, e: E, limit: usize) -> X<Vec<(u128, Rc<Vec<u8>>)>> {
        let mut out = vec![];
        let mut s = st.clone();
        let w = ar().w(e);
        loop {
            let v = ar().eval(e, &s.model);
            out.push((v, s.model.clone()));
            if out.len() > limit { return bad(format!("more than {} values to enumerate", limit)) }
            let k = ar().c(w, v);
            let ne = ar().bin(Op::Eq, e, k);
            let ne = ar().not(ne);
            match self.feasible(&s, ne)? { None => break, Some(m) => { self.assume(&mut s, ne); s.model = m } }
        }
        Ok(out)
    }
    fn note_fork(&mut self, st: &State, n: u64) {
        let f = st.frames.last().unwrap();
        *self.fork_at.entry((f.f.name.clone(), f.pc)).or_default() += n;
    }
    /// replace register by each feasible value and retry the instruction
    pub fn concretize(&mut self, st: &mut State, r: O, e: E) -> X<()> {
        let vals = self.values(st, e, 600)?;
        let O::R(r) = r else { return bad("concretize non-register") };
        let w = ar().w(e);
        if vals.len() > 1 { self.note_fork(st, vals.len() as u64 - 1) }
        let n = vals.len();
        for (v, m) in vals {
            let mut s = st.clone();
            if n > 1 { let k = ar().c(w, v); let c = ar().bin(Op::Eq, e, k); self.assume(&mut s, c); s.forks += 1 }
            s.model = m;
            let x = self.mkc(w, v);
            s.frames.last_mut().unwrap().regs[r as usize] = x;
            if n == 1 { *st = s; return Ok(()) }
            self.work.push(s);
        }
        Err(Stop::Forked)
    }
    /// Hashes are uninterpreted, so a counterexample may need a hash value that is not the real one.
    /// Look for one with real values: hash inputs as in the model (then as in some other values), hash
    /// outputs computed, everything else left to the solver.
    fn realize(&mut self, st: &State, viol: Option<E>, model: &[u8]) -> Option<Vec<u8>> {
        let t0 = std::time::Instant::now();
        let outs: Set<u32> = st.hashes.iter().flat_map(|h| h.vars.iter().copied()).collect();
        let mut feed: Set<u32> = Default::default();
        for h in st.hashes.iter() { for &e in &h.input { feed.extend(ar().vars(e).iter()) } }
        let mut rng = 0x9e37_79b9_7f4a_7c15u64;
        for attempt in 0..200 {
            if t0.elapsed().as_secs() > 20 { return None }
            let mut m = model.to_vec();
            if attempt > 0 {
                for &v in &feed {
                    if outs.contains(&v) { continue }
                    let d = st.dom_of(v);
                    for _ in 0..64 {
                        rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
                        let k = (rng >> 24) as u8;
                        let ok = d == 0 || { let n = ar().n(d); n.op != Op::Tab || ar().tabs[n.b as usize][k as usize] == 1 };
                        if ok { if m.len() <= v as usize { m.resize(v as usize + 1, 0) } m[v as usize] = k; break }
                    }
                }
            }
            let mut q: Vec<E> = st.multi.to_vec();
            q.extend(viol);
            for (v, &d) in st.dom.iter().enumerate() { if d != 0 && ar().konst(d).is_none() && !outs.contains(&(v as u32)) { q.push(d) } }
            for h in st.hashes.iter() {
                if h.vars.is_empty() && h.input.iter().all(|e| ar().konst(*e).is_some()) { continue }
                ar().begin_eval();
                let inp: Vec<u8> = h.input.iter().map(|e| ar().eval_rec(*e, &m) as u8).collect();
                for (e, k) in h.input.iter().zip(&inp) { let k = ar().c(8, *k as u128); q.push(ar().bin(Op::Eq, *e, k)) }
                if h.vars.is_empty() { continue }
                let o = if h.kind == 0 { crate::hash::sha256(&inp[..32], &inp[32..]).to_vec() } else { crate::hash::md5(&inp[..16], &inp[16..]).to_vec() };
                for (v, k) in h.vars.iter().zip(o) {
                    if m.len() <= *v as usize { m.resize(*v as usize + 1, 0) }
                    m[*v as usize] = k;
                    let (x, y) = (ar().var(*v), ar().c(8, k as u128));
                    q.push(ar().bin(Op::Eq, x, y));
                }
            }
            let mut vars: Set<u32> = Default::default();
            for &e in &q { vars.extend(ar().vars(e).iter()) }
            let mut vs: Vec<u32> = vars.into_iter().collect();
            vs.sort_unstable();
            if let Res::Sat(mv) = self.sv.check(q, &vs) { for &(v, k) in mv.iter() { if m.len() <= v as usize { m.resize(v as usize + 1, 0) } m[v as usize] = k } return Some(m) }
        }
        None
    }
    fn now_s(&self) -> usize { std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(1, |d| d.as_secs() as usize) }
    fn out_of_time(&self) -> Option<&'static str> {
        if std::time::Instant::now() > self.deadline { return Some("time limit") }
        if self.share.page.is_null() { return None }
        let t = unsafe { (*self.share.page.add(2)).load(std::sync::atomic::Ordering::SeqCst) };
        if t != 0 && self.now_s() > t + 40 { return Some("stopped 40 s after the first violation") }
        None
    }
    pub fn violation(&mut self, st: &State, id: &str, detail: String, model: &[u8], viol: Option<E>) {
        let known = st.known.join(",");
        let abstr = st.hashes.iter().any(|h| !h.vars.is_empty());
        let mut real = None;
        if abstr && self.rep.viol.iter().filter(|v| v.id == id && v.known == *st.known).count() < 4 { real = self.realize(st, viol, model) }
        let model = real.as_deref().unwrap_or(model);
        if st.known.is_empty() && (!abstr || real.is_some()) && !self.share.page.is_null() {
            // enough is known: the other workers have a little time to find more
            let t = self.now_s();
            let _ = unsafe { (*self.share.page.add(2)).compare_exchange(0, t, std::sync::atomic::Ordering::SeqCst, std::sync::atomic::Ordering::SeqCst) };
        }
        *self.rep.viol_count.entry(if known.is_empty() { id.to_string() } else { format!("{} [known:{}]", id, known) }).or_default() += 1;
        if self.rep.viol.iter().filter(|v| v.id == id && v.known == *st.known).count() >= 4 { return }
        let inputs = self.input_bytes(st, model);
        let stack = st.frames.iter().rev().take(40).map(|f| format!("{}@{}", f.f.name, f.pc)).collect();
        self.rep.viol.push(Violation { id: id.into(), detail, inputs, choices: st.choices.to_vec(), known: st.known.to_vec(), stack });
    }
    pub fn input_bytes(&self, st: &State, model: &[u8]) -> Vec<(String, Vec<u8>)> {
        st.inputs.iter().map(|(n, v, l)| (n.clone(), (0..*l).map(|i| *model.get((v + i) as usize).unwrap_or(&0)).collect())).collect()
    }
    pub fn end(&mut self, st: &State, why: String) {
        self.rep.paths += 1;
        if self.rep.paths <= self.max_cert && !self.certify_path(st) { *self.rep.incomplete.entry("the solver refutes the condition of a finished path".into()).or_default() += 1 }
        self.rep.max_steps = self.rep.max_steps.max(st.steps);
        let n = *self.rep.ends.entry(why.clone()).and_modify(|x| *x += 1).or_insert(1);
        // reservoir-ish: keep early and power-of-two numbered path witnesses
        if self.rep.witnesses.len() < self.max_wit && (n <= 4 || (self.rep.paths.is_power_of_two()) || self.rep.paths % 97 == 0) {
            let notes = st.notes.iter().map(|(t, es)| (t.clone(), es.iter().map(|e| ar().eval(*e, &st.model) as u8).collect())).collect();
            self.rep.witnesses.push(Witness { end: why, inputs: self.input_bytes(st, &st.model), choices: st.choices.to_vec(), notes, hashed: st.hashes.iter().any(|h| !h.vars.is_empty()) });
        }
    }
    // ---- calls ---------------------------------------------------------------------------
    pub fn push_frame(&mut self, st: &mut State, id: u32, args: &[Val]) -> X<()> {
        let fi = &mut self.p.funcs[id as usize];
        if !fi.resolved { return bad(format!("call of undefined external function {}", fi.name)) }
        fi.entered = true;
        let f = self.p.code(id);
        if st.frames.len() > 3000 { return bad("call depth") }
        let mut regs = Vec::with_capacity(f.nregs as usize);
        regs.extend_from_slice(&args[..(f.nparams as usize).min(args.len())]);
        regs.resize(f.nregs as usize, Val::C(0));
        let sp0 = st.sp;
        if self.trace { eprintln!("{:indent$}-> {} {:?}", "", f.name, args.iter().take(6).collect::<Vec<_>>(), indent = st.frames.len().min(60)) }
        st.frames.push(Frame { f, pc: 0, regs, sp0 });
        Ok(())
    }
    #[inline] fn get(f: &Frame, o: O) -> Val { match o { O::R(r) => f.regs[r as usize].clone(), O::C(c) => Val::C(c), O::K(k) => f.f.consts[k as usize].clone() } }
    #[inline] fn getc(f: &Frame, o: O) -> Option<u64> { match o { O::R(r) => if let Val::C(c) = f.regs[r as usize] { Some(c) } else { None }, O::C(c) => Some(c), _ => None } }
    fn follow(f: &mut Frame, e: &Edge) {
        match e.moves.len() {
            0 => {}
            1 => { let v = Self::get(f, e.moves[0].1); f.regs[e.moves[0].0 as usize] = v }
            _ => { let vs: Vec<Val> = e.moves.iter().map(|m| Self::get(f, m.1)).collect(); for (m, v) in e.moves.iter().zip(vs) { f.regs[m.0 as usize] = v } }
        }
        f.pc = e.pc;
    }
    /// finish the call instruction of the top frame with the given result
    pub fn finish_call(&mut self, st: &mut State, v: Option<Val>) {
        let f = st.frames.last_mut().unwrap();
        let code = f.f.clone();
        let I::Call { dst, has, next, .. } = &code.code[f.pc as usize] else { panic!("not a call") };
        if *has { f.regs[*dst as usize] = v.unwrap_or(Val::C(0)) }
        match next { None => f.pc += 1, Some(e) => Self::follow(f, e) }
    }
    fn addr(&mut self, st: &mut State, o: O) -> X<Option<u64>> {
        let f = st.frames.last().unwrap();
        match Self::get(f, o) {
            Val::C(a) => Ok(Some(a)),
            Val::E(e) => { self.concretize(st, o, e)?; Ok(None) }
            _ => bad("address of odd kind"),
        }
    }
    /// Hands the older half of the queued states to a new process if one may be started. True in that process.
    pub fn split(&mut self) -> bool {
        use std::sync::atomic::Ordering::SeqCst;
        let sh = &mut self.share;
        if sh.jobs < 2 || self.work.is_empty() || sh.last.elapsed().as_millis() < 15 { return false }
        let (active, next) = unsafe { (&*sh.page, &*sh.page.add(1)) };
        if active.load(SeqCst) >= sh.jobs || next.load(SeqCst) >= 4000 { return false }
        if active.fetch_add(1, SeqCst) >= sh.jobs { active.fetch_sub(1, SeqCst); return false }
        let id = next.fetch_add(1, SeqCst);
        let n = (self.work.len() + 1) / 2;
        let pid = unsafe { fork() };
        if pid < 0 { active.fetch_sub(1, SeqCst); return false }
        sh.last = std::time::Instant::now();
        if pid > 0 { self.work.drain(..n); return false }
        sh.id = id;
        sh.abandon = true;
        let left = self.deadline.saturating_duration_since(std::time::Instant::now()).as_secs() as u32 + 20;
        unsafe { alarm(left); }
        self.work.truncate(n);
        let q = sh.q_ms;
        self.rep = Default::default();
        self.sv.st = Default::default();
        self.fork_at.clear();
        if let Some(p) = &mut self.prof { p.clear() }
        for f in &mut self.p.funcs { f.entered = false }
        self.sv.renew(q);
        true
    }
    pub fn run(&mut self, mut st: State) {
        if !self.work.is_empty() && self.split() { self.share.abandon = false; return }
        let s0 = st.steps;
        let r = match self.out_of_time() { Some(w) => bad(w), None => self.run0(&mut st) };
        if self.share.abandon { self.share.abandon = false; return }
        self.rep.steps += st.steps - s0;
        match r {
            Ok(()) => self.end(&st, "return".into()),
            Err(Stop::Forked) => {}
            Err(Stop::End(w)) => self.end(&st, w),
            Err(Stop::Bad(w)) => {
                let loc = st.frames.last().map(|f| format!("{}@{}", f.f.name, f.pc)).unwrap_or_default();
                let key = format!("{} in {}", w, loc);
                let first = !self.rep.incomplete.contains_key(&key);
                *self.rep.incomplete.entry(key.clone()).or_default() += 1;
                if first && std::env::var("VSYM_VERBOSE").is_ok() { eprintln!("INCOMPLETE {}", key); for f in st.frames.iter().rev().take(30) { eprintln!("   at {}@{} {:?}", f.f.name, f.pc, f.f.code.get(f.pc as usize).map(|i| format!("{:?}", i).chars().take(200).collect::<String>())) } }
                self.rep.paths += 1;
            }
        }
    }
    fn run0(&mut self, st: &mut State) -> X<()> {
        loop {
            st.steps += 1;
            if st.steps & 0xfff == 0 {
                if !self.work.is_empty() && self.split() { return Err(Stop::Forked) }
            }
            if st.steps & 0xffff == 0 {
                if st.steps > self.max_steps { return bad("step limit") }
                if let Some(w) = self.out_of_time() { return bad(w) }
            }
            let fr = st.frames.last_mut().unwrap();
            // SAFETY: the frame holds an Rc to the code for as long as the reference is used (calls clone it first)
            let func: &Func = unsafe { &*Rc::as_ptr(&fr.f) };
            if let Some(p) = &mut self.prof { *p.entry(fr.f.name.clone()).or_default() += 1 }
            let ins = &func.code[fr.pc as usize];
            match ins {
                I::Bin { op, w, n, dst, a, b, div } => {
                    if *n == 0 && *w <= 64 {
                        if let (Some(x), Some(y)) = (Self::getc(fr, *a), Self::getc(fr, *b)) {
                            let m = if *w == 64 { u64::MAX } else { (1u64 << *w) - 1 };
                            let r = match op {
                                Op::Add => x.wrapping_add(y) & m, Op::Sub => x.wrapping_sub(y) & m, Op::And => x & y, Op::Or => x | y, Op::Xor => x ^ y,
                                Op::Mul => x.wrapping_mul(y) & m,
                                Op::Shl => if y >= *w as u64 { 0 } else { (x << y) & m },
                                Op::LShr => if y >= *w as u64 { 0 } else { x >> y },
                                _ => { if *div && y == 0 { return bad("division by zero") } fold(*op, *w, x as u128, y as u128).unwrap() as u64 }
                            };
                            fr.regs[*dst as usize] = Val::C(r);
                            fr.pc += 1;
                            continue;
                        }
                    }
                    let (x, y) = (Self::get(fr, *a), Self::get(fr, *b));
                    let r = if *n > 0 {
                        let (Val::A(x), Val::A(y)) = (&x, &y) else { return bad("vector operand") };
                        Val::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| self.bin(*op, *w, p, q)).collect()))
                    } else { self.bin(*op, *w, &x, &y) };
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*dst as usize] = r;
                    fr.pc += 1;
                }
                I::ICmp { pred, w, n, dst, a, b } => {
                    let (x, y) = (Self::get(fr, *a), Self::get(fr, *b));
                    let r = if *n > 0 {
                        let (Val::A(x), Val::A(y)) = (&x, &y) else { return bad("vector operand") };
                        Val::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| self.icmp(*pred, *w, p, q)).collect()))
                    } else { self.icmp(*pred, *w, &x, &y) };
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*dst as usize] = r;
                    fr.pc += 1;
                }
                I::Copy { dst, a } => { let v = Self::get(fr, *a); fr.regs[*dst as usize] = v; fr.pc += 1 }
                I::Load { dst, p, ty, sz } => {
                    let a = match Self::getc(fr, *p) { Some(a) => a, None => {
                        let v = Self::get(fr, *p);
                        if let Val::E(e) = v { if let Some(r) = self.tab_load(st, e, *ty)? { let fr = st.frames.last_mut().unwrap(); fr.regs[*dst as usize] = r; fr.pc += 1; continue } }
                        match self.addr(st, *p)? { Some(a) => a, None => continue } } };
                    if !self.valid(st, a, (*sz).max(1) as u64) { return bad(format!("load from bad address {:#x}", a)) }
                    let v = if *sz > 0 { self.ld_int(st, a, *sz as usize) } else { self.load_ty(st, a, *ty) };
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*dst as usize] = v;
                    fr.pc += 1;
                }
                I::Store { v, p, ty, sz } => {
                    let a = match Self::getc(fr, *p) { Some(a) => a, None => match self.addr(st, *p)? { Some(a) => a, None => continue } };
                    if !self.valid(st, a, (*sz).max(1) as u64) { return bad(format!("store to bad address {:#x}", a)) }
                    let fr = st.frames.last_mut().unwrap();
                    let x = Self::get(fr, *v);
                    fr.pc += 1;
                    if *sz > 0 { self.st_int(st, a, *sz as usize, &x) } else { self.store_ty(st, a, *ty, &x) }
                }
                I::Gep { dst, base, off, idx } => {
                    let mut conc = Self::getc(fr, *base).map(|b| b.wrapping_add(*off));
                    if let Some(c) = &mut conc {
                        let mut ok = true;
                        for (o, w, s) in idx { match Self::getc(fr, *o) { Some(i) => *c = c.wrapping_add((sx(i as u128, *w) as i64 as u64).wrapping_mul(*s)), None => { ok = false; break } } }
                        if ok { let c = *c; fr.regs[*dst as usize] = Val::C(c); fr.pc += 1; continue }
                    }
                    let b = Self::get(fr, *base);
                    let mut acc = self.ex(&b, 64);
                    let k = ar().c(64, *off as u128);
                    acc = ar().bin(Op::Add, acc, k);
                    for (o, w, s) in idx {
                        let f = st.frames.last().unwrap();
                        let v = Self::get(f, *o);
                        let e = self.ex(&v, *w);
                        let e = if *w < 64 { ar().sext(e, 64) } else { e };
                        let k = ar().c(64, *s as u128);
                        let e = ar().bin(Op::Mul, e, k);
                        acc = ar().bin(Op::Add, acc, e);
                    }
                    let v = self.from_e(acc);
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*dst as usize] = v;
                    fr.pc += 1;
                }
                I::Br(e) => { Self::follow(fr, e) }
                I::CondBr { c, t, f } => {
                    match Self::getc(fr, *c) {
                        Some(k) => Self::follow(fr, if k & 1 == 1 { t } else { f }),
                        None => {
                            let Val::E(e) = Self::get(fr, *c) else { return bad("cond") };
                            match self.decide(st, e)? {
                                Dec::T => Self::follow(st.frames.last_mut().unwrap(), t),
                                Dec::F => Self::follow(st.frames.last_mut().unwrap(), f),
                                Dec::Both(mt, mf) => {
                                    self.note_fork(st, 1);
                                    let mut o = st.clone();
                                    o.forks += 1;
                                    st.forks += 1;
                                    let ne = ar().not(e);
                                    self.assume(&mut o, ne);
                                    o.model = mf;
                                    Self::follow(o.frames.last_mut().unwrap(), f);
                                    self.assume(st, e);
                                    st.model = mt;
                                    Self::follow(st.frames.last_mut().unwrap(), t);
                                    self.work.push(o);
                                }
                            }
                        }
                    }
                }
                I::Switch { v, w, cases, edges } => {
                    match Self::getc(fr, *v) {
                        Some(k) => { let e = match cases.binary_search_by_key(&k, |c| c.0) { Ok(i) => cases[i].1, Err(_) => 0 }; Self::follow(fr, &edges[e as usize]) }
                        None => {
                            let Val::E(e) = Self::get(fr, *v) else { return bad("switch value") };
                            let mut conds = vec![ar().c(1, 0); edges.len()];
                            let mut any = ar().c(1, 0);
                            for (k, t) in cases {
                                let kk = ar().c(*w, *k as u128);
                                let c = ar().bin(Op::Eq, e, kk);
                                any = ar().bin(Op::Or, any, c);
                                if *t != 0 { conds[*t as usize] = ar().bin(Op::Or, conds[*t as usize], c) } else { conds[0] = ar().bin(Op::Or, conds[0], c) }
                            }
                            let na = ar().not(any);
                            conds[0] = ar().bin(Op::Or, conds[0], na);
                            let mut feas = vec![];
                            for (i, c) in conds.iter().enumerate() { if let Some(m) = self.feasible(st, *c)? { feas.push((i, *c, m)) } }
                            if feas.is_empty() { return bad("switch: no feasible target") }
                            if feas.len() > 1 { self.note_fork(st, feas.len() as u64 - 1) }
                            let n = feas.len();
                            for (i, c, m) in feas.drain(1..) {
                                let mut o = st.clone();
                                o.forks += 1;
                                self.assume(&mut o, c);
                                o.model = m;
                                Self::follow(o.frames.last_mut().unwrap(), &edges[i]);
                                self.work.push(o);
                            }
                            let (i, c, m) = feas.pop().unwrap();
                            if n > 1 { st.forks += 1; self.assume(st, c); st.model = m }
                            Self::follow(st.frames.last_mut().unwrap(), &edges[i]);
                        }
                    }
                }
                I::Cast { k, fw, tw, n, dst, a } => {
                    let v = Self::get(fr, *a);
                    let r = if *n > 0 {
                        let Val::A(x) = &v else { return bad("vector cast") };
                        let mut o = vec![];
                        for y in x.iter() { o.push(self.cast(*k, *fw, *tw, y)?) }
                        Val::A(Rc::new(o))
                    } else { self.cast(*k, *fw, *tw, &v)? };
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*dst as usize] = r;
                    fr.pc += 1;
                }
                I::BitCast { dst, a, from, to } => {
                    let v = Self::get(fr, *a);
                    let ((fw, fnn), (tw, tn)) = (self.p.scalar(*from), self.p.scalar(*to));
                    let r = if fnn == 0 && tn == 0 { v } else if fnn > 0 {
                        let Val::A(x) = &v else { return bad("bitcast") };
                        if tn > 0 && tw == fw { v } else {
                            if fnn as usize * fw as usize > 128 { // regroup lane-wise
                                if tw % fw == 0 { let k = (tw / fw) as usize; Val::A(Rc::new(x.chunks(k).map(|c| self.pack(c, fw)).collect())) }
                                else { let k = (fw / tw) as u16; let mut o = vec![]; for y in x.iter() { for j in 0..k { o.push(self.ext_val(y, j * tw, tw)) } } Val::A(Rc::new(o)) }
                            } else {
                                let p = self.pack(x, fw);
                                if tn == 0 { p } else { Val::A(Rc::new((0..tn).map(|i| self.ext_val(&p, i as u16 * tw, tw)).collect())) }
                            }
                        }
                    } else { Val::A(Rc::new((0..tn).map(|i| self.ext_val(&v, i as u16 * tw, tw)).collect())) };
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*dst as usize] = r;
                    fr.pc += 1;
                }
                I::Select { dst, c, a, b, ty, n } => {
                    let cv = Self::get(fr, *c);
                    let r = match &cv {
                        Val::C(k) => Self::get(fr, if k & 1 == 1 { *a } else { *b }),
                        Val::A(cs) => {
                            let (Val::A(x), Val::A(y)) = (Self::get(fr, *a), Self::get(fr, *b)) else { return bad("select vec") };
                            let (w, _) = self.p.scalar(*ty);
                            let _ = n;
                            Val::A(Rc::new((0..cs.len()).map(|i| match &cs[i] { Val::C(k) => if k & 1 == 1 { x[i].clone() } else { y[i].clone() }, Val::E(e) => self.ite_val(*e, &x[i], &y[i], w), _ => panic!() }).collect()))
                        }
                        Val::E(e) => {
                            let (x, y) = (Self::get(fr, *a), Self::get(fr, *b));
                            let is_ptr = matches!(self.p.tys[*ty as usize], Ty::Ptr);
                            let same = matches!((&x, &y), (Val::C(p), Val::C(q)) if p == q);
                            if same { x } else if is_ptr || matches!(x, Val::A(_)) {
                                match self.decide(st, *e)? {
                                    Dec::T => x,
                                    Dec::F => y,
                                    Dec::Both(mt, mf) => {
                                        self.note_fork(st, 1);
                                        let mut o = st.clone();
                                        o.forks += 1;
                                        st.forks += 1;
                                        let ne = ar().not(*e);
                                        self.assume(&mut o, ne);
                                        o.model = mf;
                                        { let f = o.frames.last_mut().unwrap(); f.regs[*dst as usize] = y; f.pc += 1 }
                                        self.work.push(o);
                                        self.assume(st, *e);
                                        st.model = mt;
                                        x
                                    }
                                }
                            } else { let (w, _) = self.p.scalar(*ty); self.ite_val(*e, &x, &y, w) }
                        }
                        _ => return bad("select cond"),
                    };
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*dst as usize] = r;
                    fr.pc += 1;
                }
                I::Alloca { dst, size, n, align } => {
                    let Some(k) = Self::getc(fr, *n) else { return bad("alloca count") };
                    let sp = (st.sp + align - 1) / align * align;
                    st.sp = sp + size * k;
                    if st.sp > STACK + (1 << 26) { return bad("stack overflow") }
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*dst as usize] = Val::C(sp);
                    fr.pc += 1;
                }
                I::ExtractValue { dst, a, path } => {
                    let mut v = Self::get(fr, *a);
                    for i in path { v = match &v { Val::A(x) => x[*i as usize].clone(), _ => return bad("extractvalue") } }
                    fr.regs[*dst as usize] = v;
                    fr.pc += 1;
                }
                I::InsertValue { dst, a, v, path } => {
                    let mut x = Self::get(fr, *a);
                    let y = Self::get(fr, *v);
                    fn ins(x: &mut Val, p: &[u32], y: Val) -> bool { match x { Val::A(r) => { let r = Rc::make_mut(r); if p.len() == 1 { r[p[0] as usize] = y; true } else { ins(&mut r[p[0] as usize], &p[1..], y) } } _ => false } }
                    if !ins(&mut x, path, y) { return bad("insertvalue") }
                    fr.regs[*dst as usize] = x;
                    fr.pc += 1;
                }
                I::ExtractElem { dst, a, i } => {
                    let (Val::A(x), Some(k)) = (Self::get(fr, *a), Self::getc(fr, *i)) else { return bad("extractelement") };
                    fr.regs[*dst as usize] = x[k as usize].clone();
                    fr.pc += 1;
                }
                I::InsertElem { dst, a, v, i } => {
                    let (Val::A(mut x), Some(k)) = (Self::get(fr, *a), Self::getc(fr, *i)) else { return bad("insertelement") };
                    let y = Self::get(fr, *v);
                    Rc::make_mut(&mut x)[k as usize] = y;
                    fr.regs[*dst as usize] = Val::A(x);
                    fr.pc += 1;
                }
                I::Shuffle { dst, a, b, mask, n } => {
                    let (Val::A(x), Val::A(y)) = (Self::get(fr, *a), Self::get(fr, *b)) else { return bad("shuffle") };
                    let n = *n as i32;
                    let r = mask.iter().map(|&m| if m < 0 { match &x[0] { Val::A(_) => x[0].clone(), _ => Val::C(0) } } else if m < n { x[m as usize].clone() } else { y[(m - n) as usize].clone() }).collect();
                    fr.regs[*dst as usize] = Val::A(Rc::new(r));
                    fr.pc += 1;
                }
                I::Ret(v) => {
                    let r = v.map(|o| Self::get(fr, o));
                    st.sp = fr.sp0;
                    st.frames.pop();
                    if self.trace { eprintln!("{:indent$}<- {:?}", "", r, indent = st.frames.len().min(60)) }
                    if st.frames.is_empty() { return Ok(()) }
                    self.finish_call(st, r);
                }
                I::Call { f, args, .. } => {
                    match f {
                        Callee::Func(id) => {
                            let b = self.p.funcs[*id as usize].builtin;
                            if b != 0 { builtin::call(self, st, b, *id, ins)? } else {
                                let av: Vec<Val> = args.iter().map(|o| Self::get(fr, *o)).collect();
                                let id = *id;
                                self.push_frame(st, id, &av)?
                            }
                        }
                        Callee::Ptr(o) => {
                            let o = *o;
                            let Some(a) = self.addr(st, o)? else { continue };
                            let Some(id) = self.p.func_at(a) else { return bad(format!("call of bad function pointer {:#x}", a)) };
                            let b = self.p.funcs[id as usize].builtin;
                            if b != 0 { builtin::call(self, st, b, id, ins)? } else {
                                let fr = st.frames.last().unwrap();
                                let av: Vec<Val> = args.iter().map(|o| Self::get(fr, *o)).collect();
                                self.push_frame(st, id, &av)?
                            }
                        }
                        Callee::Asm(s) => {
                            let v = if s.contains("cpuid") { Val::A(Rc::new(vec![Val::C(0), Val::C(0), Val::C(0), Val::C(0)])) }
                                else if args.len() >= 1 { Self::get(fr, args[0]) } else { Val::C(0) };
                            self.finish_call(st, Some(v));
                        }
                        Callee::Intr(k) => builtin::intrinsic(self, st, *k, ins)?,
                    }
                }
                I::Unreachable => return bad("reached unreachable code"),
                I::CmpXchg { dst, p, c, n, sz } => {
                    let Some(a) = self.addr(st, *p)? else { continue };
                    let fr = st.frames.last().unwrap();
                    let (c, n) = (Self::get(fr, *c), Self::get(fr, *n));
                    let old = self.ld_int(st, a, *sz as usize);
                    let (Some(x), Some(y)) = (Self::cv(&old), Self::cv(&c)) else { return bad("symbolic cmpxchg") };
                    if x == y { self.st_int(st, a, *sz as usize, &n) }
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*dst as usize] = Val::A(Rc::new(vec![old, Val::C((x == y) as u64)]));
                    fr.pc += 1;
                }
                I::Rmw { dst, op, p, v, sz } => {
                    let Some(a) = self.addr(st, *p)? else { continue };
                    let v = Self::get(st.frames.last().unwrap(), *v);
                    let old = self.ld_int(st, a, *sz as usize);
                    let w = *sz as u16 * 8;
                    let new = match op {
                        0 => v, 1 => self.bin(Op::Add, w, &old, &v), 2 => self.bin(Op::Sub, w, &old, &v), 3 => self.bin(Op::And, w, &old, &v), 5 => self.bin(Op::Or, w, &old, &v), 6 => self.bin(Op::Xor, w, &old, &v),
                        9 | 10 => { let (Some(x), Some(y)) = (Self::cv(&old), Self::cv(&v)) else { return bad("rmw") }; self.mkc(w, if *op == 9 { x.max(y) } else { x.min(y) }) }
                        _ => return bad("rmw op"),
                    };
                    self.st_int(st, a, *sz as usize, &new);
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*dst as usize] = old;
                    fr.pc += 1;
                }
                I::FBin { op, ty, dst, a, b } => {
                    let (Some(x), Some(y)) = (Self::getc(fr, *a), Self::getc(fr, *b)) else { return bad("symbolic float") };
                    let g = |a: f64, b: f64| match op { 9 => a + b, 11 => a - b, 13 => a * b, 16 => a / b, _ => a % b };
                    let g32 = |a: f32, b: f32| match op { 9 => a + b, 11 => a - b, 13 => a * b, 16 => a / b, _ => a % b };
                    let r = if *ty == 64 { g(f64::from_bits(x), f64::from_bits(y)).to_bits() } else { g32(f32::from_bits(x as u32), f32::from_bits(y as u32)).to_bits() as u64 };
                    fr.regs[*dst as usize] = Val::C(r);
                    fr.pc += 1;
                }
                I::FNeg { ty, dst, a } => { let Some(x) = Self::getc(fr, *a) else { return bad("symbolic float") }; fr.regs[*dst as usize] = Val::C(x ^ (1 << (*ty - 1))); fr.pc += 1 }
                I::FCmp { pred, ty, dst, a, b } => {
                    let (Some(x), Some(y)) = (Self::getc(fr, *a), Self::getc(fr, *b)) else { return bad("symbolic float") };
                    let (x, y) = if *ty == 64 { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                    let un = x.is_nan() || y.is_nan();
                    let (eq, gt, lt) = (!un && x == y, !un && x > y, !un && x < y);
                    let r = (pred & 1 != 0 && eq) || (pred & 2 != 0 && gt) || (pred & 4 != 0 && lt) || (pred & 8 != 0 && un);
                    fr.regs[*dst as usize] = Val::C(r as u64);
                    fr.pc += 1;
                }
                I::Bad(s) => return bad(format!("unsupported instruction: {}", s)),
            }
        }
    }
    /// load through an address that depends on one input byte: tabulate if every candidate cell is concrete
    fn tab_load(&mut self, st: &State, e: E, ty: TyId) -> X<Option<Val>> {
        let Some((v, t)) = ar().tab_of(e) else { return Ok(None) };
        let t = Box::new(*t);
        let (w, n) = self.p.scalar(ty);
        if w == 0 || n > 0 || w > 64 || matches!(self.p.tys[ty as usize], Ty::Ptr) { return Ok(None) }
        let d = st.dom_of(v);
        let mut out = Box::new([0u64; 256]);
        let mut firstv = None;
        let mut ok = [false; 256];
        let sz = self.p.ty_size(ty);
        for i in 0..256 {
            if d != 0 { if let Some((_, dt)) = ar().tab_of(d) { if dt[i] != 1 { continue } } }
            if !self.valid(st, t[i], sz) { return Ok(None) }
            match self.load_ty(st, t[i], ty) { Val::C(x) => { out[i] = x; ok[i] = true; firstv.get_or_insert(x); } _ => return Ok(None) }
        }
        for i in 0..256 { if !ok[i] { out[i] = firstv.unwrap_or(0) } }
        let r = ar().mk_tab(v, w, out);
        Ok(Some(self.from_e(r)))
    }
    pub fn icmp(&self, pred: u8, w: u16, a: &Val, b: &Val) -> Val {
        // LLVM: EQ=32 NE UGT UGE ULT ULE SGT SGE SLT SLE
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let s = |v: u64| sx(v as u128, w);
            let r = match pred { 32 => x == y, 33 => x != y, 34 => x > y, 35 => x >= y, 36 => x < y, 37 => x <= y, 38 => s(x) > s(y), 39 => s(x) >= s(y), 40 => s(x) < s(y), _ => s(x) <= s(y) };
            return Val::C(r as u64);
        }
        match pred {
            32 => self.bin(Op::Eq, w, a, b),
            33 => { let r = self.bin(Op::Eq, w, a, b); self.bin(Op::Xor, 1, &r, &Val::C(1)) }
            34 => self.bin(Op::Ult, w, b, a), 35 => self.bin(Op::Ule, w, b, a), 36 => self.bin(Op::Ult, w, a, b), 37 => self.bin(Op::Ule, w, a, b),
            38 => self.bin(Op::Slt, w, b, a), 39 => self.bin(Op::Sle, w, b, a), 40 => self.bin(Op::Slt, w, a, b), _ => self.bin(Op::Sle, w, a, b),
        }
    }
    fn cast(&self, k: CK, fw: u16, tw: u16, v: &Val) -> X<Val> {
        Ok(match k {
            CK::Trunc => self.trunc_val(v.clone(), tw),
            CK::ZExt => self.zext_val(v, tw),
            CK::SExt => self.sext_val(v, fw, tw),
            _ => {
                let Some(x) = Self::cv(v) else { return bad("symbolic float cast") };
                let f = |x: u128| if fw == 64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 };
                let of = |d: f64| if tw == 64 { d.to_bits() as u128 } else { (d as f32).to_bits() as u128 };
                let r = match k {
                    CK::FpToUi => f(x) as u128, CK::FpToSi => f(x) as i128 as u128,
                    CK::UiToFp => if tw == 64 { (x as f64).to_bits() as u128 } else { (x as f32).to_bits() as u128 },
                    CK::SiToFp => { let s = sx(x, fw); if tw == 64 { (s as f64).to_bits() as u128 } else { (s as f32).to_bits() as u128 } }
                    _ => of(f(x)),
                };
                self.mkc(tw, r)
            }
        })
    }
    pub fn arg(&self, st: &State, o: O) -> Val { Self::get(st.frames.last().unwrap(), o) }
    /// concrete argument; forks the state over the feasible values when it is symbolic
    pub fn carg(&mut self, st: &mut State, o: O) -> X<u64> {
        match self.arg(st, o) {
            Val::C(x) => Ok(x),
            Val::E(e) => { self.concretize(st, o, e)?; match self.arg(st, o) { Val::C(x) => Ok(x), _ => bad("carg") } }
            _ => bad("argument kind"),
        }
    }
    pub fn new_bytes(&mut self, st: &mut State, n: u32) -> u32 {
        // variables are numbered per path, so that paths sharing a prefix share variables
        let first = st.model.len() as u32;
        let m = Rc::make_mut(&mut st.model);
        m.resize((first + n) as usize, 0);
        first
    }
}
