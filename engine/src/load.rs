//! Lazy loading of LLVM bitcode modules and predecoding of functions into a compact form.
use crate::expr::{Map, Op};
use crate::llvm::*;
use crate::mem::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val { C(u64), E(u32), W(Box<u128>), A(Rc<Vec<Val>>) }
impl Default for Val { fn default() -> Val { Val::C(0) } }

#[derive(Clone, Copy, Debug)]
pub enum O { R(u32), C(u64), K(u32) }
pub type TyId = u32;
#[derive(Clone, Debug)]
pub enum Ty { Void, Int(u16), Ptr, F32, F64, Agg { elems: Vec<(u64, TyId)>, size: u64 }, Vec { n: u32, elem: TyId, size: u64 } }

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum CK { Trunc, ZExt, SExt, FpToUi, FpToSi, UiToFp, SiToFp, FpTrunc, FpExt }
#[derive(Debug)]
pub struct Edge { pub pc: u32, pub moves: Vec<(u32, O)> }
#[derive(Debug)]
pub enum Callee { Func(u32), Ptr(O), Asm(String), Intr(Intr) }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Intr {
    Nop, Assume, Memcpy, Memset, Expect, TlsAddr, Trap, SatAdd(bool), SatSub(bool), UMax, UMin, SMax, SMin, SCmp, UCmp,
    Ctlz, Cttz, Ctpop, Bswap, BitRev, Ovf(u8, bool), Abs, Fshl, Fshr, IsConst, FAbs, Pause, ObjSize, Zero, ReduceOr, ReduceAnd, ReduceAdd, Cpuid, Unsupported, Vaarg, MaskedLoad,
    FTrunc, FFloor, FCeil, FCopysign, Ptrmask,
}
#[derive(Debug)]
pub enum I {
    Bin { op: Op, w: u16, n: u32, dst: u32, a: O, b: O, div: bool },
    FBin { op: u8, ty: u8, dst: u32, a: O, b: O },
    FNeg { ty: u8, dst: u32, a: O },
    ICmp { pred: u8, w: u16, n: u32, dst: u32, a: O, b: O },
    FCmp { pred: u8, ty: u8, dst: u32, a: O, b: O },
    Cast { k: CK, fw: u16, tw: u16, n: u32, dst: u32, a: O },
    BitCast { dst: u32, a: O, from: TyId, to: TyId },
    Copy { dst: u32, a: O },
    Select { dst: u32, c: O, a: O, b: O, ty: TyId, n: u32 },
    Load { dst: u32, p: O, ty: TyId, sz: u8 }, // sz: 1,2,4,8 for plain ints, 0 otherwise
    Store { v: O, p: O, ty: TyId, sz: u8 },
    Gep { dst: u32, base: O, off: u64, idx: Vec<(O, u16, u64)> },
    Alloca { dst: u32, size: u64, n: O, align: u64 },
    ExtractValue { dst: u32, a: O, path: Vec<u32> },
    InsertValue { dst: u32, a: O, v: O, path: Vec<u32> },
    ExtractElem { dst: u32, a: O, i: O },
    InsertElem { dst: u32, a: O, v: O, i: O },
    Shuffle { dst: u32, a: O, b: O, mask: Vec<i32>, n: u32 },
    Call { dst: u32, has: bool, f: Callee, args: Vec<O>, ty: TyId, argw: Vec<u16>, next: Option<Edge>, nm: Rc<str> },
    Br(Edge),
    CondBr { c: O, t: Edge, f: Edge },
    Switch { v: O, w: u16, cases: Vec<(u64, u32)>, edges: Vec<Edge> }, // edges[0] default
    Ret(Option<O>),
    Unreachable,
    Rmw { dst: u32, op: u8, p: O, v: O, sz: u8 },
    CmpXchg { dst: u32, p: O, c: O, n: O, sz: u8 },
    Bad(String),
}
pub struct Func {
    pub id: u32,
    pub name: Rc<str>,
    pub nregs: u32,
    pub nparams: u32,
    pub code: Vec<I>,
    pub consts: Vec<Val>,
}
pub struct FInfo { pub name: Rc<str>, pub val: R, pub module: usize, pub code: Option<Rc<Func>>, pub builtin: u32, pub resolved: bool, pub entered: bool }
struct Archive { data: &'static [u8], path: String }
pub struct Module { pub m: R, td: R, pub name: String }
pub const FBASE: u64 = 0x10_0000;
pub const CONST_BASE: u64 = 0x1000_0000;
pub const MUT_BASE: u64 = 0x2000_0000;
pub struct Prog {
    pub modules: Vec<Module>,
    index: Map<String, (usize, usize)>,
    loaded: Map<(usize, usize), usize>,
    archives: Vec<Archive>,
    defs: Map<String, (usize, R)>,
    pub funcs: Vec<FInfo>,
    fn_by_val: Map<usize, u32>,
    fn_by_name: Map<String, u32>,
    globals: Map<usize, u64>,
    pub global_names: Map<String, u64>,
    pub base: Mem,
    cptr: u64,
    mptr: u64,
    pub tys: Vec<Ty>,
    ty_memo: Map<(usize, usize), TyId>,
    pub undefined_called: Vec<String>,
    pub load_ms: u128,
    ctx: R,
}
impl Prog {
    pub fn new() -> Prog {
        Prog { modules: vec![], index: Default::default(), loaded: Default::default(), archives: vec![], defs: Default::default(), funcs: vec![],
            fn_by_val: Default::default(), fn_by_name: Default::default(), globals: Default::default(), global_names: Default::default(), base: Mem::default(),
            cptr: CONST_BASE, mptr: MUT_BASE, tys: vec![Ty::Void], ty_memo: Default::default(), undefined_called: vec![], load_ms: 0, ctx: unsafe { LLVMContextCreate() } }
    }
    pub fn add_file(&mut self, path: &str) {
        let data: &'static [u8] = Box::leak(std::fs::read(path).unwrap_or_else(|e| panic!("{}: {}", path, e)).into_boxed_slice());
        let ai = self.archives.len();
        self.archives.push(Archive { data, path: path.into() });
        if data.starts_with(b"!<arch>\n") {
            // GNU archive symbol table
            let hdr = &data[8..68];
            let name = std::str::from_utf8(&hdr[..16]).unwrap().trim();
            let size: usize = std::str::from_utf8(&hdr[48..58]).unwrap().trim().parse().unwrap();
            if name != "/" { eprintln!("vsym: no symbol table in {}", path); return }
            let t = &data[68..68 + size];
            let n = u32::from_be_bytes(t[..4].try_into().unwrap()) as usize;
            let mut p = 4 + 4 * n;
            for i in 0..n {
                let off = u32::from_be_bytes(t[4 + 4 * i..8 + 4 * i].try_into().unwrap()) as usize;
                let e = p + t[p..].iter().position(|c| *c == 0).unwrap();
                let s = String::from_utf8_lossy(&t[p..e]).into_owned();
                p = e + 1;
                self.index.entry(s).or_insert((ai, off));
            }
        } else {
            self.load_module(ai, usize::MAX);
        }
    }
    fn load_module(&mut self, ai: usize, off: usize) -> Option<usize> {
        if let Some(&m) = self.loaded.get(&(ai, off)) { return Some(m) }
        let t0 = std::time::Instant::now();
        let data = self.archives[ai].data;
        let body: &[u8] = if off == usize::MAX { data } else {
            let size: usize = std::str::from_utf8(&data[off + 48..off + 58]).unwrap().trim().parse().unwrap();
            &data[off + 60..off + 60 + size]
        };
        let bc = if body.starts_with(b"BC\xc0\xde") { body } else if body.starts_with(b"\x7fELF") { elf_section(body, b".llvmbc")? } else { return None };
        unsafe {
            let buf = LLVMCreateMemoryBufferWithMemoryRangeCopy(bc.as_ptr() as *const _, bc.len(), b"m\0".as_ptr() as *const _);
            let mut m: R = std::ptr::null_mut();
            if LLVMParseBitcodeInContext2(self.ctx, buf, &mut m) != 0 { panic!("cannot parse bitcode in {}", self.archives[ai].path) }
            let td = LLVMGetModuleDataLayout(m);
            let mi = self.modules.len();
            let nm = std::path::Path::new(&self.archives[ai].path).file_name().unwrap().to_string_lossy().into_owned();
            self.modules.push(Module { m, td, name: nm });
            self.loaded.insert((ai, off), mi);
            let mut f = LLVMGetFirstFunction(m);
            while !f.is_null() {
                if LLVMIsDeclaration(f) == 0 && LLVMGetLinkage(f) < 7 { self.defs.entry(name_of(f)).or_insert((mi, f)); }
                f = LLVMGetNextFunction(f);
            }
            let mut f = LLVMGetFirstGlobal(m);
            while !f.is_null() {
                if LLVMIsDeclaration(f) == 0 { let l = LLVMGetLinkage(f); if l != 8 && l != 9 { self.defs.entry(name_of(f)).or_insert((mi, f)); } }
                f = LLVMGetNextGlobal(f);
            }
            let mut f = LLVMGetFirstGlobalAlias(m);
            while !f.is_null() {
                self.defs.entry(name_of(f)).or_insert((mi, f));
                f = LLVMGetNextGlobalAlias(f);
            }
            self.load_ms += t0.elapsed().as_millis();
            Some(mi)
        }
    }
    pub fn find(&mut self, name: &str) -> Option<(usize, R)> {
        if let Some(x) = self.defs.get(name) { return Some(*x) }
        let (a, o) = *self.index.get(name)?;
        self.load_module(a, o)?;
        self.defs.get(name).copied()
    }
    pub fn func_named(&mut self, name: &str) -> Option<u32> {
        if let Some(&f) = self.fn_by_name.get(name) { return Some(f) }
        let (mi, v) = self.find(name)?;
        Some(self.func_id(mi, v))
    }
    pub fn func_id(&mut self, mi: usize, v: R) -> u32 {
        if let Some(&f) = self.fn_by_val.get(&(v as usize)) { return f }
        unsafe {
            if LLVMGetValueKind(v) == 6 { let a = LLVMAliasGetAliasee(v); let id = self.func_id(mi, a); self.fn_by_val.insert(v as usize, id); return id }
            let name = name_of(v);
            let lk = LLVMGetLinkage(v);
            let local = lk == 8 || lk == 9;
            if !local { if let Some(&f) = self.fn_by_name.get(&name) { self.fn_by_val.insert(v as usize, f); return f } }
            let id = self.funcs.len() as u32;
            // the harness (the first file given) may define its own version of a library function
            let own = !name.starts_with("_R") && matches!(self.index.get(&name), Some((0, _)));
            let builtin = if local || own { 0 } else { crate::builtin::lookup(&name) };
            let (mut m2, mut v2, mut resolved) = (mi, v, true);
            if builtin == 0 && LLVMIsDeclaration(v) != 0 {
                match self.find(&name) { Some((a, b)) => { m2 = a; v2 = b; } None => resolved = false }
                if resolved && LLVMGetValueKind(v2) == 6 { v2 = LLVMAliasGetAliasee(v2) }
            }
            let id = { let _ = id; self.funcs.len() as u32 };
            self.funcs.push(FInfo { name: name.as_str().into(), val: v2, module: m2, code: None, builtin, resolved, entered: false });
            self.fn_by_val.insert(v as usize, id);
            self.fn_by_val.insert(v2 as usize, id);
            if !local { self.fn_by_name.insert(name, id); }
            id
        }
    }
    pub fn func_addr(&self, id: u32) -> u64 { FBASE + id as u64 * 16 }
    pub fn func_at(&self, a: u64) -> Option<u32> {
        if a < FBASE || (a - FBASE) % 16 != 0 { return None }
        let i = (a - FBASE) / 16;
        if (i as usize) < self.funcs.len() { Some(i as u32) } else { None }
    }
    pub fn ty(&mut self, mi: usize, t: R) -> TyId {
        let key = (self.modules[mi].td as usize & 0, t as usize);
        if let Some(&x) = self.ty_memo.get(&key) { return x }
        let td = self.modules[mi].td;
        unsafe {
            let r = match LLVMGetTypeKind(t) {
                0 => Ty::Void,
                2 => Ty::F32,
                3 => Ty::F64,
                8 => Ty::Int(LLVMGetIntTypeWidth(t) as u16),
                12 => Ty::Ptr,
                10 => {
                    let n = LLVMCountStructElementTypes(t);
                    let mut elems = vec![];
                    for i in 0..n { let e = self.ty(mi, LLVMStructGetTypeAtIndex(t, i)); elems.push((LLVMOffsetOfElement(td, t, i), e)) }
                    Ty::Agg { elems, size: LLVMABISizeOfType(td, t) }
                }
                11 => {
                    let n = LLVMGetArrayLength2(t);
                    let et = LLVMGetElementType(t);
                    let es = LLVMABISizeOfType(td, et);
                    let e = self.ty(mi, et);
                    Ty::Agg { elems: (0..n).map(|i| (i * es, e)).collect(), size: n * es }
                }
                13 => { let et = LLVMGetElementType(t); let e = self.ty(mi, et); Ty::Vec { n: LLVMGetVectorSize(t), elem: e, size: LLVMABISizeOfType(td, t) } }
                _ => Ty::Void,
            };
            let id = self.tys.len() as u32;
            self.tys.push(r);
            self.ty_memo.insert(key, id);
            id
        }
    }
    pub fn ty_size(&self, t: TyId) -> u64 {
        match &self.tys[t as usize] {
            Ty::Void => 0, Ty::Int(w) => { let b = (*w as u64 + 7) / 8; if b <= 8 { b.next_power_of_two() } else { (b + 15) / 16 * 16 } }
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4, Ty::Agg { size, .. } => *size, Ty::Vec { size, .. } => *size,
        }
    }
    /// (scalar bits, lanes) ; lanes 0 = scalar
    pub fn scalar(&self, t: TyId) -> (u16, u32) {
        match &self.tys[t as usize] {
            Ty::Int(w) => (*w, 0), Ty::Ptr | Ty::F64 => (64, 0), Ty::F32 => (32, 0),
            Ty::Vec { n, elem, .. } => (self.scalar(*elem).0, *n),
            _ => (0, 0),
        }
    }
    fn zero(&self, t: TyId) -> Val {
        match &self.tys[t as usize] {
            Ty::Int(w) if *w > 64 => Val::W(Box::new(0)),
            Ty::Agg { elems, .. } => Val::A(Rc::new(elems.iter().map(|(_, e)| self.zero(*e)).collect())),
            Ty::Vec { n, elem, .. } => Val::A(Rc::new((0..*n).map(|_| self.zero(*elem)).collect())),
            _ => Val::C(0),
        }
    }
    pub fn global_addr(&mut self, mi: usize, v: R) -> u64 {
        if let Some(&a) = self.globals.get(&(v as usize)) { return a }
        unsafe {
            let kind = LLVMGetValueKind(v);
            if kind == 6 { let a = LLVMAliasGetAliasee(v); let r = self.const_addr(mi, a); self.globals.insert(v as usize, r); return r }
            let name = name_of(v);
            let (mut m2, mut v2) = (mi, v);
            if LLVMIsDeclaration(v) != 0 {
                match self.find(&name) {
                    Some((a, b)) => { m2 = a; v2 = b }
                    None => {
                        // unknown external data: give it a page of zeroes
                        self.mptr = (self.mptr + PS as u64 - 1) & !(PS as u64 - 1);
                        let a = self.mptr;
                        self.mptr += PS as u64;
                        self.globals.insert(v as usize, a);
                        return a;
                    }
                }
                if LLVMGetValueKind(v2) == 6 { let r = self.const_addr(m2, v2); self.globals.insert(v as usize, r); return r }
                if let Some(&a) = self.globals.get(&(v2 as usize)) { self.globals.insert(v as usize, a); return a }
            } else if LLVMGetLinkage(v) != 8 && LLVMGetLinkage(v) != 9 {
                // several modules may define it: use the canonical one
                if let Some(&(a, b)) = self.defs.get(&name) { if b != v { m2 = a; v2 = b; if let Some(&a) = self.globals.get(&(v2 as usize)) { self.globals.insert(v as usize, a); return a } } }
            }
            let vt = LLVMGlobalGetValueType(v2);
            let td = self.modules[m2].td;
            let size = LLVMABISizeOfType(td, vt).max(1);
            let al = (LLVMGetAlignment(v2) as u64).max(1);
            let is_const = LLVMIsGlobalConstant(v2) != 0;
            let addr;
            if is_const {
                self.cptr = (self.cptr + al - 1) / al * al;
                addr = self.cptr;
                self.cptr += size;
                if self.cptr >= MUT_BASE { panic!("const space exhausted") }
            } else {
                let g = (PS as u64).max(al);
                self.mptr = (self.mptr + g - 1) / g * g;
                addr = self.mptr;
                self.mptr += size;
            }
            self.globals.insert(v as usize, addr);
            self.globals.insert(v2 as usize, addr);
            self.global_names.insert(name, addr);
            let init = LLVMGetInitializer(v2);
            if !init.is_null() { self.write_const(m2, addr, init) }
            addr
        }
    }
    pub fn wbytes(&mut self, addr: u64, b: &[u8]) {
        let mut a = addr;
        let mut b = b;
        while !b.is_empty() {
            let o = (a as usize) & (PS - 1);
            let n = b.len().min(PS - o);
            self.base.page_mut(a, None).d[o..o + n].copy_from_slice(&b[..n]);
            a += n as u64;
            b = &b[n..];
        }
    }
    fn write_const(&mut self, mi: usize, addr: u64, v: R) {
        unsafe {
            let t = LLVMTypeOf(v);
            let td = self.modules[mi].td;
            match LLVMGetValueKind(v) {
                14 | 26 | 15 | 21 => {} // undef, poison, zeroinitializer, null
                16 | 17 => {
                    let mut n = 0usize;
                    let p = LLVMGetRawDataValues(v, &mut n);
                    let s = std::slice::from_raw_parts(p as *const u8, n).to_vec();
                    self.wbytes(addr, &s);
                }
                11 | 13 => {
                    let et = LLVMGetElementType(t);
                    let es = LLVMABISizeOfType(td, et);
                    let n = LLVMGetNumOperands(v) as u32;
                    for i in 0..n { self.write_const(mi, addr + es * i as u64, LLVMGetOperand(v, i)) }
                }
                12 => {
                    let n = LLVMGetNumOperands(v) as u32;
                    for i in 0..n { let o = LLVMOffsetOfElement(td, t, i); self.write_const(mi, addr + o, LLVMGetOperand(v, i)) }
                }
                _ => {
                    let tid = self.ty(mi, t);
                    let sz = self.ty_size(tid) as usize;
                    match self.constant(mi, v) {
                        Val::C(x) => self.wbytes(addr, &x.to_le_bytes()[..sz.min(8)]),
                        Val::W(x) => self.wbytes(addr, &x.to_le_bytes()[..sz.min(16)]),
                        _ => panic!("write_const {}", print_value(v)),
                    }
                }
            }
        }
    }
    fn const_addr(&mut self, mi: usize, v: R) -> u64 { match self.constant(mi, v) { Val::C(x) => x, _ => panic!("const addr") } }
    pub fn constant(&mut self, mi: usize, v: R) -> Val {
        unsafe {
            let t = LLVMTypeOf(v);
            match LLVMGetValueKind(v) {
                5 => { let f = self.func_id(mi, v); if LLVMGetLinkage(v) == 12 && !self.funcs[f as usize].resolved && self.funcs[f as usize].builtin == 0 { Val::C(0) } else { Val::C(self.func_addr(f)) } }
                6 => {
                    let a = LLVMAliasGetAliasee(v);
                    self.constant(mi, a)
                }
                8 => Val::C(self.global_addr(mi, v)),
                18 => {
                    let w = LLVMGetIntTypeWidth(t);
                    if w <= 64 { Val::C(LLVMConstIntGetZExtValue(v)) } else {
                        let s = print_value(v);
                        let num = s.rsplit(' ').next().unwrap();
                        let x: u128 = if let Some(n) = num.strip_prefix('-') { (n.parse::<u128>().unwrap() as i128).wrapping_neg() as u128 } else { num.parse::<u128>().unwrap_or_else(|_| num.parse::<i128>().unwrap() as u128) };
                        Val::W(Box::new(x & crate::expr::mask(w as u16)))
                    }
                }
                20 => { let mut l = 0; let d = LLVMConstRealGetDouble(v, &mut l); if LLVMGetTypeKind(t) == 2 { Val::C((d as f32).to_bits() as u64) } else { Val::C(d.to_bits()) } }
                21 => Val::C(0),
                14 | 15 | 26 => { let id = self.ty(mi, t); self.zero(id) }
                11 | 12 | 13 => {
                    let n = LLVMGetNumOperands(v) as u32;
                    Val::A(Rc::new((0..n).map(|i| self.constant(mi, LLVMGetOperand(v, i))).collect()))
                }
                16 | 17 => {
                    let n = if LLVMGetTypeKind(t) == 13 { LLVMGetVectorSize(t) as u64 } else { LLVMGetArrayLength2(t) };
                    Val::A(Rc::new((0..n).map(|i| self.constant(mi, LLVMGetAggregateElement(v, i as u32))).collect()))
                }
                10 => {
                    let a = self.constant_opt(mi, v, 0);
                    match LLVMGetConstOpcode(v) {
                        29 => {
                            let Val::C(mut base) = a else { panic!("gep base") };
                            let n = LLVMGetNumOperands(v) as u32;
                            let mut cur = LLVMGetGEPSourceElementType(v);
                            let td = self.modules[mi].td;
                            for i in 1..n {
                                let o = LLVMGetOperand(v, i);
                                let Val::C(ix) = self.constant(mi, o) else { panic!() };
                                let iw = LLVMGetIntTypeWidth(LLVMTypeOf(o)) as u16;
                                let ix = crate::expr::sx(ix as u128, iw) as i64 as u64;
                                if i == 1 { base = base.wrapping_add(ix.wrapping_mul(LLVMABISizeOfType(td, cur))) }
                                else if LLVMGetTypeKind(cur) == 10 { base = base.wrapping_add(LLVMOffsetOfElement(td, cur, ix as u32)); cur = LLVMStructGetTypeAtIndex(cur, ix as u32) }
                                else { cur = LLVMGetElementType(cur); base = base.wrapping_add(ix.wrapping_mul(LLVMABISizeOfType(td, cur))) }
                            }
                            Val::C(base)
                        }
                        39 | 40 | 41 | 60 | 30 => {
                            let Val::C(x) = a else { panic!() };
                            let id = self.ty(mi, t);
                            let (w, _) = self.scalar(id);
                            Val::C(x & crate::expr::mask(w) as u64)
                        }
                        8 => { let (Val::C(x), Val::C(y)) = (a, self.constant_opt(mi, v, 1)) else { panic!() }; Val::C(x.wrapping_add(y)) }
                        10 => { let (Val::C(x), Val::C(y)) = (a, self.constant_opt(mi, v, 1)) else { panic!() }; Val::C(x.wrapping_sub(y)) }
                        25 => { let (Val::C(x), Val::C(y)) = (a, self.constant_opt(mi, v, 1)) else { panic!() }; Val::C(x ^ y) }
                        k => panic!("constexpr opcode {} {}", k, print_value(v)),
                    }
                }
                k => panic!("constant kind {} {}", k, print_value(v)),
            }
        }
    }
    fn constant_opt(&mut self, mi: usize, v: R, i: u32) -> Val { let o = unsafe { LLVMGetOperand(v, i) }; self.constant(mi, o) }

    pub fn code(&mut self, id: u32) -> Rc<Func> {
        if let Some(c) = &self.funcs[id as usize].code { return c.clone() }
        let c = Rc::new(self.decode(id));
        self.funcs[id as usize].code = Some(c.clone());
        c
    }
    fn decode(&mut self, id: u32) -> Func {
        let (mi, f) = (self.funcs[id as usize].module, self.funcs[id as usize].val);
        let mut d = Dec { p: self, mi, regs: Default::default(), consts: vec![], code: vec![] };
        unsafe {
            let np = LLVMCountParams(f);
            for i in 0..np { let n = d.regs.len() as u32; d.regs.insert(LLVMGetParam(f, i) as usize, n); }
            // number registers, block starts
            let mut starts: Map<usize, u32> = Default::default();
            let mut pc = 0u32;
            let mut b = LLVMGetFirstBasicBlock(f);
            while !b.is_null() {
                starts.insert(b as usize, pc);
                let mut i = LLVMGetFirstInstruction(b);
                while !i.is_null() {
                    if LLVMGetTypeKind(LLVMTypeOf(i)) != 0 { let n = d.regs.len() as u32; d.regs.insert(i as usize, n); }
                    if !d.skip(i) { pc += 1 }
                    i = LLVMGetNextInstruction(i);
                }
                b = LLVMGetNextBasicBlock(b);
            }
            let mut b = LLVMGetFirstBasicBlock(f);
            while !b.is_null() {
                let mut i = LLVMGetFirstInstruction(b);
                while !i.is_null() {
                    if !d.skip(i) { let x = d.inst(i, b, &starts); d.code.push(x) }
                    i = LLVMGetNextInstruction(i);
                }
                b = LLVMGetNextBasicBlock(b);
            }
            let (nregs, code, consts) = (d.regs.len() as u32, std::mem::take(&mut d.code), std::mem::take(&mut d.consts));
            Func { id, name: self.funcs[id as usize].name.clone(), nregs, nparams: np, code, consts }
        }
    }
}
fn elf_section<'a>(b: &'a [u8], name: &[u8]) -> Option<&'a [u8]> {
    let u64_ = |o: usize| u64::from_le_bytes(b[o..o + 8].try_into().unwrap()) as usize;
    let u32_ = |o: usize| u32::from_le_bytes(b[o..o + 4].try_into().unwrap()) as usize;
    let u16_ = |o: usize| u16::from_le_bytes(b[o..o + 2].try_into().unwrap()) as usize;
    let shoff = u64_(0x28);
    let (es, mut n, mut stri) = (u16_(0x3a), u16_(0x3c), u16_(0x3e));
    if n == 0 { n = u64_(shoff + 0x20) }
    if stri == 0xffff { stri = u32_(shoff + 0x28) }
    let so = u64_(shoff + es * stri + 0x18);
    for i in 0..n {
        let h = shoff + es * i;
        let nm = so + u32_(h);
        if b[nm..].starts_with(name) && b[nm + name.len()] == 0 { let (o, s) = (u64_(h + 0x18), u64_(h + 0x20)); return Some(&b[o..o + s]) }
    }
    None
}
struct Dec<'a> { p: &'a mut Prog, mi: usize, regs: Map<usize, u32>, consts: Vec<Val>, code: Vec<I> }
impl<'a> Dec<'a> {
    unsafe fn skip(&self, i: R) -> bool {
        let op = LLVMGetInstructionOpcode(i);
        if op == 44 || op == 55 { return true }
        if op == 45 {
            let c = LLVMGetCalledValue(i);
            if LLVMGetValueKind(c) == 5 {
                let n = name_of(c);
                return n.starts_with("llvm.lifetime") || n.starts_with("llvm.dbg") || n.starts_with("llvm.experimental.noalias") || n == "llvm.assume" || n.starts_with("llvm.prefetch") || n.starts_with("llvm.invariant");
            }
        }
        false
    }
    fn o(&mut self, v: R) -> O {
        unsafe {
            match LLVMGetValueKind(v) {
                0 | 25 => O::R(self.regs[&(v as usize)]),
                22 | 23 | 24 => O::C(0),
                _ => match self.p.constant(self.mi, v) {
                    Val::C(x) => O::C(x),
                    x => { self.consts.push(x); O::K(self.consts.len() as u32 - 1) }
                },
            }
        }
    }
    fn op(&mut self, i: R, n: u32) -> O { let v = unsafe { LLVMGetOperand(i, n) }; self.o(v) }
    fn tyo(&mut self, v: R) -> TyId { let t = unsafe { LLVMTypeOf(v) }; self.p.ty(self.mi, t) }
    unsafe fn edge(&mut self, from: R, to: R, starts: &Map<usize, u32>) -> Edge {
        let mut moves = vec![];
        let mut i = LLVMGetFirstInstruction(to);
        while !i.is_null() && LLVMGetInstructionOpcode(i) == 44 {
            let n = LLVMCountIncoming(i);
            for k in 0..n { if LLVMGetIncomingBlock(i, k) == from { let o = self.o(LLVMGetIncomingValue(i, k)); moves.push((self.regs[&(i as usize)], o)); break } }
            i = LLVMGetNextInstruction(i);
        }
        Edge { pc: starts[&(to as usize)], moves }
    }
    unsafe fn inst(&mut self, i: R, b: R, starts: &Map<usize, u32>) -> I {
        let opc = LLVMGetInstructionOpcode(i);
        let dst = *self.regs.get(&(i as usize)).unwrap_or(&0);
        let bin = match opc { 8 => Some(Op::Add), 10 => Some(Op::Sub), 12 => Some(Op::Mul), 14 => Some(Op::UDiv), 15 => Some(Op::SDiv), 17 => Some(Op::URem), 18 => Some(Op::SRem),
            20 => Some(Op::Shl), 21 => Some(Op::LShr), 22 => Some(Op::AShr), 23 => Some(Op::And), 24 => Some(Op::Or), 25 => Some(Op::Xor), _ => None };
        if let Some(op) = bin {
            let t = self.tyo(i);
            let (w, n) = self.p.scalar(t);
            return I::Bin { op, w, n, dst, a: self.op(i, 0), b: self.op(i, 1), div: matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) };
        }
        match opc {
            1 => if LLVMGetNumOperands(i) == 0 { I::Ret(None) } else { I::Ret(Some(self.op(i, 0))) },
            3 => {
                let v = LLVMGetOperand(i, 0);
                let t = self.tyo(v);
                let (w, _) = self.p.scalar(t);
                let n = LLVMGetNumSuccessors(i);
                let mut edges = vec![];
                let mut cases = vec![];
                let mut seen: Vec<(R, u32)> = vec![];
                for k in 0..n {
                    let s = LLVMGetSuccessor(i, k);
                    let e = match seen.iter().find(|x| x.0 == s) { Some(x) => x.1, None => { let e = self.edge(b, s, starts); edges.push(e); seen.push((s, edges.len() as u32 - 1)); edges.len() as u32 - 1 } };
                    if k > 0 { let Val::C(c) = self.p.constant(self.mi, LLVMGetSwitchCaseValue(i, k)) else { return I::Bad("wide switch".into()) }; cases.push((c, e)) }
                }
                cases.sort_unstable();
                I::Switch { v: self.o(v), w, cases, edges }
            }
            7 => I::Unreachable,
            9 | 11 | 13 | 16 | 19 => { let t = self.tyo(i); let (w, n) = self.p.scalar(t); if n != 0 { return I::Bad("fp vector".into()) } I::FBin { op: opc as u8, ty: w as u8, dst, a: self.op(i, 0), b: self.op(i, 1) } }
            66 => { let t = self.tyo(i); let (w, _) = self.p.scalar(t); I::FNeg { ty: w as u8, dst, a: self.op(i, 0) } }
            26 => {
                let t = LLVMGetAllocatedType(i);
                let td = self.p.modules[self.mi].td;
                I::Alloca { dst, size: LLVMABISizeOfType(td, t), n: self.op(i, 0), align: (LLVMGetAlignment(i) as u64).max(1) }
            }
            27 => { let ty = self.tyo(i); I::Load { dst, p: self.op(i, 0), ty, sz: self.plain(ty) } }
            28 => { let v = LLVMGetOperand(i, 0); let ty = self.tyo(v); I::Store { v: self.o(v), p: self.op(i, 1), ty, sz: self.plain(ty) } }
            29 => {
                if LLVMGetTypeKind(LLVMTypeOf(i)) == 13 { return I::Bad("vector gep".into()) }
                let n = LLVMGetNumOperands(i) as u32;
                let mut cur = LLVMGetGEPSourceElementType(i);
                let td = self.p.modules[self.mi].td;
                let base = self.op(i, 0);
                let mut off = 0u64;
                let mut idx = vec![];
                for k in 1..n {
                    let ov = LLVMGetOperand(i, k);
                    let iw = LLVMGetIntTypeWidth(LLVMTypeOf(ov)) as u16;
                    let scale = if k == 1 { LLVMABISizeOfType(td, cur) }
                        else if LLVMGetTypeKind(cur) == 10 {
                            let ix = LLVMConstIntGetZExtValue(ov) as u32;
                            off = off.wrapping_add(LLVMOffsetOfElement(td, cur, ix));
                            cur = LLVMStructGetTypeAtIndex(cur, ix);
                            continue;
                        } else { cur = LLVMGetElementType(cur); LLVMABISizeOfType(td, cur) };
                    match self.o(ov) {
                        O::C(x) => off = off.wrapping_add((crate::expr::sx(x as u128, iw) as i64 as u64).wrapping_mul(scale)),
                        o => idx.push((o, iw, scale)),
                    }
                }
                if let (O::C(x), true) = (base, idx.is_empty()) { return I::Copy { dst, a: O::C(x.wrapping_add(off)) } }
                I::Gep { dst, base, off, idx }
            }
            30 | 31 | 32 | 33 | 34 | 35 | 36 | 37 | 38 => {
                let k = [CK::Trunc, CK::ZExt, CK::SExt, CK::FpToUi, CK::FpToSi, CK::UiToFp, CK::SiToFp, CK::FpTrunc, CK::FpExt][(opc - 30) as usize];
                let (ft, tt) = (self.tyo(LLVMGetOperand(i, 0)), self.tyo(i));
                let ((fw, _), (tw, n)) = (self.p.scalar(ft), self.p.scalar(tt));
                I::Cast { k, fw, tw, n, dst, a: self.op(i, 0) }
            }
            39 | 40 => {
                let (ft, tt) = (self.tyo(LLVMGetOperand(i, 0)), self.tyo(i));
                let ((fw, _), (tw, n)) = (self.p.scalar(ft), self.p.scalar(tt));
                if fw == tw { I::Copy { dst, a: self.op(i, 0) } } else { I::Cast { k: if fw < tw { CK::ZExt } else { CK::Trunc }, fw, tw, n, dst, a: self.op(i, 0) } }
            }
            41 => { let (from, to) = (self.tyo(LLVMGetOperand(i, 0)), self.tyo(i)); I::BitCast { dst, a: self.op(i, 0), from, to } }
            42 => {
                let t = self.tyo(LLVMGetOperand(i, 0));
                let (w, n) = self.p.scalar(t);
                I::ICmp { pred: LLVMGetICmpPredicate(i) as u8, w, n, dst, a: self.op(i, 0), b: self.op(i, 1) }
            }
            43 => { let t = self.tyo(LLVMGetOperand(i, 0)); let (w, n) = self.p.scalar(t); if n != 0 { return I::Bad("fcmp vec".into()) } I::FCmp { pred: LLVMGetFCmpPredicate(i) as u8, ty: w as u8, dst, a: self.op(i, 0), b: self.op(i, 1) } }
            45 | 5 => self.call(i, b, opc == 5, dst, starts),
            46 => {
                let ct = self.tyo(LLVMGetOperand(i, 0));
                let (_, n) = self.p.scalar(ct);
                let ty = self.tyo(i);
                I::Select { dst, c: self.op(i, 0), a: self.op(i, 1), b: self.op(i, 2), ty, n }
            }
            50 => I::ExtractElem { dst, a: self.op(i, 0), i: self.op(i, 1) },
            51 => I::InsertElem { dst, a: self.op(i, 0), v: self.op(i, 1), i: self.op(i, 2) },
            52 => {
                let n = LLVMGetNumMaskElements(i);
                let t = self.tyo(LLVMGetOperand(i, 0));
                let (_, ln) = self.p.scalar(t);
                I::Shuffle { dst, a: self.op(i, 0), b: self.op(i, 1), mask: (0..n).map(|k| LLVMGetMaskValue(i, k)).collect(), n: ln }
            }
            53 | 54 => {
                let n = LLVMGetNumIndices(i) as usize;
                let path = std::slice::from_raw_parts(LLVMGetIndices(i), n).to_vec();
                if opc == 53 { I::ExtractValue { dst, a: self.op(i, 0), path } } else { I::InsertValue { dst, a: self.op(i, 0), v: self.op(i, 1), path } }
            }
            68 => I::Copy { dst, a: self.op(i, 0) },
            56 => { let t = self.tyo(LLVMGetOperand(i, 1)); I::CmpXchg { dst, p: self.op(i, 0), c: self.op(i, 1), n: self.op(i, 2), sz: self.p.ty_size(t) as u8 } }
            57 => { let t = self.tyo(LLVMGetOperand(i, 1)); I::Rmw { dst, op: LLVMGetAtomicRMWBinOp(i) as u8, p: self.op(i, 0), v: self.op(i, 1), sz: self.p.ty_size(t) as u8 } }
            58 | 59 => I::Bad("landingpad".into()),
            _ => {
                // br in its one- or two-successor form
                let n = LLVMGetNumSuccessors(i);
                if n == 1 { let s = LLVMGetSuccessor(i, 0); return I::Br(self.edge(b, s, starts)) }
                if n == 2 {
                    let (s0, s1) = (LLVMGetSuccessor(i, 0), LLVMGetSuccessor(i, 1));
                    let c = LLVMGetCondition(i);
                    return I::CondBr { c: self.o(c), t: self.edge(b, s0, starts), f: self.edge(b, s1, starts) };
                }
                I::Bad(format!("opcode {}: {}", opc, print_value(i)))
            }
        }
    }
    fn plain(&self, t: TyId) -> u8 { match self.p.tys[t as usize] { Ty::Int(8) => 1, Ty::Int(16) => 2, Ty::Int(32) | Ty::F32 => 4, Ty::Int(64) | Ty::Ptr | Ty::F64 => 8, _ => 0 } }
    unsafe fn call(&mut self, i: R, b: R, invoke: bool, dst: u32, starts: &Map<usize, u32>) -> I {
        let c = LLVMGetCalledValue(i);
        let ty = self.tyo(i);
        let has = LLVMGetTypeKind(LLVMTypeOf(i)) != 0;
        let n = LLVMGetNumArgOperands(i);
        let mut args = vec![];
        let mut argw = vec![];
        let next = if invoke { let d = LLVMGetNormalDest(i); Some(self.edge(b, d, starts)) } else { None };
        for k in 0..n {
            let a = LLVMGetOperand(i, k);
            let t = self.tyo(a);
            argw.push(self.p.scalar(t).0);
            args.push(self.o(a));
        }
        let mut nm: Rc<str> = "".into();
        let f = if !LLVMIsAInlineAsm(c).is_null() {
            let mut n = 0usize;
            let p = LLVMGetInlineAsmAsmString(c, &mut n);
            Callee::Asm(String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned())
        } else if LLVMGetValueKind(c) == 5 {
            let name = name_of(c);
            if name.starts_with("llvm.") { nm = name.as_str().into(); Callee::Intr(intr(&name)) } else { let id = self.p.func_id(self.mi, c); Callee::Func(id) }
        } else { Callee::Ptr(self.o(c)) };
        I::Call { dst, has, f, args, ty, argw, next, nm }
    }
}
fn intr(n: &str) -> Intr {
    let n = &n[5..];
    let p = |s: &str| n.starts_with(s);
    if p("memcpy") || p("memmove") { Intr::Memcpy } else if p("memset") { Intr::Memset }
    else if p("expect") { Intr::Expect } else if p("threadlocal.address") { Intr::TlsAddr } else if p("trap") || p("ubsantrap") || p("debugtrap") { Intr::Trap }
    else if p("uadd.sat") { Intr::SatAdd(false) } else if p("usub.sat") { Intr::SatSub(false) } else if p("sadd.sat") { Intr::SatAdd(true) } else if p("ssub.sat") { Intr::SatSub(true) }
    else if p("umax") { Intr::UMax } else if p("umin") { Intr::UMin } else if p("smax") { Intr::SMax } else if p("smin") { Intr::SMin }
    else if p("scmp") { Intr::SCmp } else if p("ucmp") { Intr::UCmp } else if p("ctlz") { Intr::Ctlz } else if p("cttz") { Intr::Cttz } else if p("ctpop") { Intr::Ctpop }
    else if p("bswap") { Intr::Bswap } else if p("bitreverse") { Intr::BitRev }
    else if p("uadd.with") { Intr::Ovf(0, false) } else if p("usub.with") { Intr::Ovf(1, false) } else if p("umul.with") { Intr::Ovf(2, false) }
    else if p("sadd.with") { Intr::Ovf(0, true) } else if p("ssub.with") { Intr::Ovf(1, true) } else if p("smul.with") { Intr::Ovf(2, true) }
    else if p("abs") { Intr::Abs } else if p("fshl") { Intr::Fshl } else if p("fshr") { Intr::Fshr } else if p("is.constant") { Intr::IsConst } else if p("fabs") { Intr::FAbs }
    else if p("x86.sse2.pause") || p("donothing") || p("sideeffect") { Intr::Nop } else if p("objectsize") { Intr::ObjSize }
    else if p("x86.xgetbv") { Intr::Zero } else if p("vector.reduce.or") { Intr::ReduceOr } else if p("vector.reduce.and") { Intr::ReduceAnd } else if p("vector.reduce.add") { Intr::ReduceAdd }
    else if p("trunc.") { Intr::FTrunc } else if p("floor.") { Intr::FFloor } else if p("ceil.") { Intr::FCeil } else if p("copysign") { Intr::FCopysign } else if p("ptrmask") { Intr::Ptrmask }
    else { Intr::Unsupported }
}
