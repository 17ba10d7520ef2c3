//! Models of the runtime, the C library leaf functions, LLVM intrinsics and the harness interface.
use crate::exec::*;
use crate::expr::*;
use crate::load::*;
use std::rc::Rc;

macro_rules! builtins { ($($n:ident),* $(,)?) => { #[allow(non_camel_case_types, dead_code)] #[repr(u32)] #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum B { None, $($n),* }
    const ALL: &[B] = &[B::None, $(B::$n),*]; } }
builtins!(alloc, alloc_zeroed, dealloc, realloc, noshim, malloc, calloc, crealloc, free, posix_memalign, memcpy, memset, memcmp, strlen, ret0, ret_neg1, abort, errno, write, writev,
    panic_fmt, panic_hook, exit, getrandom, clock, sysconf,
    vs_bytes, vs_choice, vs_assume, vs_assert, vs_reach, vs_note, vs_known, vs_end, vs_symbolic, vs_concretize, vs_sha256, vs_md5, vs_print, vs_note_u64, vs_is_sym, vs_value);
pub fn lookup(name: &str) -> u32 {
    let b = match name {
        "malloc" => B::malloc, "calloc" => B::calloc, "realloc" => B::crealloc, "free" => B::free, "posix_memalign" => B::posix_memalign,
        "memcpy" | "memmove" => B::memcpy, "memset" => B::memset, "memcmp" | "bcmp" => B::memcmp, "strlen" => B::strlen,
        "abort" => B::abort, "__errno_location" => B::errno, "write" => B::write, "writev" => B::writev, "exit" | "_exit" => B::exit,
        "getenv" | "dlsym" | "pthread_self" | "__cxa_thread_atexit_impl" | "sched_yield" | "sigaction" | "signal" | "pthread_key_create" | "pthread_setspecific" | "syscall" | "dl_iterate_phdr" | "munmap" | "mprotect" | "sigaltstack" | "gettid" | "_Unwind_Backtrace" | "pthread_key_delete" => B::ret0,
        "poll" | "prctl" => B::ret_neg1,
        "sysconf" => B::sysconf,
        "getrandom" => B::getrandom, "clock_gettime" => B::clock,
        "vs_bytes" => B::vs_bytes, "vs_choice" => B::vs_choice, "vs_assume" => B::vs_assume, "vs_assert" => B::vs_assert, "vs_reach" => B::vs_reach, "vs_note" => B::vs_note, "vs_known" => B::vs_known,
        "vs_end" => B::vs_end, "vs_symbolic" => B::vs_symbolic, "vs_concretize" => B::vs_concretize, "vs_sha256_compress" => B::vs_sha256, "vs_md5_compress" => B::vs_md5, "vs_print" => B::vs_print, "vs_note_u64" => B::vs_note_u64,
        "vs_is_sym" => B::vs_is_sym, "vs_value" => B::vs_value,
        n if n.starts_with("_R") => {
            if n.ends_with("___rust_alloc_zeroed") { B::alloc_zeroed } else if n.ends_with("___rust_alloc") { B::alloc } else if n.ends_with("___rust_dealloc") { B::dealloc } else if n.ends_with("___rust_realloc") { B::realloc }
            else if n.contains("___rust_no_alloc_shim") { B::noshim }
            else if n.ends_with("9panicking9panic_fmt") || n.ends_with("9panicking19panic_nounwind_fmt") || n.ends_with("9panicking18panic_nounwind_fmt") { B::panic_fmt }
            else if n.ends_with("17rust_begin_unwind") || n.contains("rust_panic_with_hook") || n.contains("rust_panic_without_hook") || n.ends_with("18handle_alloc_error") { B::panic_hook }
            else { B::None }
        }
        _ => B::None,
    };
    b as u32
}
pub fn bytes_of(en: &Eng, st: &State, a: u64, n: u64) -> Vec<E> { (0..n).map(|i| en.rd_e(st, a + i)).collect() }
fn string(en: &Eng, st: &State, a: u64, n: u64) -> String {
    (0..n).map(|i| match en.rd_byte(st, a + i) { Ok(b) => b as char, Err(e) => st.model_of(e) as u8 as char }).collect()
}
type X<T> = Result<T, Stop>;
fn heap_alloc(st: &mut State, size: u64, align: u64) -> u64 {
    let a = align.max(16);
    let p = (st.heap + a - 1) / a * a;
    st.heap = p + size.max(1) + 16;
    p
}
fn class(size: u64, align: u64) -> Option<usize> { if align <= 16 && size <= 4096 { Some(((size + 31) / 32) as usize) } else { None } }
fn do_alloc(en: &Eng, st: &mut State, size: u64, align: u64, zero: bool) -> X<u64> {
    if size > 1 << 28 { return bad(format!("allocation of {} bytes", size)) }
    if let Some(c) = class(size, align) {
        let fl = Rc::make_mut(&mut st.free);
        if let Some(l) = fl.get_mut(c) { if let Some(p) = l.pop() { if zero { fill(en, st, p, size, 0) } return Ok(p) } }
        return Ok(heap_alloc(st, c as u64 * 32, 16));
    }
    Ok(heap_alloc(st, size, align))
}
fn do_free(st: &mut State, p: u64, size: u64, align: u64) {
    if let Some(c) = class(size, align) { let fl = Rc::make_mut(&mut st.free); if fl.len() <= c { fl.resize(c + 1, vec![]) } fl[c].push(p) }
}
fn fill(en: &Eng, st: &mut State, p: u64, n: u64, b: u8) { let z = vec![b; n as usize]; en.wr_bytes(st, p, &z) }
fn errno_addr(en: &mut Eng) -> u64 { if let Some(a) = en.p.global_names.get("\0errno") { return *a } let a = HEAP - 4096; en.p.global_names.insert("\0errno".into(), a); a }

pub fn call(en: &mut Eng, st: &mut State, b: u32, id: u32, ins: &I) -> X<()> {
    let I::Call { args, .. } = ins else { unreachable!() };
    let b = ALL[b as usize];
    let ret = |v: u64| Some(Val::C(v));
    match b {
        B::alloc | B::alloc_zeroed => { let (s, a) = (en.carg(st, args[0])?, en.carg(st, args[1])?); let p = do_alloc(en, st, s, a, b == B::alloc_zeroed)?; en.finish_call(st, ret(p)) }
        B::dealloc => { let (p, s, a) = (en.carg(st, args[0])?, en.carg(st, args[1])?, en.carg(st, args[2])?); do_free(st, p, s, a); en.finish_call(st, None) }
        B::realloc => {
            let (p, o, a, n) = (en.carg(st, args[0])?, en.carg(st, args[1])?, en.carg(st, args[2])?, en.carg(st, args[3])?);
            let q = do_alloc(en, st, n, a, false)?;
            en.copy(st, q, p, o.min(n));
            do_free(st, p, o, a);
            en.finish_call(st, ret(q))
        }
        B::noshim => en.finish_call(st, None),
        B::malloc | B::calloc | B::posix_memalign => {
            let (s, a) = match b { B::malloc => (en.carg(st, args[0])?, 16), B::calloc => (en.carg(st, args[0])? * en.carg(st, args[1])?, 16), _ => (en.carg(st, args[2])?, en.carg(st, args[1])?) };
            let p = heap_alloc(st, s + 16, a.max(16)) + 16;
            let p = (p + a - 1) / a * a;
            en.st_int(st, p - 16, 8, &Val::C(s));
            if b == B::posix_memalign { let d = en.carg(st, args[0])?; en.st_int(st, d, 8, &Val::C(p)); en.finish_call(st, ret(0)) } else { en.finish_call(st, ret(p)) }
        }
        B::crealloc => {
            let (p, n) = (en.carg(st, args[0])?, en.carg(st, args[1])?);
            let q = heap_alloc(st, n + 16, 16) + 16;
            en.st_int(st, q - 16, 8, &Val::C(n));
            if p != 0 { let Val::C(o) = en.ld_int(st, p - 16, 8) else { return bad("realloc") }; en.copy(st, q, p, o.min(n)) }
            en.finish_call(st, ret(q))
        }
        B::free => en.finish_call(st, None),
        B::memcpy => { let (d, s, n) = (en.carg(st, args[0])?, en.carg(st, args[1])?, en.carg(st, args[2])?); en.copy(st, d, s, n); en.finish_call(st, ret(d)) }
        B::memset => {
            let (d, n) = (en.carg(st, args[0])?, en.carg(st, args[2])?);
            if n > 1 << 26 { return bad(format!("fill of {} bytes", n)) }
            let v = en.arg(st, args[1]);
            let v = en.trunc_val(v, 8);
            match v { Val::C(x) => fill(en, st, d, n, x as u8), Val::E(e) => for i in 0..n { en.wr_e(st, d + i, e) }, _ => return bad("memset") }
            en.finish_call(st, ret(d))
        }
        B::memcmp => {
            let (p, q, n) = (en.carg(st, args[0])?, en.carg(st, args[1])?, en.carg(st, args[2])?);
            let bcmp = &*en.p.funcs[id as usize].name == "bcmp";
            let (mut i, mut early) = (0, None);
            // concrete common prefix
            while i < n {
                match (en.rd_byte(st, p + i), en.rd_byte(st, q + i)) {
                    (Ok(a), Ok(b)) => if a != b { early = Some(if a < b { -1i32 } else { 1 }); break },
                    (Err(a), Err(b)) if a == b => {}
                    _ => break,
                }
                i += 1;
            }
            if early.is_some() || i == n { let r = early.unwrap_or(0); en.finish_call(st, ret(r as u32 as u64)); return Ok(()) }
            let a = ar();
            if bcmp {
                let v: Vec<(E, E)> = (i..n).map(|k| (en.rd_e(st, p + k), en.rd_e(st, q + k))).collect();
                let eq = a.eq_all(&v);
                let ne = ar().not(eq);
                let r = ar().zext(ne, 32);
                let v = en.from_e(r);
                en.finish_call(st, Some(v));
            } else {
                let mut acc = a.c(32, 0);
                let (m1, p1) = (a.c(32, 0xffff_ffff), a.c(32, 1));
                for k in (i..n).rev() {
                    let (x, y) = (en.rd_e(st, p + k), en.rd_e(st, q + k));
                    let eq = ar().bin(Op::Eq, x, y);
                    let lt = ar().bin(Op::Ult, x, y);
                    let d = ar().ite(lt, m1, p1);
                    acc = ar().ite(eq, acc, d);
                }
                let v = en.from_e(acc);
                en.finish_call(st, Some(v));
            }
        }
        B::strlen => {
            let p = en.carg(st, args[0])?;
            let mut n = 0;
            loop {
                match en.rd_byte(st, p + n) {
                    Ok(0) => break,
                    Ok(_) => {}
                    Err(e) => { let z = ar().c(8, 0); let c = ar().bin(Op::Eq, e, z); match en.decide(st, c)? { Dec::F => {} Dec::T => break, _ => return bad("strlen over a possibly-NUL symbolic byte") } }
                }
                n += 1;
            }
            en.finish_call(st, ret(n))
        }
        B::ret0 => en.finish_call(st, ret(0)),
        B::ret_neg1 => en.finish_call(st, ret(u64::MAX)),
        B::sysconf => en.finish_call(st, ret(4096)),
        B::errno => { let a = errno_addr(en); en.finish_call(st, ret(a)) }
        B::write => { let n = en.carg(st, args[2])?; if en.trace || std::env::var("VSYM_OUT").is_ok() { let p = en.carg(st, args[1])?; eprint!("{}", string(en, st, p, n)) } en.finish_call(st, ret(n)) }
        B::writev => {
            let (p, k) = (en.carg(st, args[1])?, en.carg(st, args[2])?);
            let mut tot = 0;
            for i in 0..k { if let Val::C(n) = en.ld_int(st, p + 16 * i + 8, 8) { tot += n } }
            en.finish_call(st, ret(tot))
        }
        B::getrandom => {
            let (p, n) = (en.carg(st, args[0])?, en.carg(st, args[1])?);
            for i in 0..n { st.rng = st.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); let x = (st.rng >> 33) as u8; en.wr_bytes(st, p + i, &[x]) }
            en.finish_call(st, ret(n))
        }
        B::clock => { let p = en.carg(st, args[1])?; en.st_int(st, p, 8, &Val::C(1_700_000_000)); en.st_int(st, p + 8, 8, &Val::C(0)); en.finish_call(st, ret(0)) }
        B::panic_fmt | B::panic_hook | B::abort | B::exit => {
            let mut det = en.p.funcs[id as usize].name.to_string();
            if b == B::panic_fmt {
                let loc = en.carg(st, *args.last().unwrap())?;
                if let (Val::C(fp), Val::C(fl), Val::C(line)) = (en.ld_int(st, loc, 8), en.ld_int(st, loc + 8, 8), en.ld_int(st, loc + 16, 4)) { det = format!("{}:{}", string(en, st, fp, fl.min(200)).trim_end_matches('\0'), line) }
            }
            let m = st.model.clone();
            if b == B::exit { return Err(Stop::End("exit".into())) }
            en.violation(st, "panic", det, &m, None);
            return Err(Stop::End("panic".into()));
        }
        B::vs_bytes => {
            let (p, n, np, nl) = (en.carg(st, args[0])?, en.carg(st, args[1])?, en.carg(st, args[2])?, en.carg(st, args[3])?);
            let name = string(en, st, np, nl);
            let first = en.new_bytes(st, n as u32);
            for i in 0..n { let e = ar().var(first + i as u32); en.wr_e(st, p + i, e) }
            Rc::make_mut(&mut st.inputs).push((name, first, n as u32));
            en.finish_call(st, None)
        }
        B::vs_choice => {
            let (n, np, nl) = (en.carg(st, args[0])?, en.carg(st, args[1])?, en.carg(st, args[2])?);
            let name = string(en, st, np, nl);
            // the choice is a symbolic variable, whose values are told apart here
            let var = en.new_bytes(st, 1);
            for k in (0..n).rev() {
                let mut s = st.clone();
                if n <= 256 {
                    let e = { let (x, y) = (ar().var(var), ar().c(8, k as u128)); ar().bin(Op::Eq, x, y) };
                    en.assume(&mut s, e);
                    Rc::make_mut(&mut s.model)[var as usize] = k as u8;
                }
                Rc::make_mut(&mut s.choices).push((name.clone(), k as u32));
                en.finish_call(&mut s, ret(k));
                en.work.push(s);
            }
            return Err(Stop::Forked);
        }
        B::vs_assume => {
            let v = en.arg(st, args[0]);
            match v {
                Val::C(k) => if k & 1 == 0 { return Err(Stop::End("assume".into())) },
                Val::E(e) => {
                    let e = if ar().w(e) > 1 { ar().extract(e, 0, 1) } else { e };
                    match en.feasible(st, e)? { None => return Err(Stop::End("assume".into())), Some(m) => { en.assume(st, e); st.model = m } }
                }
                _ => return bad("assume"),
            }
            en.finish_call(st, None)
        }
        B::vs_assert => {
            let v = en.arg(st, args[0]);
            let (np, nl) = (en.carg(st, args[1])?, en.carg(st, args[2])?);
            let name = string(en, st, np, nl);
            en.rep.asserts += 1;
            st.asserts += 1;
            *en.rep.assert_ids.entry(name.clone()).or_default() += 1;
            match v {
                Val::C(k) => if k & 1 == 0 { let m = st.model.clone(); en.violation(st, &name, String::new(), &m, None); return Err(Stop::End(format!("assert:{}", name))) },
                Val::E(e) => {
                    en.rep.asserts_sym += 1;
                    let e = if ar().w(e) > 1 { ar().extract(e, 0, 1) } else { e };
                    let ne = ar().not(e);
                    if let Some(m) = en.feasible(st, ne)? {
                        en.violation(st, &name, String::new(), &m, Some(ne));
                        match en.feasible(st, e)? { None => return Err(Stop::End(format!("assert:{}", name))), Some(m) => { en.assume(st, e); st.model = m } }
                    }
                }
                _ => return bad("assert"),
            }
            en.finish_call(st, None)
        }
        B::vs_reach => { let (np, nl) = (en.carg(st, args[0])?, en.carg(st, args[1])?); let s = string(en, st, np, nl); *en.rep.reached.entry(s).or_default() += 1; en.finish_call(st, None) }
        B::vs_known => { let (np, nl) = (en.carg(st, args[0])?, en.carg(st, args[1])?); let s = string(en, st, np, nl); if !st.known.contains(&s) { Rc::make_mut(&mut st.known).push(s) } en.finish_call(st, None) }
        B::vs_note => {
            let (np, nl, p, n) = (en.carg(st, args[0])?, en.carg(st, args[1])?, en.carg(st, args[2])?, en.carg(st, args[3])?);
            let s = string(en, st, np, nl);
            let v = bytes_of(en, st, p, n);
            Rc::make_mut(&mut st.notes).push((s, v));
            en.finish_call(st, None)
        }
        B::vs_note_u64 => {
            let (np, nl) = (en.carg(st, args[0])?, en.carg(st, args[1])?);
            let s = string(en, st, np, nl);
            let v = en.arg(st, args[2]);
            let e = en.ex(&v, 64);
            let v = (0..8).map(|i| ar().extract(e, i * 8, 8)).collect();
            Rc::make_mut(&mut st.notes).push((s, v));
            en.finish_call(st, None)
        }
        B::vs_end => { let (np, nl) = (en.carg(st, args[0])?, en.carg(st, args[1])?); let s = string(en, st, np, nl); return Err(Stop::End(s)) }
        B::vs_symbolic => en.finish_call(st, ret(1)),
        B::vs_is_sym => { let v = en.arg(st, args[0]); en.finish_call(st, ret(matches!(v, Val::E(_)) as u64)) }
        B::vs_concretize => { let v = en.carg(st, args[0])?; en.finish_call(st, ret(v)) }
        B::vs_value => { let v = en.arg(st, args[0]); let r = match v { Val::E(e) => st.model_of(e) as u64, Val::C(x) => x, _ => 0 }; en.finish_call(st, ret(r)) }
        B::vs_print => { let (p, n) = (en.carg(st, args[0])?, en.carg(st, args[1])?); if std::env::var("VSYM_OUT").is_ok() { eprintln!("[{}] {}", st.forks, string(en, st, p, n)) } en.finish_call(st, None) }
        B::vs_sha256 | B::vs_md5 => {
            let (sp, bp) = (en.carg(st, args[0])?, en.carg(st, args[1])?);
            let (kind, sl) = if b == B::vs_sha256 { (0u8, 32u64) } else { (1, 16) };
            let mut input = bytes_of(en, st, sp, sl);
            input.extend(bytes_of(en, st, bp, 64));
            let conc: Vec<Option<u8>> = input.iter().map(|e| ar().konst(*e).map(|k| k as u8)).collect();
            let real = |v: &[u8]| if kind == 0 { crate::hash::sha256(&v[..32], &v[32..]) } else { crate::hash::md5(&v[..16], &v[16..]) };
            let out: Vec<E>;
            let all = conc.iter().all(|c| c.is_some());
            let dig = { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); (kind, &input).hash(&mut h); h.finish() };
            let equal = |h: &&Rc<HashCall>| h.kind == kind && h.input.iter().zip(&input).all(|(x, y)| en.same(st, *x, *y));
            let prior = if all { st.hconc.get(&dig).map(|i| &st.hashes[*i as usize]).filter(equal).or_else(|| st.hsym.iter().map(|i| &st.hashes[*i as usize]).find(equal)) } else { st.hashes.iter().find(equal) };
            if let Some(h) = prior { out = h.out.clone() }
            else if all {
                let n = st.hashes.len() as u32;
                Rc::make_mut(&mut st.hconc).insert(dig, n);
                let v: Vec<u8> = conc.into_iter().map(|c| c.unwrap()).collect();
                let o = real(&v);
                out = o.iter().map(|b| ar().c(8, *b as u128)).collect();
                // concrete calls take part in the congruence axioms only through their constant output
                Rc::make_mut(&mut st.hashes).push(Rc::new(HashCall { kind, input, out: out.clone(), vars: vec![] }));
            } else {
                let m = st.model.clone();
                ar().begin_eval();
                let v: Vec<u8> = input.iter().map(|e| ar().eval_rec(*e, &m) as u8).collect();
                let prior = st.hashes.iter().find(|h| h.kind == kind && h.input.iter().zip(&v).all(|(e, x)| ar().eval_rec(*e, &m) as u8 == *x)).cloned();
                let o: Vec<u8> = match prior { Some(h) => h.out.iter().map(|e| ar().eval_rec(*e, &m) as u8).collect(), None => real(&v).to_vec() };
                let first = en.new_bytes(st, sl as u32);
                { let mm = Rc::make_mut(&mut st.model); for (i, x) in o.iter().enumerate() { mm[first as usize + i] = *x } }
                let vars: Vec<u32> = (first..first + sl as u32).collect();
                let n = st.hashes.len() as u32;
                Rc::make_mut(&mut st.hsym).push(n);
                out = vars.iter().map(|v| ar().var(*v)).collect();
                Rc::make_mut(&mut st.hashes).push(Rc::new(HashCall { kind, input, out: out.clone(), vars }));
            }
            for (i, e) in out.iter().enumerate() { en.wr_e(st, sp + i as u64, *e) }
            en.finish_call(st, None)
        }
        B::None => unreachable!(),
    }
    Ok(())
}

pub fn intrinsic(en: &mut Eng, st: &mut State, k: Intr, ins: &I) -> X<()> {
    let I::Call { args, ty, argw, nm, .. } = ins else { unreachable!() };
    let (tw, tn) = en.p.scalar(*ty);
    let lanes = |en: &mut Eng, st: &State, f: &mut dyn FnMut(&mut Eng, &[Val]) -> X<Val>| -> X<Val> {
        let vs: Vec<Val> = args.iter().map(|o| en.arg(st, *o)).collect();
        if tn == 0 { return f(en, &vs) }
        let mut out = vec![];
        for i in 0..tn as usize {
            let l: Vec<Val> = vs.iter().map(|v| match v { Val::A(x) => x[i].clone(), v => v.clone() }).collect();
            out.push(f(en, &l)?);
        }
        Ok(Val::A(Rc::new(out)))
    };
    let w = if argw.is_empty() { 0 } else { argw[0] };
    let r: Option<Val> = match k {
        Intr::Nop | Intr::Assume => None,
        Intr::Memcpy => { let (d, s, n) = (en.carg(st, args[0])?, en.carg(st, args[1])?, en.carg(st, args[2])?); if n > 1 << 26 { return bad(format!("copy of {} bytes", n)) } en.copy(st, d, s, n); None }
        Intr::Memset => {
            let (d, n) = (en.carg(st, args[0])?, en.carg(st, args[2])?);
            match en.arg(st, args[1]) { Val::C(x) => fill(en, st, d, n, x as u8), Val::E(e) => for i in 0..n { en.wr_e(st, d + i, e) }, _ => return bad("memset") }
            None
        }
        Intr::Expect | Intr::TlsAddr => Some(en.arg(st, args[0])),
        Intr::Trap => return bad("trap"),
        Intr::IsConst => Some(Val::C(0)),
        Intr::ObjSize => Some(Val::C(u64::MAX)),
        Intr::Zero => Some(Val::C(0)),
        Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin => Some(lanes(en, st, &mut |en, v| {
            let lt = en.icmp(match k { Intr::UMax => 34, Intr::UMin => 36, Intr::SMax => 38, _ => 40 }, tw, &v[0], &v[1]);
            Ok(match lt { Val::C(c) => if c == 1 { v[0].clone() } else { v[1].clone() }, Val::E(e) => en.ite_val(e, &v[0], &v[1], tw), _ => return bad("max") })
        })?),
        Intr::SCmp | Intr::UCmp => Some(lanes(en, st, &mut |en, v| {
            let (lp, gp) = if k == Intr::SCmp { (40, 38) } else { (36, 34) };
            let lt = en.icmp(lp, w, &v[0], &v[1]);
            let gt = en.icmp(gp, w, &v[0], &v[1]);
            let one = en.mkc(tw, 1);
            let m1 = en.mkc(tw, u128::MAX);
            let z = en.mkc(tw, 0);
            let (l, g) = (en.ex(&lt, 1), en.ex(&gt, 1));
            let r = en.ite_val(g, &one, &z, tw);
            Ok(en.ite_val(l, &m1, &r, tw))
        })?),
        Intr::SatAdd(s) | Intr::SatSub(s) => Some(lanes(en, st, &mut |en, v| {
            let add = matches!(k, Intr::SatAdd(_));
            if let (Some(x), Some(y)) = (Eng::cv(&v[0]), Eng::cv(&v[1])) {
                if tw > 64 { return bad("sat wide") }
                let (lo, hi) = if s { (-(1i128 << (tw - 1)), (1i128 << (tw - 1)) - 1) } else { (0, (1i128 << tw) - 1) };
                let (x, y) = if s { (sx(x, tw), sx(y, tw)) } else { (x as i128, y as i128) };
                let r = if add { x + y } else { x - y }.clamp(lo, hi);
                return Ok(en.mkc(tw, r as u128));
            }
            if s { return bad("symbolic signed saturation") }
            let r = en.bin(if add { Op::Add } else { Op::Sub }, tw, &v[0], &v[1]);
            let c = if add { en.bin(Op::Ult, tw, &r, &v[0]) } else { en.bin(Op::Ult, tw, &v[0], &v[1]) };
            let lim = en.mkc(tw, if add { u128::MAX } else { 0 });
            let ce = en.ex(&c, 1);
            Ok(en.ite_val(ce, &lim, &r, tw))
        })?),
        Intr::Ovf(op, signed) => {
            let (a, b) = (en.arg(st, args[0]), en.arg(st, args[1]));
            let o = [Op::Add, Op::Sub, Op::Mul][op as usize];
            let r = en.bin(o, w, &a, &b);
            let f = if let (Some(x), Some(y)) = (Eng::cv(&a), Eng::cv(&b)) {
                let ov = if signed {
                    let (x, y) = (sx(x, w), sx(y, w));
                    match op { 0 => x.checked_add(y), 1 => x.checked_sub(y), _ => x.checked_mul(y) }.map_or(true, |z| sx(z as u128 & mask(w), w) != z)
                } else { match op { 0 => x.checked_add(y), 1 => x.checked_sub(y), _ => x.checked_mul(y) }.map_or(true, |z| z & mask(w) != z) };
                Val::C(ov as u64)
            } else {
                match (op, signed) {
                    (0, false) => en.bin(Op::Ult, w, &r, &a),
                    (1, false) => en.bin(Op::Ult, w, &a, &b),
                    _ if w <= 64 => {
                        let x = |en: &Eng, v: &Val| if signed { en.sext_val(v, w, 2 * w) } else { en.zext_val(v, 2 * w) };
                        let (x2, y2) = (x(en, &a), x(en, &b));
                        let z = en.bin(o, 2 * w, &x2, &y2);
                        let rr = x(en, &r);
                        let e = en.bin(Op::Eq, 2 * w, &z, &rr);
                        en.bin(Op::Xor, 1, &e, &Val::C(1))
                    }
                    _ => return bad("wide symbolic overflow"),
                }
            };
            Some(Val::A(Rc::new(vec![r, f])))
        }
        Intr::Ctlz | Intr::Cttz | Intr::Ctpop => Some(lanes(en, st, &mut |en, v| {
            match &v[0] {
                Val::E(e) => {
                    let e = *e;
                    if let Some((var, t)) = ar().tab_of(e) {
                        let t = Box::new(*t);
                        let mut o = Box::new([0u64; 256]);
                        for i in 0..256 { let x = t[i]; o[i] = match k { Intr::Ctpop => x.count_ones() as u64, Intr::Cttz => if x == 0 { tw as u64 } else { x.trailing_zeros() as u64 }, _ => if x == 0 { tw as u64 } else { x.leading_zeros() as u64 - (64 - tw as u64) } } }
                        let r = ar().mk_tab(var, tw, o);
                        return Ok(en.from_e(r));
                    }
                    // bit scan as an ite chain
                    let mut acc = ar().c(tw, if k == Intr::Ctpop { 0 } else { tw as u128 });
                    match k {
                        Intr::Cttz => for i in (0..tw).rev() { let b = ar().extract(e, i, 1); let c = ar().c(tw, i as u128); acc = ar().ite(b, c, acc) },
                        Intr::Ctlz => for i in 0..tw { let b = ar().extract(e, i, 1); let c = ar().c(tw, (tw - 1 - i) as u128); acc = ar().ite(b, c, acc) },
                        _ => for i in 0..tw { let b = ar().extract(e, i, 1); let z = ar().zext(b, tw); acc = ar().bin(Op::Add, acc, z) },
                    }
                    Ok(en.from_e(acc))
                }
                x => {
                    let x = Eng::cv(x).unwrap();
                    let r = match k { Intr::Ctpop => x.count_ones(), Intr::Cttz => if x == 0 { tw as u32 } else { x.trailing_zeros() }, _ => if x == 0 { tw as u32 } else { x.leading_zeros() - (128 - tw as u32) } };
                    Ok(en.mkc(tw, r as u128))
                }
            }
        })?),
        Intr::Bswap => Some(lanes(en, st, &mut |en, v| Ok(match &v[0] {
            Val::E(e) => { let mut acc = ar().extract(*e, 0, 8); for i in 1..tw / 8 { let b = ar().extract(*e, 8 * i, 8); acc = ar().concat(acc, b) } en.from_e(acc) }
            x => { let x = Eng::cv(x).unwrap(); en.mkc(tw, x.swap_bytes() >> (128 - tw)) }
        }))?),
        Intr::BitRev => Some(lanes(en, st, &mut |en, v| { let Some(x) = Eng::cv(&v[0]) else { return bad("symbolic bitreverse") }; Ok(en.mkc(tw, x.reverse_bits() >> (128 - tw))) })?),
        Intr::Abs => Some(lanes(en, st, &mut |en, v| { let z = en.mkc(tw, 0); let n = en.bin(Op::Sub, tw, &z, &v[0]); let c = en.icmp(40, tw, &v[0], &z); let ce = en.ex(&c, 1); Ok(en.ite_val(ce, &n, &v[0], tw)) })?),
        Intr::Fshl | Intr::Fshr => Some(lanes(en, st, &mut |en, v| {
            let Some(s) = Eng::cv(&v[2]) else { return bad("symbolic funnel shift") };
            let s = s % tw as u128;
            let s = if k == Intr::Fshl { s } else { (tw as u128 - s) % tw as u128 };
            if s == 0 { return Ok(if k == Intr::Fshl { v[0].clone() } else { v[1].clone() }) }
            let (a, b) = (en.mkc(tw, s), en.mkc(tw, tw as u128 - s));
            let h = en.bin(Op::Shl, tw, &v[0], &a);
            let l = en.bin(Op::LShr, tw, &v[1], &b);
            Ok(en.bin(Op::Or, tw, &h, &l))
        })?),
        Intr::FAbs => { let Val::C(x) = en.arg(st, args[0]) else { return bad("float") }; Some(Val::C(x & !(1 << (tw - 1)))) }
        Intr::FTrunc | Intr::FFloor | Intr::FCeil => { let Val::C(x) = en.arg(st, args[0]) else { return bad("float") }; if tw != 64 { return bad("f32") } let f = f64::from_bits(x); Some(Val::C(match k { Intr::FTrunc => f.trunc(), Intr::FFloor => f.floor(), _ => f.ceil() }.to_bits())) }
        Intr::ReduceOr | Intr::ReduceAnd | Intr::ReduceAdd => {
            let Val::A(x) = en.arg(st, args[0]) else { return bad("reduce") };
            let op = match k { Intr::ReduceOr => Op::Or, Intr::ReduceAnd => Op::And, _ => Op::Add };
            let mut acc = x[0].clone();
            for y in &x[1..] { acc = en.bin(op, tw, &acc, y) }
            Some(acc)
        }
        Intr::Ptrmask => { let (a, b) = (en.arg(st, args[0]), en.arg(st, args[1])); Some(en.bin(Op::And, 64, &a, &b)) }
        _ => return bad(format!("unsupported intrinsic {}", nm)),
    };
    en.finish_call(st, r);
    Ok(())
}
