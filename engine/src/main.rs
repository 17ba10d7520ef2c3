#![allow(static_mut_refs)]
mod builtin; mod exec; mod expr; mod hash; mod llvm; mod load; mod mem; mod solver;
use exec::*;
use expr::*;
use load::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::rc::Rc;
extern "C" { fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; fn _exit(c: i32) -> !; fn alarm(s: u32) -> u32; fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32; }

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 0x20 || c as u32 > 0x7e => { let _ = write!(o, "\\u{:04x}", c as u32 & 0xffff); } c => o.push(c) } } o.push('"'); o }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

fn main() {
    let mut libs = vec![]; let mut entry = String::new(); let mut out = String::from("-"); let mut jobs = 8usize; let mut secs = 600u64; let mut max_steps = 200_000_000u64; let mut wit = 24usize; let mut q_ms = 30000u32;
    let mut focus: Vec<String> = vec![];
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        match x.as_str() {
            "--entry" => entry = a.next().unwrap(), "--out" => out = a.next().unwrap(), "--jobs" => jobs = a.next().unwrap().parse().unwrap(), "--secs" => secs = a.next().unwrap().parse().unwrap(),
            "--max-steps" => max_steps = a.next().unwrap().parse().unwrap(), "--witnesses" => wit = a.next().unwrap().parse().unwrap(), 
            "--query-ms" => q_ms = a.next().unwrap().parse().unwrap(), "--focus" => focus.push(a.next().unwrap()),
            f if f.starts_with('@') => libs.extend(std::fs::read_to_string(&f[1..]).unwrap().lines().map(|s| s.to_string())),
            f => libs.push(f.into()),
        }
    }
    let t0 = std::time::Instant::now();
    unsafe { alarm(secs as u32 + 40); }
    let mut p = Prog::new();
    for l in &libs { p.add_file(l) }
    let load_ms = t0.elapsed().as_millis();
    let mut en = Eng { p, sv: solver::Solver::new(q_ms), work: vec![], rep: Report::default(), nvars: 0, max_steps, max_wit: wit, max_cert: 400, fork_at: Default::default(), trace: std::env::var("VSYM_TRACE").is_ok(),
        prof: if std::env::var("VSYM_PROF").is_ok() { Some(Default::default()) } else { None }, deadline: t0 + std::time::Duration::from_secs(secs),
        share: Share { page: std::ptr::null_mut(), jobs: 1, last: t0, abandon: false, id: 0, secs, q_ms } };
    let Some(f) = en.p.func_named(&entry) else { eprintln!("vsym: no function {}", entry); std::process::exit(3) };
    let mut st = State { frames: vec![], mem: Default::default(), heap: HEAP, sp: STACK, dom: Default::default(), multi: Default::default(), model: Default::default(), hashes: Default::default(), hconc: Default::default(), hsym: Default::default(), inputs: Default::default(), choices: Default::default(), notes: Default::default(), known: Default::default(), steps: 0, forks: 0, rng: 0x1234_5678_9abc_def1, asserts: 0, free: Default::default() };
    let _ = en.push_frame(&mut st, f, &[]);
    let dir = format!("/tmp/vsym.{}", std::process::id());
    let mut parts = vec![];
    if jobs < 2 {
        en.run(st);
        while let Some(s) = en.work.pop() { en.run(s) }
        parts.push(serialize(&en, &focus));
    } else {
        std::fs::create_dir_all(&dir).unwrap();
        unsafe { prctl(36, 1, 0, 0, 0); }
        let page = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut std::sync::atomic::AtomicUsize };
        use std::sync::atomic::Ordering::SeqCst;
        unsafe { (*page).store(1, SeqCst); (*page.add(1)).store(1, SeqCst); }
        en.share.page = page;
        en.max_wit = (wit / jobs).max(1);
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe { alarm(secs as u32 + 20); }
            en.share.jobs = jobs;
            en.sv.renew(q_ms);
            en.run(st);
            while let Some(s) = en.work.pop() { en.run(s) }
            std::fs::write(format!("{}/{}", dir, en.share.id), serialize(&en, &focus)).unwrap();
            unsafe { (*page).fetch_sub(1, SeqCst); _exit(0) }
        }
        loop {
            let mut s = 0;
            let p = unsafe { waitpid(-1, &mut s, 0) };
            if p < 0 { break }
            if s != 0 { parts.push("{\"incomplete\":{\"worker process died\":1}}".into()) }
        }
        let n = unsafe { (*page.add(1)).load(SeqCst) };
        for j in 0..n { match std::fs::read_to_string(format!("{}/{}", dir, j)) { Ok(t) => parts.push(t), Err(_) => parts.push("{\"incomplete\":{\"worker left no result\":1}}".into()) } }
        let _ = std::fs::remove_dir_all(&dir);
    }
    let r = format!("{{\"entry\":{},\"load_ms\":{},\"wall_ms\":{},\"parts\":[{}]}}\n", js(&entry), load_ms, t0.elapsed().as_millis(), parts.join(",\n"));
    if out == "-" { print!("{}", r) } else { std::fs::write(&out, r).unwrap() }
}
fn mapj<V: std::fmt::Display>(m: &BTreeMap<String, V>) -> String { format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")) }
fn inj(v: &[(String, Vec<u8>)]) -> String { format!("[{}]", v.iter().map(|(k, b)| format!("[{},\"{}\"]", js(k), hex(b))).collect::<Vec<_>>().join(",")) }
fn chj(v: &[(String, u32)]) -> String { format!("[{}]", v.iter().map(|(k, b)| format!("[{},{}]", js(k), b)).collect::<Vec<_>>().join(",")) }
fn serialize(en: &Eng, focus: &[String]) -> String {
    let r = &en.rep;
    let mut o = String::new();
    let s = &en.sv.st;
    let _ = write!(o, "{{\"paths\":{},\"steps\":{},\"max_steps\":{},\"asserts\":{},\"asserts_sym\":{},\"ends\":{},\"reached\":{},\"assert_ids\":{},\"incomplete\":{},\"viol_count\":{},", r.paths, r.steps, r.max_steps, r.asserts, r.asserts_sym, mapj(&r.ends), mapj(&r.reached), mapj(&r.assert_ids), mapj(&r.incomplete), mapj(&r.viol_count));
    let _ = write!(o, "\"queries\":{},\"cached\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_us\":{},\"solver_max_us\":{},\"unary\":{},\"by_model\":{},\"exprs\":{},\"modules\":{},\"load_ms\":{},", s.queries, s.cached, s.sat, s.unsat, s.unknown, s.us, s.max_us, s.unary, s.by_model, ar().nodes.len(), en.p.modules.len(), en.p.load_ms);
    let _ = write!(o, "\"violations\":[{}],", r.viol.iter().map(|v| format!("{{\"id\":{},\"detail\":{},\"inputs\":{},\"choices\":{},\"known\":[{}],\"stack\":[{}]}}", js(&v.id), js(&v.detail), inj(&v.inputs), chj(&v.choices), v.known.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), v.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"witnesses\":[{}],", r.witnesses.iter().map(|v| format!("{{\"end\":{},\"hashed\":{},\"inputs\":{},\"choices\":{},\"notes\":{}}}", js(&v.end), v.hashed, inj(&v.inputs), chj(&v.choices), inj(&v.notes))).collect::<Vec<_>>().join(","));
    let mut fk: Vec<_> = en.fork_at.iter().collect();
    fk.sort_by_key(|x| std::cmp::Reverse(*x.1));
    let _ = write!(o, "\"forks\":[{}],", fk.iter().take(60).map(|((f, pc), n)| format!("[{},{}]", js(&format!("{}@{}", f, pc)), n)).collect::<Vec<_>>().join(","));
    if let Some(p) = &en.prof { let mut v: Vec<_> = p.iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(*x.1)); let _ = write!(o, "\"prof\":[{}],", v.iter().take(50).map(|(f, n)| format!("[{},{}]", js(f), n)).collect::<Vec<_>>().join(",")); }
    let mut fs: Vec<&Rc<str>> = en.p.funcs.iter().filter(|f| f.entered && focus.iter().any(|x| f.name.contains(x.as_str()))).map(|f| &f.name).collect();
    fs.sort();
    let _ = write!(o, "\"functions_total\":{},\"functions\":[{}]}}", en.p.funcs.iter().filter(|f| f.entered).count(), fs.iter().map(|f| js(f)).collect::<Vec<_>>().join(","));
    o
}
#[allow(dead_code)] fn unused(_: &Map<u32, u32>, _: Val) {}
