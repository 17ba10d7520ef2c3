//! Hash-consed bit-vector expressions over 8-bit symbolic input variables.
//!
//! Any expression of width <= 64 that depends on exactly one input byte is kept in the canonical
//! form `Tab(var, table)` where `table[b]` is its value for input byte value `b`; this is an exact
//! normal form.  Everything else is an ordinary bit-vector DAG.
use std::collections::HashMap;
pub type E = u32;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Tab, Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, SExt,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: u32, pub b: u32, pub c: u32, pub k: u128 }

struct FxH(u64);
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95) }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
}
#[derive(Clone, Default)]
pub struct Fx;
impl std::hash::BuildHasher for Fx { type Hasher = FxHasher; fn build_hasher(&self) -> FxHasher { FxHasher(FxH(0)) } }
pub struct FxHasher(FxH);
impl std::hash::Hasher for FxHasher {
    fn finish(&self) -> u64 { let h = (self.0).0; h ^ (h >> 29) }
    fn write(&mut self, b: &[u8]) {
        let mut ch = b.chunks_exact(8);
        for c in &mut ch { self.0.write_u64(u64::from_le_bytes(c.try_into().unwrap())) }
        self.0.write(ch.remainder())
    }
    fn write_u8(&mut self, x: u8) { self.0.write_u8(x) }
    fn write_u16(&mut self, x: u16) { self.0.write_u16(x) }
    fn write_u32(&mut self, x: u32) { self.0.write_u32(x) }
    fn write_u64(&mut self, x: u64) { self.0.write_u64(x) }
    fn write_u128(&mut self, x: u128) { self.0.write_u128(x) }
    fn write_usize(&mut self, x: usize) { self.0.write_usize(x) }
}
use std::hash::Hasher;
pub type Map<K, V> = HashMap<K, V, Fx>;
pub type Set<K> = std::collections::HashSet<K, Fx>;

pub struct Arena {
    pub nodes: Vec<Node>,
    intern: Map<Node, E>,
    pub tabs: Vec<Box<[u64; 256]>>,
    tab_intern: Map<u64, Vec<u32>>,
    memo: Map<(Op, u16, u32, u32, u32), E>,
    vars: Map<E, std::rc::Rc<Vec<u32>>>,
    ev_gen: Vec<u32>, ev_val: Vec<u128>, gen: u32,
    ident: u32,
    inj: Map<(u32, u32, u32, u32), bool>,
}
static mut ARENA: Option<Arena> = None;
#[allow(static_mut_refs)]
pub fn ar() -> &'static mut Arena { unsafe { ARENA.get_or_insert_with(Arena::new) } }

pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u16) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

pub fn fold(op: Op, w: u16, a: u128, b: u128) -> Option<u128> {
    // w: operand width
    let m = mask(w);
    Some(match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { return None } else { a / b },
        Op::URem => if b == 0 { return None } else { a % b },
        Op::SDiv => if b == 0 { return None } else { sx(a, w).wrapping_div(sx(b, w)) as u128 & m },
        Op::SRem => if b == 0 { return None } else { sx(a, w).wrapping_rem(sx(b, w)) as u128 & m },
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => (sx(a, w) >> b.min(w as u128 - 1).min(127)) as u128 & m,
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, w) < sx(b, w)) as u128,
        Op::Sle => (sx(a, w) <= sx(b, w)) as u128,
        _ => unreachable!(),
    })
}
pub fn is_cmp(op: Op) -> bool { matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) }

impl Arena {
    fn new() -> Arena {
        let mut a = Arena { nodes: vec![], intern: Default::default(), tabs: vec![], tab_intern: Default::default(),
            memo: Default::default(), vars: Default::default(), ev_gen: vec![], ev_val: vec![], gen: 0, ident: 0, inj: Default::default() };
        // index 0 is reserved (means "concrete byte" in memory overlays)
        a.nodes.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: u128::MAX });
        let mut t = Box::new([0u64; 256]);
        for i in 0..256 { t[i] = i as u64 }
        a.ident = a.tab(t);
        a
    }
    #[inline] pub fn n(&self, e: E) -> Node { self.nodes[e as usize] }
    #[inline] pub fn w(&self, e: E) -> u16 { self.nodes[e as usize].w }
    fn int(&mut self, n: Node) -> E {
        if let Some(&e) = self.intern.get(&n) { return e }
        let e = self.nodes.len() as u32;
        self.nodes.push(n);
        self.intern.insert(n, e);
        e
    }
    fn tab(&mut self, t: Box<[u64; 256]>) -> u32 {
        let mut h = FxHasher(FxH(0));
        for x in t.iter() { h.write_u64(*x) }
        let h = h.finish();
        if let Some(v) = self.tab_intern.get(&h) { for &i in v { if self.tabs[i as usize] == t { return i } } }
        let i = self.tabs.len() as u32;
        self.tabs.push(t);
        self.tab_intern.entry(h).or_default().push(i);
        i
    }
    pub fn c(&mut self, w: u16, k: u128) -> E { self.int(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) }) }
    pub fn var(&mut self, v: u32) -> E { let t = self.ident; self.int(Node { op: Op::Tab, w: 8, a: v, b: t, c: 0, k: 0 }) }
    pub fn mk_tab(&mut self, v: u32, w: u16, t: Box<[u64; 256]>) -> E {
        if t.iter().all(|x| *x == t[0]) { return self.c(w, t[0] as u128) }
        let i = self.tab(t);
        self.int(Node { op: Op::Tab, w, a: v, b: i, c: 0, k: 0 })
    }
    pub fn konst(&self, e: E) -> Option<u128> { let n = self.n(e); if n.op == Op::Const { Some(n.k) } else { None } }
    /// (var, ok) when the node is a const or a table
    fn unary(&self, e: E) -> Option<Option<u32>> {
        let n = self.n(e);
        match n.op { Op::Const if n.w <= 64 => Some(None), Op::Tab => Some(Some(n.a)), _ => None }
    }
    fn val(&self, e: E, i: usize) -> u64 { let n = self.n(e); if n.op == Op::Const { n.k as u64 } else { self.tabs[n.b as usize][i] } }
    fn same_unary(&self, es: &[E]) -> Option<u32> {
        let mut v = None;
        for &e in es {
            match self.unary(e) { None => return None, Some(None) => {}, Some(Some(x)) => match v { None => v = Some(x), Some(y) if y == x => {}, _ => return None } }
        }
        v
    }
    pub fn not(&mut self, e: E) -> E { let one = self.c(1, 1); self.bin(Op::Xor, e, one) }
    /// Conjunction of byte equalities. Two consecutive ones that compare the hexadecimal digits (or
    /// other jointly injective functions) of the same two variables become one equality of the variables.
    pub fn eq_all(&mut self, p: &[(E, E)]) -> E {
        let mut r = self.c(1, 1);
        let mut i = p.len();
        while i > 0 {
            let (x, y) = p[i - 1];
            let mut e = None;
            if i >= 2 { e = self.joint(p[i - 2], p[i - 1]); }
            match e { Some(_) => i -= 2, None => i -= 1 }
            let e = match e { Some(e) => e, None => self.bin(Op::Eq, x, y) };
            r = self.bin(Op::And, e, r);
            if self.konst(r) == Some(0) { break }
        }
        r
    }
    fn joint(&mut self, p: (E, E), q: (E, E)) -> Option<E> {
        let (a, b, c, d) = (self.n(p.0), self.n(p.1), self.n(q.0), self.n(q.1));
        for n in [&a, &b, &c, &d] { if n.op != Op::Tab { return None } }
        if a.a != c.a || b.a != d.a || a.a == b.a { return None }
        let key = (a.b, b.b, c.b, d.b);
        let ok = match self.inj.get(&key) { Some(x) => *x, None => {
            let t = [a.b, b.b, c.b, d.b].map(|t| self.tabs[t as usize].clone());
            let ok = (0..256usize).all(|x| (0..256usize).all(|y| (t[0][x] == t[1][y] && t[2][x] == t[3][y]) == (x == y)));
            self.inj.insert(key, ok); ok } };
        if !ok { return None }
        let (x, y) = (self.var(a.a), self.var(b.a));
        Some(self.bin(Op::Eq, x, y))
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let rw = if is_cmp(op) { 1 } else { w };
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) {
            return match fold(op, w, x, y) { Some(k) => self.c(rw, k), None => self.c(rw, 0) };
        }
        let key = (op, rw, a, b, 0);
        if let Some(&e) = self.memo.get(&key) { return e }
        let r = self.bin0(op, w, rw, a, b);
        self.memo.insert(key, r);
        r
    }
    fn bin0(&mut self, op: Op, w: u16, rw: u16, a: E, b: E) -> E {
        if rw <= 64 && w <= 64 {
            if let Some(v) = self.same_unary(&[a, b]) {
                let mut t = Box::new([0u64; 256]);
                for i in 0..256 { t[i] = fold(op, w, self.val(a, i) as u128, self.val(b, i) as u128).unwrap_or(0) as u64 }
                return self.mk_tab(v, rw, t);
            }
        }
        let (ka, kb) = (self.konst(a), self.konst(b));
        let (na, nb) = (self.n(a), self.n(b));
        let m = mask(w);
        match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq if ka.is_some() => return self.bin(op, b, a),
            _ => {}
        }
        match op {
            Op::Add => {
                if kb == Some(0) { return a }
                if let Some(k) = kb { if na.op == Op::Add { if let Some(k2) = self.konst(na.b) { let c = self.c(w, k.wrapping_add(k2)); return self.bin(Op::Add, na.a, c) } } }
                if na.op == Op::Ite { if kb.is_some() && self.konst(na.b).is_some() && self.konst(na.c).is_some() { return self.ite_push(op, a, b) } }
            }
            Op::Sub => {
                if let Some(k) = kb { let c = self.c(w, (0u128).wrapping_sub(k)); return self.bin(Op::Add, a, c) }
                if a == b { return self.c(w, 0) }
            }
            Op::Mul => {
                if kb == Some(0) { return b }
                if kb == Some(1) { return a }
                if let Some(k) = kb { if k.is_power_of_two() { let c = self.c(w, k.trailing_zeros() as u128); return self.bin(Op::Shl, a, c) } }
            }
            Op::UDiv => {
                if kb == Some(1) { return a }
                if let Some(k) = kb { if k.is_power_of_two() { let c = self.c(w, k.trailing_zeros() as u128); return self.bin(Op::LShr, a, c) } }
            }
            Op::URem => {
                if let Some(k) = kb { if k.is_power_of_two() { let c = self.c(w, k - 1); return self.bin(Op::And, a, c) } }
            }
            Op::Shl => if let Some(k) = kb {
                if k == 0 { return a }
                if k >= w as u128 { return self.c(w, 0) }
                let lo = self.extract(a, 0, w - k as u16);
                let z = self.c(k as u16, 0);
                return self.concat(lo, z);
            },
            Op::LShr => if let Some(k) = kb {
                if k == 0 { return a }
                if k >= w as u128 { return self.c(w, 0) }
                let hi = self.extract(a, k as u16, w - k as u16);
                return self.zext(hi, w);
            },
            Op::AShr => if let Some(k) = kb {
                if k == 0 { return a }
                if na.op == Op::Concat && self.konst(na.a).map_or(false, |h| sx(h, self.w(na.a)) >= 0) { return self.bin(Op::LShr, a, b) }
            },
            Op::And | Op::Or | Op::Xor => {
                if a == b { return if op == Op::Xor { self.c(w, 0) } else { a } }
                if let Some(k) = kb {
                    match op {
                        Op::And => { if k == 0 { return b } if k == m { return a } }
                        Op::Or => { if k == 0 { return a } if k == m { return b } }
                        _ => { if k == 0 { return a }
                            if w == 1 { // not
                                if na.op == Op::Xor && self.konst(na.b) == Some(1) { return na.a }
                            }
                        }
                    }
                }
                if w == 1 {
                    let nota = self.is_not(a, b);
                    if nota { return match op { Op::And => self.c(1, 0), _ => self.c(1, 1) } }
                }
                // split concatenations
                if w > 1 {
                    let split = if na.op == Op::Concat { Some(self.w(na.b)) } else if nb.op == Op::Concat { Some(self.w(nb.b)) } else { None };
                    if let Some(lw) = split {
                        if self.splittable(a, lw) && self.splittable(b, lw) {
                            let (al, bl) = (self.extract(a, 0, lw), self.extract(b, 0, lw));
                            let (ah, bh) = (self.extract(a, lw, w - lw), self.extract(b, lw, w - lw));
                            let l = self.bin(op, al, bl);
                            let h = self.bin(op, ah, bh);
                            return self.concat(h, l);
                        }
                    }
                    // masks of the form 0..01..1 and shifted: turn into extracts
                    if op == Op::And { if let Some(k) = kb {
                        let tz = k.trailing_zeros() as u16;
                        let run = (k >> tz).trailing_ones() as u16;
                        if (k >> tz) == mask(run) && na.op != Op::Tab && (tz > 0 || run < w) {
                            let mid = self.extract(a, tz, run);
                            let mid = if tz > 0 { let z = self.c(tz, 0); self.concat(mid, z) } else { mid };
                            return self.zext(mid, w);
                        }
                    } }
                }
            }
            Op::Eq => {
                if a == b { return self.c(1, 1) }
                if w == 1 { if let Some(k) = kb { return if k == 1 { a } else { self.not(a) } } }
                let split = if na.op == Op::Concat { Some(self.w(na.b)) } else if nb.op == Op::Concat { Some(self.w(nb.b)) } else { None };
                if let Some(lw) = split {
                    if self.splittable(a, lw) && self.splittable(b, lw) {
                        let (al, bl) = (self.extract(a, 0, lw), self.extract(b, 0, lw));
                        let l = self.bin(Op::Eq, al, bl);
                        if self.konst(l) == Some(0) { return l }
                        let (ah, bh) = (self.extract(a, lw, w - lw), self.extract(b, lw, w - lw));
                        let h = self.bin(Op::Eq, ah, bh);
                        return self.bin(Op::And, h, l);
                    }
                }
                if kb.is_some() && na.op == Op::Ite && (self.konst(na.b).is_some() || self.konst(na.c).is_some()) { return self.ite_push(op, a, b) }
                if kb.is_some() && na.op == Op::Add && self.konst(na.b).is_some() {
                    let c = self.bin(Op::Sub, b, na.b); return self.bin(Op::Eq, na.a, c)
                }
                if kb.is_some() && na.op == Op::SExt {
                    let iw = self.w(na.a); let k = kb.unwrap();
                    let low = k & mask(iw);
                    if sx(low, iw) as u128 & m == k { let c = self.c(iw, low); return self.bin(Op::Eq, na.a, c) } else { return self.c(1, 0) }
                }
            }
            Op::Ult | Op::Ule => {
                if a == b { return self.c(1, (op == Op::Ule) as u128) }
                if op == Op::Ult && kb == Some(0) { return self.c(1, 0) }
                if op == Op::Ule && ka == Some(0) { return self.c(1, 1) }
                if op == Op::Ule && kb == Some(m) { return self.c(1, 1) }
                if op == Op::Ult && kb == Some(1) { let z = self.c(w, 0); return self.bin(Op::Eq, a, z) }
                if op == Op::Ult && ka == Some(0) { let e = self.bin(Op::Eq, b, a); return self.not(e) }
                // both zero extended
                let za = self.zext_inner(a); let zb = self.zext_inner(b);
                if let (Some((xa, wa)), Some((xb, wb))) = (za, zb) {
                    let nw = wa.max(wb);
                    if nw < w {
                        let (xa, xb) = (self.narrow(xa, nw, w), self.narrow(xb, nw, w));
                        return self.bin(op, xa, xb);
                    }
                }
                if kb.is_some() && na.op == Op::Ite && self.konst(na.b).is_some() && self.konst(na.c).is_some() { return self.ite_push(op, a, b) }
            }
            Op::Slt | Op::Sle => {
                if a == b { return self.c(1, (op == Op::Sle) as u128) }
                let za = self.zext_inner(a); let zb = self.zext_inner(b);
                if let (Some((_, wa)), Some((_, wb))) = (za, zb) {
                    if wa < w && wb < w { return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b) }
                }
                if kb.is_some() && na.op == Op::Ite && self.konst(na.b).is_some() && self.konst(na.c).is_some() { return self.ite_push(op, a, b) }
            }
            _ => {}
        }
        self.int(Node { op, w: rw, a, b, c: 0, k: 0 })
    }
    fn is_not(&self, a: E, b: E) -> bool {
        let (na, nb) = (self.n(a), self.n(b));
        (na.op == Op::Xor && na.a == b && self.konst(na.b) == Some(1)) || (nb.op == Op::Xor && nb.a == a && self.konst(nb.b) == Some(1))
    }
    fn narrow(&mut self, e: E, nw: u16, _w: u16) -> E { self.extract(e, 0, nw) }
    /// e is known to be zero above `width`; returns (e, width)
    fn zext_inner(&self, e: E) -> Option<(E, u16)> {
        let n = self.n(e);
        match n.op {
            Op::Const => Some((e, 128 - n.k.leading_zeros() as u16)),
            Op::Concat if self.konst(n.a) == Some(0) => Some((e, self.w(n.b))),
            Op::Tab => { let mx = self.tabs[n.b as usize].iter().fold(0, |a, b| a | *b); Some((e, 64 - mx.leading_zeros() as u16)) }
            _ => None,
        }
    }
    fn splittable(&self, e: E, lw: u16) -> bool {
        let n = self.n(e);
        match n.op { Op::Const | Op::Tab => true, Op::Concat => { let l = self.w(n.b); if l == lw { true } else if l < lw { self.splittable(n.a, lw - l) } else { self.splittable(n.b, lw) } }, _ => false }
    }
    fn ite_push(&mut self, op: Op, a: E, b: E) -> E {
        let n = self.n(a);
        let t = self.bin(op, n.b, b);
        let f = self.bin(op, n.c, b);
        self.ite(n.a, t, f)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.konst(c) { return if k == 1 { a } else { b } }
        if a == b { return a }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let key = (Op::Ite, w, c, a, b);
        if let Some(&e) = self.memo.get(&key) { return e }
        let r = (|| {
            if w <= 64 { if let Some(v) = self.same_unary(&[c, a, b]) {
                let mut t = Box::new([0u64; 256]);
                for i in 0..256 { t[i] = if self.val(c, i) == 1 { self.val(a, i) } else { self.val(b, i) } }
                return self.mk_tab(v, w, t);
            } }
            if w == 1 {
                match (self.konst(a), self.konst(b)) {
                    (Some(1), Some(0)) => return c,
                    (Some(0), Some(1)) => return self.not(c),
                    (Some(1), None) => return self.bin(Op::Or, c, b),
                    (Some(0), None) => { let nc = self.not(c); return self.bin(Op::And, nc, b) }
                    (None, Some(0)) => return self.bin(Op::And, c, a),
                    (None, Some(1)) => { let nc = self.not(c); return self.bin(Op::Or, nc, a) }
                    _ => {}
                }
            }
            let nc = self.n(c);
            if nc.op == Op::Xor && self.konst(nc.b) == Some(1) { return self.ite(nc.a, b, a) }
            // nested with same condition
            let (na, nb) = (self.n(a), self.n(b));
            if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b) }
            if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c) }
            self.int(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
        })();
        self.memo.insert(key, r);
        r
    }
    /// hi:lo
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        if let (Some(a), Some(b)) = (self.konst(h), self.konst(l)) { if w <= 128 { return self.c(w, (a << wl) | b) } }
        let key = (Op::Concat, w, h, l, 0);
        if let Some(&e) = self.memo.get(&key) { return e }
        let r = (|| {
            if w <= 64 { if let Some(v) = self.same_unary(&[h, l]) {
                let mut t = Box::new([0u64; 256]);
                for i in 0..256 { t[i] = (self.val(h, i) << wl) | self.val(l, i) }
                return self.mk_tab(v, w, t);
            } }
            let (nh, nl) = (self.n(h), self.n(l));
            // adjacent extracts
            if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + wl as u32 {
                return self.extract(nh.a, nl.b as u16, w);
            }
            if nh.op == Op::Extract && nh.b == wl as u32 && nh.a == l { /* cannot happen: widths */ }
            // extract adjacent to whole low part: Concat(Extract(x, wl..), Extract(x,0..wl))
            if nl.op == Op::Concat {
                // Concat(h, Concat(lh, ll)): try merging h with lh
                let lh = nl.a;
                let nlh = self.n(lh);
                let mergeable = (nh.op == Op::Extract && nlh.op == Op::Extract && nh.a == nlh.a && nh.b == nlh.b + self.w(lh) as u32)
                    || (nh.op == Op::Const && nlh.op == Op::Const && wh + self.w(lh) <= 128)
                    || (wh + self.w(lh) <= 64 && self.same_unary(&[h, lh]).is_some());
                if mergeable { let hh = self.concat(h, lh); return self.concat(hh, nl.b) }
            }
            if nh.op == Op::Concat {
                // normalise to right-nested: (a:b):l -> a:(b:l)
                let inner = self.concat(nh.b, l);
                return self.concat(nh.a, inner);
            }
            self.int(Node { op: Op::Concat, w, a: h, b: l, c: 0, k: 0 })
        })();
        self.memo.insert(key, r);
        r
    }
    pub fn zext(&mut self, e: E, w: u16) -> E { let ew = self.w(e); if ew == w { return e } let z = self.c(w - ew, 0); self.concat(z, e) }
    pub fn sext(&mut self, e: E, w: u16) -> E {
        let ew = self.w(e);
        if ew == w { return e }
        if let Some(k) = self.konst(e) { return self.c(w, sx(k, ew) as u128) }
        if w <= 64 { if let Some(Some(v)) = self.unary(e) {
            let mut t = Box::new([0u64; 256]);
            for i in 0..256 { t[i] = (sx(self.val(e, i) as u128, ew) as u128 & mask(w)) as u64 }
            return self.mk_tab(v, w, t);
        } }
        if ew == 1 { let a = self.c(w, mask(w)); let b = self.c(w, 0); return self.ite(e, a, b) }
        let n = self.n(e);
        if n.op == Op::Concat { if let Some(k) = self.konst(n.a) { if sx(k, self.w(n.a)) >= 0 { return self.zext(e, w) } } }
        self.int(Node { op: Op::SExt, w, a: e, b: 0, c: 0, k: 0 })
    }
    pub fn extract(&mut self, e: E, lo: u16, w: u16) -> E {
        let ew = self.w(e);
        debug_assert!(lo + w <= ew && w > 0);
        if lo == 0 && w == ew { return e }
        if let Some(k) = self.konst(e) { return self.c(w, k >> lo) }
        let key = (Op::Extract, w, e, lo as u32, 0);
        if let Some(&r) = self.memo.get(&key) { return r }
        let n = self.n(e);
        let r = (|| {
            match n.op {
                Op::Tab => {
                    let mut t = Box::new([0u64; 256]);
                    for i in 0..256 { t[i] = ((self.val(e, i) >> lo) as u128 & mask(w)) as u64 }
                    return self.mk_tab(n.a, w, t);
                }
                Op::Concat => {
                    let wl = self.w(n.b);
                    if lo >= wl { return self.extract(n.a, lo - wl, w) }
                    if lo + w <= wl { return self.extract(n.b, lo, w) }
                    let h = self.extract(n.a, 0, lo + w - wl);
                    let l = self.extract(n.b, lo, wl - lo);
                    return self.concat(h, l);
                }
                Op::Extract => return self.extract(n.a, lo + n.b as u16, w),
                Op::And | Op::Or | Op::Xor => {
                    let a = self.extract(n.a, lo, w);
                    let b = self.extract(n.b, lo, w);
                    return self.bin(n.op, a, b);
                }
                Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                    let a = self.extract(n.a, 0, w);
                    let b = self.extract(n.b, 0, w);
                    return self.bin(n.op, a, b);
                }
                Op::Ite => {
                    let a = self.extract(n.b, lo, w);
                    let b = self.extract(n.c, lo, w);
                    return self.ite(n.a, a, b);
                }
                Op::SExt => {
                    let iw = self.w(n.a);
                    if lo + w <= iw { return self.extract(n.a, lo, w) }
                }
                _ => {}
            }
            self.int(Node { op: Op::Extract, w, a: e, b: lo as u32, c: 0, k: 0 })
        })();
        self.memo.insert(key, r);
        r
    }
    pub fn vars(&mut self, e: E) -> std::rc::Rc<Vec<u32>> {
        if let Some(v) = self.vars.get(&e) { return v.clone() }
        let n = self.n(e);
        let r: Vec<u32> = match n.op {
            Op::Const => vec![],
            Op::Tab => vec![n.a],
            _ => {
                let mut out: Vec<u32> = vec![];
                let kids: &[u32] = match n.op { Op::Ite => &[n.a, n.b, n.c], Op::Extract | Op::SExt => &[n.a], _ => &[n.a, n.b] };
                for &k in kids { out.extend(self.vars(k).iter()) }
                out.sort_unstable();
                out.dedup();
                out
            }
        };
        let r = std::rc::Rc::new(r);
        self.vars.insert(e, r.clone());
        r
    }
    pub fn begin_eval(&mut self) { self.gen += 1; self.ev_gen.resize(self.nodes.len(), 0); self.ev_val.resize(self.nodes.len(), 0); }
    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 { self.begin_eval(); self.eval_rec(e, model) }
    pub fn eval_rec(&mut self, e: E, model: &[u8]) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Tab => return self.tabs[n.b as usize][*model.get(n.a as usize).unwrap_or(&0) as usize] as u128,
            _ => {}
        }
        if (e as usize) < self.ev_gen.len() && self.ev_gen[e as usize] == self.gen { return self.ev_val[e as usize] }
        let r = match n.op {
            Op::Ite => if self.eval_rec(n.a, model) == 1 { self.eval_rec(n.b, model) } else { self.eval_rec(n.c, model) },
            Op::Concat => { let wl = self.w(n.b); let h = self.eval_rec(n.a, model); let l = self.eval_rec(n.b, model); if n.w <= 128 { (h << wl) | l } else { l } }
            Op::Extract => (self.eval_rec(n.a, model) >> n.b) & mask(n.w),
            Op::SExt => { let w = self.w(n.a); sx(self.eval_rec(n.a, model), w) as u128 & mask(n.w) }
            Op::And if n.w == 1 => if self.eval_rec(n.a, model) == 0 { 0 } else { self.eval_rec(n.b, model) },
            Op::Or if n.w == 1 => if self.eval_rec(n.a, model) == 1 { 1 } else { self.eval_rec(n.b, model) },
            op => { let w = self.w(n.a); let a = self.eval_rec(n.a, model); let b = self.eval_rec(n.b, model); fold(op, w, a, b).unwrap_or(0) }
        };
        if (e as usize) < self.ev_gen.len() { self.ev_gen[e as usize] = self.gen; self.ev_val[e as usize] = r; }
        r
    }
    pub fn tab_of(&self, e: E) -> Option<(u32, &[u64; 256])> { let n = self.n(e); if n.op == Op::Tab { Some((n.a, &self.tabs[n.b as usize])) } else { None } }
}
