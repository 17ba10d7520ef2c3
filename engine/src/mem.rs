//! Copy-on-write paged memory with a per-byte symbolic overlay.
use crate::expr::E;
use std::rc::Rc;
pub const PB: u64 = 10; // 1 KiB pages
pub const PS: usize = 1 << PB;
const LB: u64 = 8; // pages per leaf
pub struct Page { pub d: [u8; PS], pub s: Option<Box<[E; PS]>> }
impl Clone for Page { fn clone(&self) -> Page { Page { d: self.d, s: self.s.clone() } } }
type Leaf = [Option<Rc<Page>>; 1 << LB];
#[derive(Clone, Default)]
pub struct Mem { top: Vec<Option<Rc<Leaf>>> }
/// addresses live in [0, LIMIT)
pub const LIMIT: u64 = 1 << 34;
impl Mem {
    #[inline]
    pub fn page(&self, addr: u64) -> Option<&Page> {
        let p = addr >> PB;
        let t = (p >> LB) as usize;
        match self.top.get(t) { Some(Some(l)) => l[(p & ((1 << LB) - 1)) as usize].as_deref(), _ => None }
    }
    pub fn page_mut(&mut self, addr: u64, base: Option<&Page>) -> &mut Page {
        let p = addr >> PB;
        let t = (p >> LB) as usize;
        if self.top.len() <= t { self.top.resize(t + 1, None) }
        if self.top[t].is_none() { self.top[t] = Some(Rc::new(std::array::from_fn(|_| None))) }
        let leaf = Rc::make_mut(self.top[t].as_mut().unwrap());
        let slot = &mut leaf[(p & ((1 << LB) - 1)) as usize];
        if slot.is_none() {
            *slot = Some(Rc::new(match base { Some(b) => b.clone(), None => Page { d: [0; PS], s: None } }));
        }
        Rc::make_mut(slot.as_mut().unwrap())
    }
}
