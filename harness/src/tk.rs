//! Tracked values: each knows whether it was ever made, and whether it was dropped.
use facet_core::{ConstTypeId, Def, Facet, ScalarAffinity, ScalarDef, Shape, value_vtable};
use std::alloc::Layout;
use std::cell::UnsafeCell;
use crate::alloc::off;

pub struct Tk { id: u32, magic: u32 }
const MAGIC: u32 = 0x5EED_0000;
const MAX: usize = 1 << 16;
struct St { state: UnsafeCell<[u8; MAX]>, next: UnsafeCell<u32>, err: UnsafeCell<Vec<String>> }
unsafe impl Sync for St {}
static S: St = St { state: UnsafeCell::new([0; MAX]), next: UnsafeCell::new(1), err: UnsafeCell::new(Vec::new()) };

fn err(m: String) { unsafe { let e = &mut *S.err.get(); if e.len() < 10 { e.push(m) } } }
/// forget everything
pub fn reset() { unsafe {
    let n = *S.next.get() as usize;
    (&mut *S.state.get())[..n.min(MAX)].fill(0);
    *S.next.get() = 1;
    (*S.err.get()).clear();
} }
/// (number of values made, those not dropped, complaints)
pub fn status() -> (u32, Vec<u32>, Vec<String>) { unsafe {
    let n = *S.next.get();
    let st = &*S.state.get();
    ((n - 1), (1..n).filter(|&i| st[i as usize % MAX] == 1).collect(), (*S.err.get()).clone())
} }
impl Tk {
    pub fn new() -> Tk { unsafe {
        let id = *S.next.get();
        *S.next.get() = id + 1;
        if (id as usize) < MAX { (&mut *S.state.get())[id as usize] = 1; }
        Tk { id, magic: MAGIC ^ id }
    } }
    pub fn id(&self, what: &str) -> u32 {
        if self.magic != MAGIC ^ self.id { off(|| err(format!("{what} of memory that holds no value"))); return 0; }
        unsafe { if (&*S.state.get())[self.id as usize % MAX] != 1 { off(|| err(format!("{what} of a value that was dropped"))); } }
        self.id
    }
}
impl Drop for Tk {
    fn drop(&mut self) {
        let id = self.id("drop");
        if id != 0 { unsafe { (&mut *S.state.get())[id as usize % MAX] = 2; } }
    }
}
impl Default for Tk { fn default() -> Tk { Tk::new() } }
impl Clone for Tk { fn clone(&self) -> Tk { self.id("clone"); Tk::new() } }
impl PartialEq for Tk { fn eq(&self, o: &Tk) -> bool { self.id("comparison") == o.id("comparison") } }
impl Eq for Tk {}
impl PartialOrd for Tk { fn partial_cmp(&self, o: &Tk) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Tk { fn cmp(&self, o: &Tk) -> std::cmp::Ordering { self.id("comparison").cmp(&o.id("comparison")) } }
impl std::hash::Hash for Tk { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.id("hash").hash(h) } }
impl std::fmt::Display for Tk { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Tk{}", self.id("display")) } }
impl std::fmt::Debug for Tk { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Tk{}", self.id("debug")) } }
impl std::str::FromStr for Tk {
    type Err = ();
    fn from_str(s: &str) -> Result<Tk, ()> { if s == "7" { Ok(Tk::new()) } else { Err(()) } }
}
unsafe impl Facet for Tk {
    const SHAPE: &'static Shape = &const {
        Shape::builder()
            .id(ConstTypeId::of::<Self>())
            .layout(Layout::new::<Self>())
            .def(Def::Scalar(ScalarDef::builder().affinity(ScalarAffinity::opaque().build()).build()))
            .vtable(value_vtable!(Tk, |f, _opts| write!(f, "Tk")))
            .build()
    };
}
