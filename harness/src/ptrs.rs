//! Pointers operated through their shapes: one machine of spec/Ptr.tla, with the counts the pointers
//! themselves report.
use crate::alloc::{off, on};
use crate::docs::{Diffs, memory};
use crate::run::quiet;
use crate::tk::{self, Tk};
use crate::u::*;
use facet_core::*;
use facet_reflect::Peek;
use serde_json::{Value as J, json};
use std::mem::{ManuallyDrop, MaybeUninit};
use std::ptr::NonNull;
use std::sync::{Arc, Weak};

const GUARD: u64 = 0xFEED_FACE_DEAD_BEEF;
/// memory for one pointer of any kind, with something next to it that nobody writes to
struct Place { mem: Box<[u64; 3]>, kind: &'static str, shape: &'static Shape }
impl Place {
    fn ptr(&mut self) -> *mut u8 { unsafe { (self.mem.as_mut_ptr()).add(1) as *mut u8 } }
    fn at(&self) -> *const u8 { unsafe { self.mem.as_ptr().add(1) as *const u8 } }
    fn ok(&self) -> bool { self.mem[0] == GUARD && self.mem[2] == GUARD }
}
fn def(s: &'static Shape) -> SmartPointerDef { match s.def { Def::SmartPointer(d) => d, _ => panic!("not described as a pointer: {s}") } }

fn rc<T: U + Facet>(case: &J, out: &mut Diffs) {
    assert!(size_of::<Arc<T>>() == 8 && size_of::<Weak<T>>() == 8 && size_of::<NonNull<T>>() == 8);
    let n = case["n"].as_u64().unwrap() as usize;
    let shape_of = |k: &str| match k {
        "strong" => <Arc<T> as Facet>::SHAPE, "weak" => <Weak<T> as Facet>::SHAPE,
        "opaque" => <Opaque<Arc<T>> as Facet>::SHAPE, "plain" => <NonNull<T> as Facet>::SHAPE, _ => <u8 as Facet>::SHAPE,
    };
    let mut ps: Vec<Place> = (0..n).map(|_| Place { mem: Box::new([GUARD, 0x5A5A, GUARD]), kind: "", shape: shape_of("") }).collect();
    for (at, op) in case["h"].as_array().unwrap().iter().enumerate() {
        let o = op["o"].as_str().unwrap();
        let i = op["i"].as_u64().unwrap() as usize;
        let dst = ps.iter().position(|p| p.kind.is_empty());
        let did = quiet(|| {
            // what the new pointer is: its kind, and the shape found for it
            let mut made: Option<(&'static str, &'static Shape)> = None;
            let mut seen = J::Null;
            let from = if i > 0 { Some(ps[i - 1].at()) } else { None };
            let fs = if i > 0 { ps[i - 1].shape } else { shape_of("") };
            let kind = if i > 0 { ps[i - 1].kind } else { "" };
            let room = dst.map(|d| PtrUninit::new(ps[d].ptr()));
            let mut err = None;
            macro_rules! fun { ($s:expr, $f:ident) => { match def($s).vtable.$f { Some(f) => f, None => { err = Some(concat!("there is no ", stringify!($f)).to_string()); return (None, seen, err) } } } }
            let old = dst.map(|d| ps[d].mem[1]);
            match o {
                "new" | "newo" => {
                    let k = if o == "new" { "strong" } else { "opaque" };
                    let f = fun!(shape_of(k), new_into_fn);
                    let v = on(|| ManuallyDrop::new(Box::new(T::make(&op["x"]))));
                    let got = on(|| unsafe { f(room.unwrap(), PtrConst::new(&**v as *const T)) });
                    if got.as_byte_ptr() as *const u8 != room.unwrap().as_mut_byte_ptr() as *const u8 { err = Some("the pointer is not where it was to be put".into()) }
                    // the value has moved: only its memory is given back
                    on(|| drop(unsafe { Box::from_raw(Box::into_raw(ManuallyDrop::into_inner(v)) as *mut MaybeUninit<T>) }));
                    made = Some((k, shape_of(k)));
                }
                "none" => match shape_of("weak").vtable.default_in_place {
                    Some(f) => { on(|| unsafe { f(room.unwrap()); }); made = Some(("weak", shape_of("weak"))) }
                    None => err = Some("weak pointers have no default".into()),
                },
                "clone" => match fs.vtable.clone_into {
                    Some(f) => { on(|| unsafe { f(PtrConst::new(from.unwrap()), room.unwrap()); }); made = Some((kind, fs)) }
                    None => err = Some(format!("a {kind} pointer cannot be cloned")),
                },
                "down" => {
                    let f = fun!(fs, downgrade_into_fn);
                    let Some(w) = def(fs).weak else { return (None, seen, Some("the weak counterpart is not told".into())) };
                    on(|| unsafe { f(PtrMut::new(from.unwrap() as *mut u8), room.unwrap()); });
                    made = Some(("weak", w()));
                }
                "up" => {
                    let f = fun!(fs, upgrade_into_fn);
                    let Some(s) = def(fs).strong else { return (None, seen, Some("the strong counterpart is not told".into())) };
                    match on(|| unsafe { f(PtrMut::new(from.unwrap() as *mut u8), room.unwrap()) }) {
                        Some(_) => made = Some(("strong", s())),
                        None => if Some(ps[dst.unwrap()].mem[1]) != old { err = Some("something was written though there is no pointer".into()) },
                    }
                }
                "hide" => { // (natively)
                    on(|| unsafe { (room.unwrap().as_mut_byte_ptr() as *mut Arc<T>).write((*(from.unwrap() as *const Arc<T>)).clone()) });
                    made = Some(("opaque", shape_of("opaque")));
                }
                "plain" => {
                    let f = fun!(shape_of("plain"), new_into_fn);
                    let p: *mut T = unsafe { Arc::as_ptr(&*(from.unwrap() as *const Arc<T>)) as *mut T };
                    on(|| unsafe { f(room.unwrap(), PtrConst::new(&p as *const *mut T)); });
                    made = Some(("plain", shape_of("plain")));
                }
                "borrow" => {
                    let peek = unsafe { Peek::unchecked_new(PtrConst::new(from.unwrap()), fs) };
                    let d = match peek.into_smart_pointer() { Ok(p) => *p.def(), Err(e) => return (None, seen, Some(format!("not a pointer: {e}"))) };
                    if d != def(fs) { err = Some("the peek tells another definition".into()) }
                    let Some(f) = d.vtable.borrow_fn else { return (None, seen, Some("there is no borrow_fn".into())) };
                    let p = on(|| unsafe { f(PtrConst::new(from.unwrap())) });
                    let want = unsafe { if kind == "plain" { (*(from.unwrap() as *const NonNull<T>)).as_ptr() as *const u8 } else { Arc::as_ptr(&*(from.unwrap() as *const Arc<T>)) as *const u8 } };
                    if p.as_byte_ptr() as *const u8 != want { err = Some("what it points to is not where it is borrowed".into()) }
                    else { seen = unsafe { (*(want as *const T)).show() } }
                }
                "drop" => {
                    match fs.vtable.drop_in_place {
                        Some(f) => { on(|| unsafe { f(PtrMut::new(from.unwrap() as *mut u8)) }); }
                        None if kind == "plain" => {} // nothing to do
                        None => err = Some(format!("a {kind} pointer cannot be dropped")),
                    }
                    if err.is_none() { ps[i - 1].kind = ""; ps[i - 1].mem[1] = 0x5A5A }
                }
                _ => unreachable!(),
            }
            (made, seen, err)
        });
        let say = |m: String| format!("step {}, {o} {i} on {}: {m}", at + 1, T::SHAPE);
        let (made, seen, err) = match did { Ok(x) => x, Err(p) => { out.push(("panic", say(p))); break } };
        if let Some(e) = err { out.push(("rc", say(e))); break }
        if let Some((k, s)) = made {
            let d = dst.unwrap();
            ps[d].kind = k;
            ps[d].shape = s;
            if !std::ptr::eq(s, shape_of(k)) && s != shape_of(k) { out.push(("rc", say(format!("the counterpart is {s}")))); break }
        }
        let r = if made.is_some() || matches!(o, "borrow" | "drop") { 1 } else { 0 };
        if op["r"] != r { out.push(("rc", say(format!("got {r}, expected {}", op["r"])))); break }
        if o == "borrow" && norm(&seen) != norm(&op["v"]) { out.push(("rc", say(format!("shows {seen}, not {}", op["v"])))); break }
        if let Some(p) = ps.iter().position(|p| !p.ok()) { out.push(("mem", say(format!("memory next to place {} was written", p + 1)))); break }
        let p: Vec<J> = ps.iter().map(|p| unsafe {
            let (s, w) = match p.kind {
                "strong" | "opaque" => { let a = &*(p.at() as *const Arc<T>); (Arc::strong_count(a), Arc::weak_count(a)) }
                "weak" => { let a = &*(p.at() as *const Weak<T>); (a.strong_count(), a.weak_count()) }
                _ => (0, 0),
            };
            json!([p.kind, s, w])
        }).collect();
        if op["s"]["p"] != json!(p) { out.push(("rc", say(format!("counts {}, expected {}", json!(p), op["s"]["p"])))); break }
        let live = tk::status().1;
        if op["s"]["live"] != json!(live) { out.push(("rc", say(format!("alive are {live:?}, expected {}", op["s"]["live"])))); break }
    }
    if out.is_empty() {
        // the end: everything goes
        for p in ps.iter_mut().filter(|p| !p.kind.is_empty()) { if let Some(f) = p.shape.vtable.drop_in_place { on(|| unsafe { f(PtrMut::new(p.ptr())) }); } }
        memory(out, 1 << 20);
    } else { crate::alloc::settle(); }
}
#[derive(facet::Facet)]
#[repr(align(64))]
struct Wide(Tk);
impl U for Wide { fn make(j: &J) -> Self { Wide(U::make(j)) } fn show(&self) -> J { self.0.show() } }

pub fn run(types: &[J], case: &J) -> Diffs {
    let mut out = vec![];
    tk::reset();
    let sh = case["sh"].as_u64().unwrap() as usize;
    match types[sh - 1]["ty"].as_str().unwrap() {
        "u8" => rc::<u8>(case, &mut out),
        "u128" => rc::<u128>(case, &mut out),
        "unit" | "()" => rc::<()>(case, &mut out),
        "String" => rc::<String>(case, &mut out),
        "Tk" => { rc::<Tk>(case, &mut out); if out.is_empty() { off(tk::reset); rc::<Wide>(case, &mut out) } }
        "P2" => rc::<crate::types::P2>(case, &mut out),
        "En" => rc::<crate::types::En>(case, &mut out),
        "LyA" => rc::<crate::types::LyA>(case, &mut out),
        "Vec<Tk>" => rc::<Vec<Tk>>(case, &mut out),
        "Option<Tk>" => rc::<Option<Tk>>(case, &mut out),
        "[Tk;2]" => rc::<[Tk; 2]>(case, &mut out),
        "HashMap<String,Tk>" => rc::<std::collections::HashMap<String, Tk>>(case, &mut out),
        "Arc<Tk>" => rc::<Arc<Tk>>(case, &mut out),
        "Weak<Tk>" => rc::<Weak<Tk>>(case, &mut out),
        t => panic!("no pointers to {t}"),
    }
    out
}
