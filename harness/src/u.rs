//! Values of the universe, natively: made from and shown as the specification's encoding (Values.tla).
use crate::tk::Tk;
use facet_core::{Facet, PtrConst, PtrMut, PtrUninit, Shape};
use facet_reflect::{HeapValue, Peek, ReflectError, Wip};
use serde_json::{Value as J, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::num::*;
use std::borrow::Cow;
use std::marker::PhantomData;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Weak};

pub type Str = &'static str;
pub type CowStr = Cow<'static, str>;
pub type PathRef = &'static Path;
pub type Slice<T> = &'static [T];
pub type PhU8 = PhantomData<u8>;
pub type PhNo = PhantomData<crate::types::NoTr>;

pub trait U: Sized + 'static {
    fn make(j: &J) -> Self;
    fn show(&self) -> J;
}
pub trait Layouts { fn offsets() -> Option<Vec<usize>>; }

pub fn digits(s: &str) -> J { J::Array(s.bytes().map(|b| json!(b - b'0')).collect()) }
pub fn int_json(s: &str) -> J {
    let (g, d) = match s.strip_prefix('-') { Some(d) => (true, d), None => (false, s) };
    json!({"t": "int", "g": g, "d": digits(d)})
}
pub fn int_text(j: &J) -> String {
    let mut s = String::new();
    if j["g"].as_bool().unwrap() { s.push('-') }
    for d in j["d"].as_array().unwrap() { s.push((b'0' + d.as_u64().unwrap() as u8) as char) }
    s
}
pub fn text(j: &J) -> String { j.as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect() }
pub fn codes(s: &str) -> J { J::Array(s.chars().map(|c| json!(c as u32)).collect()) }
pub fn bytes(j: &J) -> Vec<u8> { j.as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as u8).collect() }
pub fn flt_json(v: f64) -> J {
    let g = v.is_sign_negative();
    if v.is_nan() { return json!({"t": "flt", "c": "nan", "g": false, "m": [0], "e": 0}); }
    if v.is_infinite() { return json!({"t": "flt", "c": "inf", "g": g, "m": [0], "e": 0}); }
    let b = v.to_bits();
    let ex = ((b >> 52) & 0x7ff) as i64;
    let fr = b & ((1 << 52) - 1);
    let (mut m, mut e) = if ex == 0 { (fr, -1074) } else { (fr | (1 << 52), ex - 1075) };
    if m == 0 { e = 0 } else { while m & 1 == 0 { m >>= 1; e += 1; } }
    json!({"t": "flt", "c": "fin", "g": g, "m": digits(&m.to_string()), "e": e})
}
pub fn flt_of(j: &J) -> f64 {
    let g = j["g"].as_bool().unwrap();
    let v = match j["c"].as_str().unwrap() {
        "nan" => f64::NAN,
        "inf" => f64::INFINITY,
        _ => {
            let m: u64 = int_text(&json!({"g": false, "d": j["m"].clone()})).parse().unwrap();
            let e = j["e"].as_i64().unwrap();
            // exact: m has at most 53 bits
            let mut v = m as f64;
            let mut e = e;
            while e > 500 { v *= 2f64.powi(500); e -= 500 }
            while e < -500 { v *= 2f64.powi(-500); e += 500 }
            v * 2f64.powi(e as i32)
        }
    };
    if g { -v } else { v }
}
macro_rules! int { ($($t:ty),*) => { $(impl U for $t {
    fn make(j: &J) -> Self { int_text(j).parse().unwrap() }
    fn show(&self) -> J { int_json(&self.to_string()) }
})* } }
int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
int!(NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroUsize, NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroIsize, NonZeroU128, NonZeroI128);
impl U for () { fn make(_: &J) -> Self {} fn show(&self) -> J { json!({"t": "unit"}) } }
impl U for bool { fn make(j: &J) -> Self { j["b"].as_bool().unwrap() } fn show(&self) -> J { json!({"t": "bool", "b": self}) } }
impl U for char { fn make(j: &J) -> Self { char::from_u32(j["u"].as_u64().unwrap() as u32).unwrap() } fn show(&self) -> J { json!({"t": "chr", "u": *self as u32}) } }
impl U for String { fn make(j: &J) -> Self { text(&j["c"]) } fn show(&self) -> J { json!({"t": "str", "c": codes(self)}) } }
// borrowed texts and slices are never given back
impl U for &'static str { fn make(j: &J) -> Self { crate::alloc::off(|| Box::leak(text(&j["c"]).into_boxed_str())) } fn show(&self) -> J { json!({"t": "str", "c": codes(self)}) } }
impl U for CowStr {
    fn make(j: &J) -> Self { let s = text(&j["c"]); if s.len() % 2 == 0 { Cow::Owned(s) } else { Cow::Borrowed(<&'static str as U>::make(j)) } }
    fn show(&self) -> J { json!({"t": "str", "c": codes(self)}) }
}
impl U for PathBuf { fn make(j: &J) -> Self { PathBuf::from(text(&j["c"])) } fn show(&self) -> J { json!({"t": "str", "c": codes(self.to_str().unwrap())}) } }
impl U for &'static Path { fn make(j: &J) -> Self { Path::new(<&'static str as U>::make(j)) } fn show(&self) -> J { json!({"t": "str", "c": codes(self.to_str().unwrap())}) } }
impl<T: U> U for &'static [T] {
    fn make(j: &J) -> Self { crate::alloc::off(|| { let v: Vec<T> = U::make(j); Box::leak(v.into_boxed_slice()) }) }
    fn show(&self) -> J { json!({"t": "list", "e": self.iter().map(T::show).collect::<Vec<_>>()}) }
}
impl<T: 'static> U for PhantomData<T> { fn make(_: &J) -> Self { PhantomData } fn show(&self) -> J { json!({"t": "unit"}) } }
impl U for Ipv4Addr {
    fn make(j: &J) -> Self { let b: [u8; 4] = bytes(&j["o"]).try_into().unwrap(); b.into() }
    fn show(&self) -> J { json!({"t": "ip", "n": 4, "o": self.octets()}) }
}
impl U for Ipv6Addr {
    fn make(j: &J) -> Self { let b: [u8; 16] = bytes(&j["o"]).try_into().unwrap(); b.into() }
    fn show(&self) -> J { json!({"t": "ip", "n": 6, "o": self.octets()}) }
}
impl U for IpAddr {
    fn make(j: &J) -> Self { if j["n"] == 4 { IpAddr::V4(U::make(j)) } else { IpAddr::V6(U::make(j)) } }
    fn show(&self) -> J { match self { IpAddr::V4(a) => a.show(), IpAddr::V6(a) => a.show() } }
}
impl U for SocketAddr {
    fn make(j: &J) -> Self {
        let p = j["p"].as_u64().unwrap() as u16;
        match IpAddr::make(&j["ip"]) { IpAddr::V4(a) => SocketAddrV4::new(a, p).into(), IpAddr::V6(a) => SocketAddrV6::new(a, p, 0, j["z"].as_u64().unwrap() as u32).into() }
    }
    fn show(&self) -> J { json!({"t": "sock", "ip": self.ip().show(), "p": self.port(), "z": match self { SocketAddr::V6(a) => a.scope_id(), _ => 0 }}) }
}
/// a weak pointer, made from nothing: one that points to nothing any more
impl<T: U> U for Weak<T> { fn make(_: &J) -> Self { Weak::new() } fn show(&self) -> J { json!({"t": "weak", "alive": self.upgrade().is_some()}) } }
/// not a Facet
pub struct Hidden(pub Tk);
impl U for Hidden { fn make(j: &J) -> Self { Hidden(Tk::make(j)) } fn show(&self) -> J { self.0.show() } }
pub use facet_core::Opaque;
impl U for Opaque<Arc<Hidden>> {
    fn make(j: &J) -> Self { unsafe { std::mem::transmute::<Arc<Hidden>, Self>(U::make(j)) } }
    fn show(&self) -> J { unsafe { (*(self as *const Self as *const Arc<Hidden>)).show() } }
}
/// a hasher of one's own
#[derive(Default, Clone, facet::Facet)]
pub struct Hs { pub seed: u8 }
impl std::hash::BuildHasher for Hs { type Hasher = Hr; fn build_hasher(&self) -> Hr { Hr(7) } }
pub struct Hr(u64);
impl std::hash::Hasher for Hr {
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.rotate_left(5) ^ *x as u64; } }
    fn finish(&self) -> u64 { self.0 }
}
impl U for f64 { fn make(j: &J) -> Self { flt_of(j) } fn show(&self) -> J { flt_json(*self) } }
impl U for f32 { fn make(j: &J) -> Self { flt_of(j) as f32 } fn show(&self) -> J { flt_json(*self as f64) } }
impl U for Tk { fn make(_: &J) -> Self { Tk::new() } fn show(&self) -> J { json!({"t": "tk", "id": self.id("read")}) } }
impl<T: U> U for Vec<T> {
    fn make(j: &J) -> Self { j["e"].as_array().unwrap().iter().map(T::make).collect() }
    fn show(&self) -> J { json!({"t": "list", "e": self.iter().map(T::show).collect::<Vec<_>>()}) }
}
impl<T: U> U for Option<T> {
    fn make(j: &J) -> Self { if j["t"] == "none" { None } else { Some(T::make(&j["x"])) } }
    fn show(&self) -> J { match self { None => json!({"t": "none"}), Some(x) => json!({"t": "some", "x": x.show()}) } }
}
impl<T: U> U for Arc<T> {
    fn make(j: &J) -> Self { Arc::new(T::make(&j["x"])) }
    fn show(&self) -> J { json!({"t": "arc", "x": (**self).show()}) }
}
impl<T: U, const N: usize> U for [T; N] {
    fn make(j: &J) -> Self { core::array::from_fn(|i| T::make(&j["e"][i])) }
    fn show(&self) -> J { json!({"t": "arr", "e": self.iter().map(T::show).collect::<Vec<_>>()}) }
}
fn pairs<'a, K: U, V: U>(it: impl Iterator<Item = (&'a K, &'a V)>) -> J {
    let mut v: Vec<J> = it.map(|(k, v)| json!([k.show(), v.show()])).collect();
    v.sort_by_cached_key(|p| p[0].to_string());
    json!({"t": "map", "e": v})
}
impl<K: U + Eq + std::hash::Hash, V: U, H: std::hash::BuildHasher + Default + 'static> U for HashMap<K, V, H> {
    fn make(j: &J) -> Self { j["e"].as_array().unwrap().iter().map(|p| { let k = K::make(&p[0]); (k, V::make(&p[1])) }).collect() }
    fn show(&self) -> J { pairs(self.iter()) }
}
impl<K: U + Ord, V: U> U for BTreeMap<K, V> {
    fn make(j: &J) -> Self { j["e"].as_array().unwrap().iter().map(|p| { let k = K::make(&p[0]); (k, V::make(&p[1])) }).collect() }
    fn show(&self) -> J { pairs(self.iter()) }
}
macro_rules! tup { ($($T:ident $i:tt),*) => { impl<$($T: U),*> U for ($($T,)*) {
    fn make(j: &J) -> Self { ($($T::make(&j["f"][$i]),)*) }
    fn show(&self) -> J { json!({"t": "st", "f": [$(self.$i.show()),*]}) }
} } }
tup!(A 0);
tup!(A 0, B 1);
tup!(A 0, B 1, C 2);
tup!(A 0, B 1, C 2, D 3);
tup!(A 0, B 1, C 2, D 3, E 4);
tup!(A 0, B 1, C 2, D 3, E 4, F 5);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, M 9);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, M 9, K 10);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, M 9, K 10, L 11);

/// maps are unordered: put their entries in the order `show` uses
pub fn norm(j: &J) -> J {
    match j {
        J::Array(a) => J::Array(a.iter().map(norm).collect()),
        J::Object(o) => {
            let mut o: serde_json::Map<String, J> = o.iter().map(|(k, v)| (k.clone(), norm(v))).collect();
            if o.get("t").is_some_and(|t| t == "map") {
                o["e"].as_array_mut().unwrap().sort_by_cached_key(|p| p[0].to_string());
            }
            J::Object(o)
        }
        _ => j.clone(),
    }
}

thread_local! { pub static PENDING: RefCell<J> = const { RefCell::new(J::Null) }; }

/// what the harness can do with a type
#[derive(Clone)]
pub struct TypeOps {
    pub shape: &'static Shape,
    pub size: usize,
    pub align: usize,
    pub offsets: Option<Vec<usize>>,
    pub alloc: fn() -> Wip<'static>,
    pub put: fn(Wip<'static>, &J) -> Result<Wip<'static>, ReflectError>,
    pub put_peek: fn(Wip<'static>, &J) -> Result<Wip<'static>, ReflectError>,
    pub from_fn: fn(Wip<'static>) -> Result<Wip<'static>, ReflectError>,
    pub is_type: fn(&Wip<'static>) -> bool,
    pub take: fn(HeapValue<'static>) -> Result<Holder, ReflectError>,
    pub make: fn(&J) -> Holder,
    /// a value on the heap, as building it gives (nothing if its invariants refuse it)
    pub heap: fn(&J) -> Option<HeapValue<'static>>,
    pub get: fn(&Peek<'_>) -> Option<J>,
    pub shape_is: fn(&'static Shape) -> bool,
    /// looks a key of this type up in some map
    pub look: fn(&facet_reflect::PeekMap<'static>, &J) -> (bool, Option<Peek<'static>>),
    pub room: fn() -> Room,
    pub fmt: crate::docs::Fmt,
    pub native: Native,
}
/// a value of some type of the universe
pub struct Holder { ptr: *mut u8, show: unsafe fn(*mut u8) -> J, drop: unsafe fn(*mut u8), free: fn(*mut u8), pub shape: &'static Shape }
impl Holder {
    pub fn new<T: U + Facet>(v: T) -> Holder {
        Holder {
            ptr: Box::into_raw(Box::new(v)) as *mut u8,
            show: |p| unsafe { (*(p as *mut T)).show() },
            drop: |p| unsafe { drop(Box::from_raw(p as *mut T)) },
            free: |p| unsafe { drop(Box::from_raw(p as *mut std::mem::MaybeUninit<T>)) },
            shape: T::SHAPE,
        }
    }
    pub fn show(&self) -> J { unsafe { (self.show)(self.ptr) } }
    pub fn peek(&self) -> Peek<'static> { unsafe { Peek::unchecked_new(PtrConst::new(self.ptr as *const u8), self.shape) } }
    pub fn ptr(&self) -> *mut u8 { self.ptr }
    /// the memory, whose value was moved out
    pub fn hollow(self) { (self.free)(self.ptr); std::mem::forget(self) }
    pub fn forget<T>(self) { unsafe { drop(Box::from_raw(self.ptr as *mut std::mem::MaybeUninit<T>)); } std::mem::forget(self) }
}
impl Drop for Holder { fn drop(&mut self) { unsafe { (self.drop)(self.ptr) } } }

impl TypeOps { pub fn room(&self) -> Room { (self.room)() } }
/// memory for a value of some type
pub struct Room { ptr: *mut u8, done: fn(*mut u8) -> Holder, free: fn(*mut u8) }
impl Room {
    /// lets `f` write the value, and tell whether it did
    pub fn fill(self, f: impl FnOnce(PtrUninit<'static>) -> bool) -> Option<Holder> {
        if f(PtrUninit::new(self.ptr)) { Some((self.done)(self.ptr)) } else { (self.free)(self.ptr); None }
    }
}
/// the type's own implementations
#[derive(Clone, Default)]
pub struct Native {
    pub clone: bool,
    pub eq: Option<unsafe fn(*const u8, *const u8) -> bool>,
    pub cmp: Option<unsafe fn(*const u8, *const u8) -> std::cmp::Ordering>,
    pub partial: Option<unsafe fn(*const u8, *const u8) -> Option<std::cmp::Ordering>>,
    pub hash: Option<unsafe fn(*const u8) -> Vec<u8>>,
    pub debug: Option<unsafe fn(*const u8) -> String>,
    pub display: Option<unsafe fn(*const u8) -> String>,
    pub default: Option<fn() -> Holder>,
    pub parse: Option<fn(&str) -> Option<Holder>>,
    pub marker_eq: bool,
    pub copy: bool,
}
/// a hasher that remembers what it was given
#[derive(Default)]
pub struct Recorder(pub Vec<u8>);
impl std::hash::Hasher for Recorder {
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
    fn finish(&self) -> u64 { 0 }
}

pub fn base<T: U + Facet>(offsets: Option<Vec<usize>>) -> TypeOps {
    TypeOps {
        shape: T::SHAPE,
        size: size_of::<T>(),
        align: align_of::<T>(),
        offsets,
        alloc: || Wip::alloc::<T>(),
        put: |w, j| { let v = T::make(j); w.put(v) },
        put_peek: |w, j| {
            let h = Holder::new(T::make(j));
            w.put_peek(h.peek())
        },
        from_fn: |w| {
            fn fill<T: U>(t: PtrUninit<'_>) -> PtrMut<'_> {
                let j = crate::alloc::off(|| PENDING.with(|p| p.borrow().clone()));
                let v = T::make(&j);
                crate::alloc::off(move || drop(j));
                unsafe { t.put(v) }
            }
            w.put_from_fn(fill::<T>)
        },
        is_type: |w| w.current_is_type::<T>(),
        take: |h| h.materialize::<T>().map(Holder::new),
        make: |j| Holder::new(T::make(j)),
        heap: |j| Wip::alloc::<T>().put(T::make(j)).ok()?.build().ok(),
        get: |p| p.get::<T>().ok().map(|v| v.show()),
        shape_is: |s| s.is_type::<T>(),
        look: |m, j| { let k = T::make(j); (m.contains_key(&k), m.get(&k)) },
        room: || Room {
            ptr: Box::into_raw(Box::<std::mem::MaybeUninit<T>>::new_uninit()) as *mut u8,
            done: |p| Holder { ptr: p, show: |p| unsafe { (*(p as *mut T)).show() }, drop: |p| unsafe { drop(Box::from_raw(p as *mut T)) }, free: |p| unsafe { drop(Box::from_raw(p as *mut std::mem::MaybeUninit<T>)) }, shape: T::SHAPE },
            free: |p| unsafe { drop(Box::from_raw(p as *mut std::mem::MaybeUninit<T>)) },
        },
        fmt: crate::docs::fmt::<T>(),
        native: Native::default(),
    }
}
#[macro_export]
macro_rules! ops {
    ($T:ty, $own:ident $(, $tr:ident)* $(,)?) => {{
        #[allow(unused_mut)]
        let mut o = $crate::u::base::<$T>($crate::offs!($own, $T));
        $($crate::native!(o, $T, $tr);)*
        o
    }};
}
#[macro_export]
macro_rules! offs { (own, $T:ty) => { <$T as $crate::u::Layouts>::offsets() }; (no, $T:ty) => { None }; }
#[macro_export]
macro_rules! native {
    ($o:ident, $T:ty, Clone) => { $o.native.clone = true; };
    ($o:ident, $T:ty, Copy) => { $o.native.copy = true; };
    ($o:ident, $T:ty, Debug) => { $o.native.debug = Some(|p| unsafe { format!("{:?}", &*(p as *const $T)) }); };
    ($o:ident, $T:ty, Display) => { $o.native.display = Some(|p| unsafe { format!("{}", &*(p as *const $T)) }); };
    ($o:ident, $T:ty, PartialEq) => { $o.native.eq = Some(|a, b| unsafe { *(a as *const $T) == *(b as *const $T) }); };
    ($o:ident, $T:ty, Eq) => { $o.native.marker_eq = true; };
    ($o:ident, $T:ty, PartialOrd) => { $o.native.partial = Some(|a, b| unsafe { <$T as PartialOrd>::partial_cmp(&*(a as *const $T), &*(b as *const $T)) }); };
    ($o:ident, $T:ty, Ord) => { $o.native.cmp = Some(|a, b| unsafe { <$T as Ord>::cmp(&*(a as *const $T), &*(b as *const $T)) }); };
    ($o:ident, $T:ty, Hash) => { $o.native.hash = Some(|p| unsafe { let mut h = $crate::u::Recorder::default(); std::hash::Hash::hash(&*(p as *const $T), &mut h); h.0 }); };
    ($o:ident, $T:ty, Default) => { $o.native.default = Some(|| $crate::u::Holder::new(<$T as Default>::default())); };
    ($o:ident, $T:ty, FromStr) => { $o.native.parse = Some(|s| s.parse::<$T>().ok().map($crate::u::Holder::new)); };
}
