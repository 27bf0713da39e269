// Written by tools/universe.py from tools/types_decl.py; do not edit.
#![allow(dead_code, clippy::all)]
use crate::u::*;
use crate::tk::Tk;
use facet::Facet;
use serde_json::{Value as J, json};
use std::collections::{HashMap, BTreeMap};
use std::sync::{Arc, Weak};
use std::num::*;
use std::borrow::Cow;
use std::fmt::Debug;
use std::net::*;
use std::path::PathBuf;
use std::marker::PhantomData;

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct P2 {
    pub x: Tk,
    pub y: Tk,
}
impl U for P2 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        P2 { x: U::make(&f[0]), y: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.x.show(), self.y.show()]})
    }
}
impl Layouts for P2 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(P2, x), core::mem::offset_of!(P2, y)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Mix {
    pub a: u8,
    pub b: String,
    pub c: bool,
}
impl U for Mix {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Mix { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show()]})
    }
}
impl Layouts for Mix { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Mix, a), core::mem::offset_of!(Mix, b), core::mem::offset_of!(Mix, c)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Tup(pub Tk, pub u8);
impl U for Tup {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Tup(U::make(&f[0]), U::make(&f[1]))
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.0.show(), self.1.show()]})
    }
}
impl Layouts for Tup { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Tup, 0), core::mem::offset_of!(Tup, 1)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Un;
impl U for Un {
    fn make(j: &J) -> Self {
        let _ = j;
        Un
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": []})
    }
}
impl Layouts for Un { fn offsets() -> Option<Vec<usize>> { Some(vec![]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Nest {
    pub p: P2,
    pub o: Option<Tk>,
    pub l: Vec<Tk>,
}
impl U for Nest {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Nest { p: U::make(&f[0]), o: U::make(&f[1]), l: U::make(&f[2]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.p.show(), self.o.show(), self.l.show()]})
    }
}
impl Layouts for Nest { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Nest, p), core::mem::offset_of!(Nest, o), core::mem::offset_of!(Nest, l)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Deep {
    pub d: Mid,
    pub z: Tk,
}
impl U for Deep {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Deep { d: U::make(&f[0]), z: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.d.show(), self.z.show()]})
    }
}
impl Layouts for Deep { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Deep, d), core::mem::offset_of!(Deep, z)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Mid {
    pub q: P2,
    pub w: Tk,
}
impl U for Mid {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Mid { q: U::make(&f[0]), w: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.q.show(), self.w.show()]})
    }
}
impl Layouts for Mid { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Mid, q), core::mem::offset_of!(Mid, w)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(u8)]
pub enum En {
    A,
    B(Tk, Tk),
    C {
        x: Tk,
        y: Option<Tk>,
    },
    D(P2),
}
impl U for En {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => En::A,
            2 => En::B(U::make(&f[0]), U::make(&f[1])),
            3 => En::C { x: U::make(&f[0]), y: U::make(&f[1]) },
            4 => En::D(U::make(&f[0])),
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            En::A => json!({"t": "en", "i": 1, "f": []}),
            En::B(a0, a1) => json!({"t": "en", "i": 2, "f": [a0.show(), a1.show()]}),
            En::C { x, y } => json!({"t": "en", "i": 3, "f": [x.show(), y.show()]}),
            En::D(a0) => json!({"t": "en", "i": 4, "f": [a0.show()]}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(C)]
pub enum EnC {
    A(u8, Tk),
    B {
        x: Tk,
        n: u64,
    },
    Z,
}
impl U for EnC {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => EnC::A(U::make(&f[0]), U::make(&f[1])),
            2 => EnC::B { x: U::make(&f[0]), n: U::make(&f[1]) },
            3 => EnC::Z,
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            EnC::A(a0, a1) => json!({"t": "en", "i": 1, "f": [a0.show(), a1.show()]}),
            EnC::B { x, n } => json!({"t": "en", "i": 2, "f": [x.show(), n.show()]}),
            EnC::Z => json!({"t": "en", "i": 3, "f": []}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(u16)]
pub enum En16 {
    P = 3,
    Q(Tk) = 700,
    R {
        a: u8,
        b: String,
    },
    S = 1,
}
impl U for En16 {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => En16::P,
            2 => En16::Q(U::make(&f[0])),
            3 => En16::R { a: U::make(&f[0]), b: U::make(&f[1]) },
            4 => En16::S,
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            En16::P => json!({"t": "en", "i": 1, "f": []}),
            En16::Q(a0) => json!({"t": "en", "i": 2, "f": [a0.show()]}),
            En16::R { a, b } => json!({"t": "en", "i": 3, "f": [a.show(), b.show()]}),
            En16::S => json!({"t": "en", "i": 4, "f": []}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct HasEn {
    pub e: En,
    pub t: Tk,
}
impl U for HasEn {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        HasEn { e: U::make(&f[0]), t: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.e.show(), self.t.show()]})
    }
}
impl Layouts for HasEn { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(HasEn, e), core::mem::offset_of!(HasEn, t)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Rec {
    pub v: Tk,
    pub kids: Vec<Rec>,
}
impl U for Rec {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Rec { v: U::make(&f[0]), kids: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.v.show(), self.kids.show()]})
    }
}
impl Layouts for Rec { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Rec, v), core::mem::offset_of!(Rec, kids)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Maps {
    pub m: HashMap<String,Tk>,
    pub n: HashMap<u8,P2>,
}
impl U for Maps {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Maps { m: U::make(&f[0]), n: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.m.show(), self.n.show()]})
    }
}
impl Layouts for Maps { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Maps, m), core::mem::offset_of!(Maps, n)]) } }

#[derive(Facet, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct KeyS {
    pub a: u8,
    pub b: u8,
}
impl U for KeyS {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        KeyS { a: U::make(&f[0]), b: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show()]})
    }
}
impl Layouts for KeyS { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(KeyS, a), core::mem::offset_of!(KeyS, b)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Opts {
    pub a: Option<Option<Tk>>,
    pub b: Option<P2>,
    pub c: Option<Vec<Tk>>,
}
impl U for Opts {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Opts { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show()]})
    }
}
impl Layouts for Opts { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Opts, a), core::mem::offset_of!(Opts, b), core::mem::offset_of!(Opts, c)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Units {
    pub a: Un,
    pub b: Un,
    pub t: Tk,
}
impl U for Units {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Units { a: U::make(&f[0]), b: U::make(&f[1]), t: U::make(&f[2]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.t.show()]})
    }
}
impl Layouts for Units { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Units, a), core::mem::offset_of!(Units, b), core::mem::offset_of!(Units, t)]) } }

#[derive(Facet, Clone, Debug, PartialEq, Default)]
pub struct DefS {
    pub a: Tk,
    pub b: u8,
}
impl U for DefS {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        DefS { a: U::make(&f[0]), b: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show()]})
    }
}
impl Layouts for DefS { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(DefS, a), core::mem::offset_of!(DefS, b)]) } }

#[derive(Facet)]
pub struct NoTr {
    pub a: Tk,
}
impl U for NoTr {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        NoTr { a: U::make(&f[0]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show()]})
    }
}
impl Layouts for NoTr { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(NoTr, a)]) } }

#[derive(Facet)]
pub struct HasNoTr {
    pub n: NoTr,
    pub o: Option<NoTr>,
    pub v: Vec<NoTr>,
}
impl U for HasNoTr {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        HasNoTr { n: U::make(&f[0]), o: U::make(&f[1]), v: U::make(&f[2]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.n.show(), self.o.show(), self.v.show()]})
    }
}
impl Layouts for HasNoTr { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(HasNoTr, n), core::mem::offset_of!(HasNoTr, o), core::mem::offset_of!(HasNoTr, v)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Gen<T> {
    pub v: T,
    pub w: Vec<T>,
}
impl<T: U> U for Gen<T> {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Gen { v: U::make(&f[0]), w: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.v.show(), self.w.show()]})
    }
}
impl<T: U> Layouts for Gen<T> { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Gen<T>, v), core::mem::offset_of!(Gen<T>, w)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct W64 {
    pub f0: u8,
    pub f1: u8,
    pub f2: u8,
    pub f3: u8,
    pub f4: u8,
    pub f5: u8,
    pub f6: u8,
    pub f7: u8,
    pub f8: u8,
    pub f9: u8,
    pub f10: u8,
    pub f11: u8,
    pub f12: u8,
    pub f13: u8,
    pub f14: u8,
    pub f15: u8,
    pub f16: u8,
    pub f17: u8,
    pub f18: u8,
    pub f19: u8,
    pub f20: u8,
    pub f21: u8,
    pub f22: u8,
    pub f23: u8,
    pub f24: u8,
    pub f25: u8,
    pub f26: u8,
    pub f27: u8,
    pub f28: u8,
    pub f29: u8,
    pub f30: u8,
    pub f31: u8,
    pub f32: u8,
    pub f33: u8,
    pub f34: u8,
    pub f35: u8,
    pub f36: u8,
    pub f37: u8,
    pub f38: u8,
    pub f39: u8,
    pub f40: u8,
    pub f41: u8,
    pub f42: u8,
    pub f43: u8,
    pub f44: u8,
    pub f45: u8,
    pub f46: u8,
    pub f47: u8,
    pub f48: u8,
    pub f49: u8,
    pub f50: u8,
    pub f51: u8,
    pub f52: u8,
    pub f53: u8,
    pub f54: u8,
    pub f55: u8,
    pub f56: u8,
    pub f57: u8,
    pub f58: u8,
    pub f59: u8,
    pub f60: u8,
    pub f61: u8,
    pub f62: u8,
    pub f63: u8,
}
impl U for W64 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        W64 { f0: U::make(&f[0]), f1: U::make(&f[1]), f2: U::make(&f[2]), f3: U::make(&f[3]), f4: U::make(&f[4]), f5: U::make(&f[5]), f6: U::make(&f[6]), f7: U::make(&f[7]), f8: U::make(&f[8]), f9: U::make(&f[9]), f10: U::make(&f[10]), f11: U::make(&f[11]), f12: U::make(&f[12]), f13: U::make(&f[13]), f14: U::make(&f[14]), f15: U::make(&f[15]), f16: U::make(&f[16]), f17: U::make(&f[17]), f18: U::make(&f[18]), f19: U::make(&f[19]), f20: U::make(&f[20]), f21: U::make(&f[21]), f22: U::make(&f[22]), f23: U::make(&f[23]), f24: U::make(&f[24]), f25: U::make(&f[25]), f26: U::make(&f[26]), f27: U::make(&f[27]), f28: U::make(&f[28]), f29: U::make(&f[29]), f30: U::make(&f[30]), f31: U::make(&f[31]), f32: U::make(&f[32]), f33: U::make(&f[33]), f34: U::make(&f[34]), f35: U::make(&f[35]), f36: U::make(&f[36]), f37: U::make(&f[37]), f38: U::make(&f[38]), f39: U::make(&f[39]), f40: U::make(&f[40]), f41: U::make(&f[41]), f42: U::make(&f[42]), f43: U::make(&f[43]), f44: U::make(&f[44]), f45: U::make(&f[45]), f46: U::make(&f[46]), f47: U::make(&f[47]), f48: U::make(&f[48]), f49: U::make(&f[49]), f50: U::make(&f[50]), f51: U::make(&f[51]), f52: U::make(&f[52]), f53: U::make(&f[53]), f54: U::make(&f[54]), f55: U::make(&f[55]), f56: U::make(&f[56]), f57: U::make(&f[57]), f58: U::make(&f[58]), f59: U::make(&f[59]), f60: U::make(&f[60]), f61: U::make(&f[61]), f62: U::make(&f[62]), f63: U::make(&f[63]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.f0.show(), self.f1.show(), self.f2.show(), self.f3.show(), self.f4.show(), self.f5.show(), self.f6.show(), self.f7.show(), self.f8.show(), self.f9.show(), self.f10.show(), self.f11.show(), self.f12.show(), self.f13.show(), self.f14.show(), self.f15.show(), self.f16.show(), self.f17.show(), self.f18.show(), self.f19.show(), self.f20.show(), self.f21.show(), self.f22.show(), self.f23.show(), self.f24.show(), self.f25.show(), self.f26.show(), self.f27.show(), self.f28.show(), self.f29.show(), self.f30.show(), self.f31.show(), self.f32.show(), self.f33.show(), self.f34.show(), self.f35.show(), self.f36.show(), self.f37.show(), self.f38.show(), self.f39.show(), self.f40.show(), self.f41.show(), self.f42.show(), self.f43.show(), self.f44.show(), self.f45.show(), self.f46.show(), self.f47.show(), self.f48.show(), self.f49.show(), self.f50.show(), self.f51.show(), self.f52.show(), self.f53.show(), self.f54.show(), self.f55.show(), self.f56.show(), self.f57.show(), self.f58.show(), self.f59.show(), self.f60.show(), self.f61.show(), self.f62.show(), self.f63.show()]})
    }
}
impl Layouts for W64 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(W64, f0), core::mem::offset_of!(W64, f1), core::mem::offset_of!(W64, f2), core::mem::offset_of!(W64, f3), core::mem::offset_of!(W64, f4), core::mem::offset_of!(W64, f5), core::mem::offset_of!(W64, f6), core::mem::offset_of!(W64, f7), core::mem::offset_of!(W64, f8), core::mem::offset_of!(W64, f9), core::mem::offset_of!(W64, f10), core::mem::offset_of!(W64, f11), core::mem::offset_of!(W64, f12), core::mem::offset_of!(W64, f13), core::mem::offset_of!(W64, f14), core::mem::offset_of!(W64, f15), core::mem::offset_of!(W64, f16), core::mem::offset_of!(W64, f17), core::mem::offset_of!(W64, f18), core::mem::offset_of!(W64, f19), core::mem::offset_of!(W64, f20), core::mem::offset_of!(W64, f21), core::mem::offset_of!(W64, f22), core::mem::offset_of!(W64, f23), core::mem::offset_of!(W64, f24), core::mem::offset_of!(W64, f25), core::mem::offset_of!(W64, f26), core::mem::offset_of!(W64, f27), core::mem::offset_of!(W64, f28), core::mem::offset_of!(W64, f29), core::mem::offset_of!(W64, f30), core::mem::offset_of!(W64, f31), core::mem::offset_of!(W64, f32), core::mem::offset_of!(W64, f33), core::mem::offset_of!(W64, f34), core::mem::offset_of!(W64, f35), core::mem::offset_of!(W64, f36), core::mem::offset_of!(W64, f37), core::mem::offset_of!(W64, f38), core::mem::offset_of!(W64, f39), core::mem::offset_of!(W64, f40), core::mem::offset_of!(W64, f41), core::mem::offset_of!(W64, f42), core::mem::offset_of!(W64, f43), core::mem::offset_of!(W64, f44), core::mem::offset_of!(W64, f45), core::mem::offset_of!(W64, f46), core::mem::offset_of!(W64, f47), core::mem::offset_of!(W64, f48), core::mem::offset_of!(W64, f49), core::mem::offset_of!(W64, f50), core::mem::offset_of!(W64, f51), core::mem::offset_of!(W64, f52), core::mem::offset_of!(W64, f53), core::mem::offset_of!(W64, f54), core::mem::offset_of!(W64, f55), core::mem::offset_of!(W64, f56), core::mem::offset_of!(W64, f57), core::mem::offset_of!(W64, f58), core::mem::offset_of!(W64, f59), core::mem::offset_of!(W64, f60), core::mem::offset_of!(W64, f61), core::mem::offset_of!(W64, f62), core::mem::offset_of!(W64, f63)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct W63 {
    pub f0: u8,
    pub f1: u8,
    pub f2: u8,
    pub f3: u8,
    pub f4: u8,
    pub f5: u8,
    pub f6: u8,
    pub f7: u8,
    pub f8: u8,
    pub f9: u8,
    pub f10: u8,
    pub f11: u8,
    pub f12: u8,
    pub f13: u8,
    pub f14: u8,
    pub f15: u8,
    pub f16: u8,
    pub f17: u8,
    pub f18: u8,
    pub f19: u8,
    pub f20: u8,
    pub f21: u8,
    pub f22: u8,
    pub f23: u8,
    pub f24: u8,
    pub f25: u8,
    pub f26: u8,
    pub f27: u8,
    pub f28: u8,
    pub f29: u8,
    pub f30: u8,
    pub f31: u8,
    pub f32: u8,
    pub f33: u8,
    pub f34: u8,
    pub f35: u8,
    pub f36: u8,
    pub f37: u8,
    pub f38: u8,
    pub f39: u8,
    pub f40: u8,
    pub f41: u8,
    pub f42: u8,
    pub f43: u8,
    pub f44: u8,
    pub f45: u8,
    pub f46: u8,
    pub f47: u8,
    pub f48: u8,
    pub f49: u8,
    pub f50: u8,
    pub f51: u8,
    pub f52: u8,
    pub f53: u8,
    pub f54: u8,
    pub f55: u8,
    pub f56: u8,
    pub f57: u8,
    pub f58: u8,
    pub f59: u8,
    pub f60: u8,
    pub f61: u8,
    pub f62: u8,
}
impl U for W63 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        W63 { f0: U::make(&f[0]), f1: U::make(&f[1]), f2: U::make(&f[2]), f3: U::make(&f[3]), f4: U::make(&f[4]), f5: U::make(&f[5]), f6: U::make(&f[6]), f7: U::make(&f[7]), f8: U::make(&f[8]), f9: U::make(&f[9]), f10: U::make(&f[10]), f11: U::make(&f[11]), f12: U::make(&f[12]), f13: U::make(&f[13]), f14: U::make(&f[14]), f15: U::make(&f[15]), f16: U::make(&f[16]), f17: U::make(&f[17]), f18: U::make(&f[18]), f19: U::make(&f[19]), f20: U::make(&f[20]), f21: U::make(&f[21]), f22: U::make(&f[22]), f23: U::make(&f[23]), f24: U::make(&f[24]), f25: U::make(&f[25]), f26: U::make(&f[26]), f27: U::make(&f[27]), f28: U::make(&f[28]), f29: U::make(&f[29]), f30: U::make(&f[30]), f31: U::make(&f[31]), f32: U::make(&f[32]), f33: U::make(&f[33]), f34: U::make(&f[34]), f35: U::make(&f[35]), f36: U::make(&f[36]), f37: U::make(&f[37]), f38: U::make(&f[38]), f39: U::make(&f[39]), f40: U::make(&f[40]), f41: U::make(&f[41]), f42: U::make(&f[42]), f43: U::make(&f[43]), f44: U::make(&f[44]), f45: U::make(&f[45]), f46: U::make(&f[46]), f47: U::make(&f[47]), f48: U::make(&f[48]), f49: U::make(&f[49]), f50: U::make(&f[50]), f51: U::make(&f[51]), f52: U::make(&f[52]), f53: U::make(&f[53]), f54: U::make(&f[54]), f55: U::make(&f[55]), f56: U::make(&f[56]), f57: U::make(&f[57]), f58: U::make(&f[58]), f59: U::make(&f[59]), f60: U::make(&f[60]), f61: U::make(&f[61]), f62: U::make(&f[62]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.f0.show(), self.f1.show(), self.f2.show(), self.f3.show(), self.f4.show(), self.f5.show(), self.f6.show(), self.f7.show(), self.f8.show(), self.f9.show(), self.f10.show(), self.f11.show(), self.f12.show(), self.f13.show(), self.f14.show(), self.f15.show(), self.f16.show(), self.f17.show(), self.f18.show(), self.f19.show(), self.f20.show(), self.f21.show(), self.f22.show(), self.f23.show(), self.f24.show(), self.f25.show(), self.f26.show(), self.f27.show(), self.f28.show(), self.f29.show(), self.f30.show(), self.f31.show(), self.f32.show(), self.f33.show(), self.f34.show(), self.f35.show(), self.f36.show(), self.f37.show(), self.f38.show(), self.f39.show(), self.f40.show(), self.f41.show(), self.f42.show(), self.f43.show(), self.f44.show(), self.f45.show(), self.f46.show(), self.f47.show(), self.f48.show(), self.f49.show(), self.f50.show(), self.f51.show(), self.f52.show(), self.f53.show(), self.f54.show(), self.f55.show(), self.f56.show(), self.f57.show(), self.f58.show(), self.f59.show(), self.f60.show(), self.f61.show(), self.f62.show()]})
    }
}
impl Layouts for W63 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(W63, f0), core::mem::offset_of!(W63, f1), core::mem::offset_of!(W63, f2), core::mem::offset_of!(W63, f3), core::mem::offset_of!(W63, f4), core::mem::offset_of!(W63, f5), core::mem::offset_of!(W63, f6), core::mem::offset_of!(W63, f7), core::mem::offset_of!(W63, f8), core::mem::offset_of!(W63, f9), core::mem::offset_of!(W63, f10), core::mem::offset_of!(W63, f11), core::mem::offset_of!(W63, f12), core::mem::offset_of!(W63, f13), core::mem::offset_of!(W63, f14), core::mem::offset_of!(W63, f15), core::mem::offset_of!(W63, f16), core::mem::offset_of!(W63, f17), core::mem::offset_of!(W63, f18), core::mem::offset_of!(W63, f19), core::mem::offset_of!(W63, f20), core::mem::offset_of!(W63, f21), core::mem::offset_of!(W63, f22), core::mem::offset_of!(W63, f23), core::mem::offset_of!(W63, f24), core::mem::offset_of!(W63, f25), core::mem::offset_of!(W63, f26), core::mem::offset_of!(W63, f27), core::mem::offset_of!(W63, f28), core::mem::offset_of!(W63, f29), core::mem::offset_of!(W63, f30), core::mem::offset_of!(W63, f31), core::mem::offset_of!(W63, f32), core::mem::offset_of!(W63, f33), core::mem::offset_of!(W63, f34), core::mem::offset_of!(W63, f35), core::mem::offset_of!(W63, f36), core::mem::offset_of!(W63, f37), core::mem::offset_of!(W63, f38), core::mem::offset_of!(W63, f39), core::mem::offset_of!(W63, f40), core::mem::offset_of!(W63, f41), core::mem::offset_of!(W63, f42), core::mem::offset_of!(W63, f43), core::mem::offset_of!(W63, f44), core::mem::offset_of!(W63, f45), core::mem::offset_of!(W63, f46), core::mem::offset_of!(W63, f47), core::mem::offset_of!(W63, f48), core::mem::offset_of!(W63, f49), core::mem::offset_of!(W63, f50), core::mem::offset_of!(W63, f51), core::mem::offset_of!(W63, f52), core::mem::offset_of!(W63, f53), core::mem::offset_of!(W63, f54), core::mem::offset_of!(W63, f55), core::mem::offset_of!(W63, f56), core::mem::offset_of!(W63, f57), core::mem::offset_of!(W63, f58), core::mem::offset_of!(W63, f59), core::mem::offset_of!(W63, f60), core::mem::offset_of!(W63, f61), core::mem::offset_of!(W63, f62)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
#[facet(invariants = "ordered")]
pub struct Inv {
    pub lo: u8,
    pub hi: u8,
}
impl Inv { fn ordered(&self) -> bool { self.lo <= self.hi } }
impl U for Inv {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Inv { lo: U::make(&f[0]), hi: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.lo.show(), self.hi.show()]})
    }
}
impl Layouts for Inv { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Inv, lo), core::mem::offset_of!(Inv, hi)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
#[facet(invariants = "ordered")]
#[facet(invariants = "short")]
pub struct Inv2 {
    pub t: Tk,
    pub lo: u8,
    pub hi: u8,
    pub v: Vec<u8>,
}
impl Inv2 { fn ordered(&self) -> bool { self.lo <= self.hi } fn short(&self) -> bool { self.v.len() <= 1 } }
impl U for Inv2 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Inv2 { t: U::make(&f[0]), lo: U::make(&f[1]), hi: U::make(&f[2]), v: U::make(&f[3]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.t.show(), self.lo.show(), self.hi.show(), self.v.show()]})
    }
}
impl Layouts for Inv2 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Inv2, t), core::mem::offset_of!(Inv2, lo), core::mem::offset_of!(Inv2, hi), core::mem::offset_of!(Inv2, v)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
#[facet(invariants = "even")]
#[facet(invariants = "named")]
#[facet(invariants = "has")]
pub struct Inv3 {
    pub n: u16,
    pub s: String,
    pub o: Option<Tk>,
}
impl Inv3 { fn even(&self) -> bool { self.n % 2 == 0 } fn named(&self) -> bool { !self.s.is_empty() } fn has(&self) -> bool { self.o.is_some() } }
impl U for Inv3 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Inv3 { n: U::make(&f[0]), s: U::make(&f[1]), o: U::make(&f[2]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.n.show(), self.s.show(), self.o.show()]})
    }
}
impl Layouts for Inv3 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Inv3, n), core::mem::offset_of!(Inv3, s), core::mem::offset_of!(Inv3, o)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct HasInv {
    pub i: Inv,
    pub t: Tk,
}
impl U for HasInv {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        HasInv { i: U::make(&f[0]), t: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.i.show(), self.t.show()]})
    }
}
impl Layouts for HasInv { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(HasInv, i), core::mem::offset_of!(HasInv, t)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Arr {
    pub a: [Tk;2],
    pub r: Arc<Tk>,
    pub u: (Tk,u8),
}
impl U for Arr {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Arr { a: U::make(&f[0]), r: U::make(&f[1]), u: U::make(&f[2]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.r.show(), self.u.show()]})
    }
}
impl Layouts for Arr { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Arr, a), core::mem::offset_of!(Arr, r), core::mem::offset_of!(Arr, u)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Ints {
    pub a: u8,
    pub b: u16,
    pub c: u32,
    pub d: u64,
    pub e: usize,
    pub f: i8,
    pub g: i16,
    pub h: i32,
    pub i: i64,
    pub j: isize,
}
impl U for Ints {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Ints { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]), d: U::make(&f[3]), e: U::make(&f[4]), f: U::make(&f[5]), g: U::make(&f[6]), h: U::make(&f[7]), i: U::make(&f[8]), j: U::make(&f[9]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show(), self.d.show(), self.e.show(), self.f.show(), self.g.show(), self.h.show(), self.i.show(), self.j.show()]})
    }
}
impl Layouts for Ints { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Ints, a), core::mem::offset_of!(Ints, b), core::mem::offset_of!(Ints, c), core::mem::offset_of!(Ints, d), core::mem::offset_of!(Ints, e), core::mem::offset_of!(Ints, f), core::mem::offset_of!(Ints, g), core::mem::offset_of!(Ints, h), core::mem::offset_of!(Ints, i), core::mem::offset_of!(Ints, j)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Flts {
    pub x: f32,
    pub y: f64,
}
impl U for Flts {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Flts { x: U::make(&f[0]), y: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.x.show(), self.y.show()]})
    }
}
impl Layouts for Flts { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Flts, x), core::mem::offset_of!(Flts, y)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct NzU {
    pub a: NonZeroU8,
    pub b: NonZeroU16,
    pub c: NonZeroU32,
    pub d: NonZeroU64,
    pub e: NonZeroUsize,
}
impl U for NzU {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        NzU { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]), d: U::make(&f[3]), e: U::make(&f[4]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show(), self.d.show(), self.e.show()]})
    }
}
impl Layouts for NzU { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(NzU, a), core::mem::offset_of!(NzU, b), core::mem::offset_of!(NzU, c), core::mem::offset_of!(NzU, d), core::mem::offset_of!(NzU, e)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct NzI {
    pub f: NonZeroI8,
    pub g: NonZeroI16,
    pub h: NonZeroI32,
    pub i: NonZeroI64,
    pub j: NonZeroIsize,
}
impl U for NzI {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        NzI { f: U::make(&f[0]), g: U::make(&f[1]), h: U::make(&f[2]), i: U::make(&f[3]), j: U::make(&f[4]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.f.show(), self.g.show(), self.h.show(), self.i.show(), self.j.show()]})
    }
}
impl Layouts for NzI { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(NzI, f), core::mem::offset_of!(NzI, g), core::mem::offset_of!(NzI, h), core::mem::offset_of!(NzI, i), core::mem::offset_of!(NzI, j)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Person {
    pub name: String,
    pub age: u64,
    pub ok: bool,
    pub nick: Option<String>,
    pub tags: Vec<String>,
}
impl U for Person {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Person { name: U::make(&f[0]), age: U::make(&f[1]), ok: U::make(&f[2]), nick: U::make(&f[3]), tags: U::make(&f[4]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.name.show(), self.age.show(), self.ok.show(), self.nick.show(), self.tags.show()]})
    }
}
impl Layouts for Person { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Person, name), core::mem::offset_of!(Person, age), core::mem::offset_of!(Person, ok), core::mem::offset_of!(Person, nick), core::mem::offset_of!(Person, tags)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Ren {
    #[facet(rename = "alpha")]
    pub a: u8,
    #[facet(rename = "be ta")]
    pub b: String,
    pub c: Option<i16>,
}
impl U for Ren {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Ren { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show()]})
    }
}
impl Layouts for Ren { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Ren, a), core::mem::offset_of!(Ren, b), core::mem::offset_of!(Ren, c)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct DfF {
    #[facet(default)]
    pub a: u8,
    #[facet(default = "mk_text")]
    pub b: String,
    #[facet(default)]
    pub c: Option<u8>,
    pub d: u8,
    #[facet(default = "mk_list")]
    pub e: Vec<u8>,
}
fn mk_text() -> String { "dflt".to_string() } fn mk_list() -> Vec<u8> { vec![1, 2] }
impl U for DfF {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        DfF { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]), d: U::make(&f[3]), e: U::make(&f[4]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show(), self.d.show(), self.e.show()]})
    }
}
impl Layouts for DfF { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(DfF, a), core::mem::offset_of!(DfF, b), core::mem::offset_of!(DfF, c), core::mem::offset_of!(DfF, d), core::mem::offset_of!(DfF, e)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
#[facet(default)]
pub struct DfW {
    pub a: u8,
    pub b: String,
    pub c: Vec<u8>,
    pub d: Option<i32>,
}
impl Default for DfW { fn default() -> Self { DfW { a: 7, b: "whole".to_string(), c: vec![3], d: Some(-4) } } }
impl U for DfW {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        DfW { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]), d: U::make(&f[3]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show(), self.d.show()]})
    }
}
impl Layouts for DfW { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(DfW, a), core::mem::offset_of!(DfW, b), core::mem::offset_of!(DfW, c), core::mem::offset_of!(DfW, d)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
#[facet(deny_unknown_fields)]
pub struct Deny {
    pub a: u8,
    pub b: Option<u8>,
}
impl U for Deny {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Deny { a: U::make(&f[0]), b: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show()]})
    }
}
impl Layouts for Deny { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Deny, a), core::mem::offset_of!(Deny, b)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
#[facet(deny_unknown_fields)]
pub struct DenyD {
    #[facet(default)]
    #[facet(rename = "A")]
    pub a: u8,
    pub b: String,
}
impl U for DenyD {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        DenyD { a: U::make(&f[0]), b: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show()]})
    }
}
impl Layouts for DenyD { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(DenyD, a), core::mem::offset_of!(DenyD, b)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Outer {
    pub d: DfF,
    pub n: Vec<DfW>,
    pub r: Option<Ren>,
    pub q: Option<Option<u8>>,
    pub v: Vec<Vec<i32>>,
}
impl U for Outer {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Outer { d: U::make(&f[0]), n: U::make(&f[1]), r: U::make(&f[2]), q: U::make(&f[3]), v: U::make(&f[4]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.d.show(), self.n.show(), self.r.show(), self.q.show(), self.v.show()]})
    }
}
impl Layouts for Outer { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Outer, d), core::mem::offset_of!(Outer, n), core::mem::offset_of!(Outer, r), core::mem::offset_of!(Outer, q), core::mem::offset_of!(Outer, v)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct NsD {
    pub d: Deny,
    pub v: Vec<Deny>,
    pub n: u8,
}
impl U for NsD {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        NsD { d: U::make(&f[0]), v: U::make(&f[1]), n: U::make(&f[2]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.d.show(), self.v.show(), self.n.show()]})
    }
}
impl Layouts for NsD { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(NsD, d), core::mem::offset_of!(NsD, v), core::mem::offset_of!(NsD, n)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
#[facet(deny_unknown_fields)]
pub struct DnS {
    pub p: Flat,
    pub o: Option<DfF>,
    pub d: DenyD,
}
impl U for DnS {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        DnS { p: U::make(&f[0]), o: U::make(&f[1]), d: U::make(&f[2]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.p.show(), self.o.show(), self.d.show()]})
    }
}
impl Layouts for DnS { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(DnS, p), core::mem::offset_of!(DnS, o), core::mem::offset_of!(DnS, d)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
#[facet(default)]
pub struct DwN {
    pub i: DfW,
    pub f: DfF,
    pub l: Vec<Ren>,
    pub k: String,
}
impl Default for DwN { fn default() -> Self { DwN { i: DfW { a: 1, b: "in".to_string(), c: vec![], d: None }, f: DfF { a: 9, b: "f".to_string(), c: Some(3), d: 8, e: vec![4] }, l: vec![Ren { a: 5, b: "l".to_string(), c: Some(-6) }], k: "k".to_string() } } }
impl U for DwN {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        DwN { i: U::make(&f[0]), f: U::make(&f[1]), l: U::make(&f[2]), k: U::make(&f[3]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.i.show(), self.f.show(), self.l.show(), self.k.show()]})
    }
}
impl Layouts for DwN { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(DwN, i), core::mem::offset_of!(DwN, f), core::mem::offset_of!(DwN, l), core::mem::offset_of!(DwN, k)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct DfN {
    #[facet(default)]
    pub a: DfW,
    #[facet(default)]
    pub b: Option<DfF>,
    #[facet(default)]
    pub c: Vec<u8>,
    pub d: Option<Flat>,
}
impl U for DfN {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        DfN { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]), d: U::make(&f[3]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show(), self.d.show()]})
    }
}
impl Layouts for DfN { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(DfN, a), core::mem::offset_of!(DfN, b), core::mem::offset_of!(DfN, c), core::mem::offset_of!(DfN, d)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Node {
    pub v: i64,
    pub kids: Vec<Node>,
}
impl U for Node {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Node { v: U::make(&f[0]), kids: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.v.show(), self.kids.show()]})
    }
}
impl Layouts for Node { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Node, v), core::mem::offset_of!(Node, kids)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
#[facet(invariants = "ordered")]
pub struct InvJ {
    pub lo: i32,
    pub hi: i32,
}
impl InvJ { fn ordered(&self) -> bool { self.lo <= self.hi } }
impl U for InvJ {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        InvJ { lo: U::make(&f[0]), hi: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.lo.show(), self.hi.show()]})
    }
}
impl Layouts for InvJ { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(InvJ, lo), core::mem::offset_of!(InvJ, hi)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(u8)]
pub enum Shp {
    Nothing,
    One(u32),
    Pair(u8, String),
    Rec {
        x: f64,
        s: Option<bool>,
    },
    Deep(Person),
    Only {
        z: i8,
    },
}
impl U for Shp {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => Shp::Nothing,
            2 => Shp::One(U::make(&f[0])),
            3 => Shp::Pair(U::make(&f[0]), U::make(&f[1])),
            4 => Shp::Rec { x: U::make(&f[0]), s: U::make(&f[1]) },
            5 => Shp::Deep(U::make(&f[0])),
            6 => Shp::Only { z: U::make(&f[0]) },
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            Shp::Nothing => json!({"t": "en", "i": 1, "f": []}),
            Shp::One(a0) => json!({"t": "en", "i": 2, "f": [a0.show()]}),
            Shp::Pair(a0, a1) => json!({"t": "en", "i": 3, "f": [a0.show(), a1.show()]}),
            Shp::Rec { x, s } => json!({"t": "en", "i": 4, "f": [x.show(), s.show()]}),
            Shp::Deep(a0) => json!({"t": "en", "i": 5, "f": [a0.show()]}),
            Shp::Only { z } => json!({"t": "en", "i": 6, "f": [z.show()]}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct JOut {
    pub e: Shp,
    pub es: Vec<Shp>,
    pub m: HashMap<String,u8>,
    pub k: BTreeMap<i32,Shp>,
    pub o: Option<Shp>,
}
impl U for JOut {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        JOut { e: U::make(&f[0]), es: U::make(&f[1]), m: U::make(&f[2]), k: U::make(&f[3]), o: U::make(&f[4]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.e.show(), self.es.show(), self.m.show(), self.k.show(), self.o.show()]})
    }
}
impl Layouts for JOut { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(JOut, e), core::mem::offset_of!(JOut, es), core::mem::offset_of!(JOut, m), core::mem::offset_of!(JOut, k), core::mem::offset_of!(JOut, o)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct MpS {
    pub a: u8,
    pub b: u16,
    pub c: u32,
    pub d: u64,
    pub f: i8,
    pub g: i16,
    pub h: i32,
    pub i: i64,
    pub s: String,
    pub t: bool,
}
impl U for MpS {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        MpS { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]), d: U::make(&f[3]), f: U::make(&f[4]), g: U::make(&f[5]), h: U::make(&f[6]), i: U::make(&f[7]), s: U::make(&f[8]), t: U::make(&f[9]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show(), self.d.show(), self.f.show(), self.g.show(), self.h.show(), self.i.show(), self.s.show(), self.t.show()]})
    }
}
impl Layouts for MpS { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(MpS, a), core::mem::offset_of!(MpS, b), core::mem::offset_of!(MpS, c), core::mem::offset_of!(MpS, d), core::mem::offset_of!(MpS, f), core::mem::offset_of!(MpS, g), core::mem::offset_of!(MpS, h), core::mem::offset_of!(MpS, i), core::mem::offset_of!(MpS, s), core::mem::offset_of!(MpS, t)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct MpN {
    pub k: MpI,
    pub name: String,
    pub z: MpI,
}
impl U for MpN {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        MpN { k: U::make(&f[0]), name: U::make(&f[1]), z: U::make(&f[2]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.k.show(), self.name.show(), self.z.show()]})
    }
}
impl Layouts for MpN { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(MpN, k), core::mem::offset_of!(MpN, name), core::mem::offset_of!(MpN, z)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct MpI {
    pub id: u32,
    pub x: i64,
}
impl U for MpI {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        MpI { id: U::make(&f[0]), x: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.id.show(), self.x.show()]})
    }
}
impl Layouts for MpI { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(MpI, id), core::mem::offset_of!(MpI, x)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct MpL {
    pub a: String,
    pub b: u8,
    pub c: bool,
}
impl U for MpL {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        MpL { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show()]})
    }
}
impl Layouts for MpL { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(MpL, a), core::mem::offset_of!(MpL, b), core::mem::offset_of!(MpL, c)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Mp15 {
    pub g0: u8,
    pub g1: u8,
    pub g2: u8,
    pub g3: u8,
    pub g4: u8,
    pub g5: u8,
    pub g6: u8,
    pub g7: u8,
    pub g8: u8,
    pub g9: u8,
    pub g10: u8,
    pub g11: u8,
    pub g12: u8,
    pub g13: u8,
    pub g14: u8,
}
impl U for Mp15 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Mp15 { g0: U::make(&f[0]), g1: U::make(&f[1]), g2: U::make(&f[2]), g3: U::make(&f[3]), g4: U::make(&f[4]), g5: U::make(&f[5]), g6: U::make(&f[6]), g7: U::make(&f[7]), g8: U::make(&f[8]), g9: U::make(&f[9]), g10: U::make(&f[10]), g11: U::make(&f[11]), g12: U::make(&f[12]), g13: U::make(&f[13]), g14: U::make(&f[14]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.g0.show(), self.g1.show(), self.g2.show(), self.g3.show(), self.g4.show(), self.g5.show(), self.g6.show(), self.g7.show(), self.g8.show(), self.g9.show(), self.g10.show(), self.g11.show(), self.g12.show(), self.g13.show(), self.g14.show()]})
    }
}
impl Layouts for Mp15 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Mp15, g0), core::mem::offset_of!(Mp15, g1), core::mem::offset_of!(Mp15, g2), core::mem::offset_of!(Mp15, g3), core::mem::offset_of!(Mp15, g4), core::mem::offset_of!(Mp15, g5), core::mem::offset_of!(Mp15, g6), core::mem::offset_of!(Mp15, g7), core::mem::offset_of!(Mp15, g8), core::mem::offset_of!(Mp15, g9), core::mem::offset_of!(Mp15, g10), core::mem::offset_of!(Mp15, g11), core::mem::offset_of!(Mp15, g12), core::mem::offset_of!(Mp15, g13), core::mem::offset_of!(Mp15, g14)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Mp16 {
    pub g0: i16,
    pub g1: i16,
    pub g2: i16,
    pub g3: i16,
    pub g4: i16,
    pub g5: i16,
    pub g6: i16,
    pub g7: i16,
    pub g8: i16,
    pub g9: i16,
    pub g10: i16,
    pub g11: i16,
    pub g12: i16,
    pub g13: i16,
    pub g14: i16,
    pub g15: i16,
}
impl U for Mp16 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Mp16 { g0: U::make(&f[0]), g1: U::make(&f[1]), g2: U::make(&f[2]), g3: U::make(&f[3]), g4: U::make(&f[4]), g5: U::make(&f[5]), g6: U::make(&f[6]), g7: U::make(&f[7]), g8: U::make(&f[8]), g9: U::make(&f[9]), g10: U::make(&f[10]), g11: U::make(&f[11]), g12: U::make(&f[12]), g13: U::make(&f[13]), g14: U::make(&f[14]), g15: U::make(&f[15]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.g0.show(), self.g1.show(), self.g2.show(), self.g3.show(), self.g4.show(), self.g5.show(), self.g6.show(), self.g7.show(), self.g8.show(), self.g9.show(), self.g10.show(), self.g11.show(), self.g12.show(), self.g13.show(), self.g14.show(), self.g15.show()]})
    }
}
impl Layouts for Mp16 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Mp16, g0), core::mem::offset_of!(Mp16, g1), core::mem::offset_of!(Mp16, g2), core::mem::offset_of!(Mp16, g3), core::mem::offset_of!(Mp16, g4), core::mem::offset_of!(Mp16, g5), core::mem::offset_of!(Mp16, g6), core::mem::offset_of!(Mp16, g7), core::mem::offset_of!(Mp16, g8), core::mem::offset_of!(Mp16, g9), core::mem::offset_of!(Mp16, g10), core::mem::offset_of!(Mp16, g11), core::mem::offset_of!(Mp16, g12), core::mem::offset_of!(Mp16, g13), core::mem::offset_of!(Mp16, g14), core::mem::offset_of!(Mp16, g15)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct MpX {
    pub n123456789012345678901234567890: u64,
    pub m1234567890123456789012345678901: i64,
    pub k: Mp0,
    pub w: MpT,
    pub é: bool,
}
impl U for MpX {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        MpX { n123456789012345678901234567890: U::make(&f[0]), m1234567890123456789012345678901: U::make(&f[1]), k: U::make(&f[2]), w: U::make(&f[3]), é: U::make(&f[4]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.n123456789012345678901234567890.show(), self.m1234567890123456789012345678901.show(), self.k.show(), self.w.show(), self.é.show()]})
    }
}
impl Layouts for MpX { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(MpX, n123456789012345678901234567890), core::mem::offset_of!(MpX, m1234567890123456789012345678901), core::mem::offset_of!(MpX, k), core::mem::offset_of!(MpX, w), core::mem::offset_of!(MpX, é)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Mp0 {
}
impl U for Mp0 {
    fn make(j: &J) -> Self {
        let _ = j;
        Mp0 {  }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": []})
    }
}
impl Layouts for Mp0 { fn offsets() -> Option<Vec<usize>> { Some(vec![]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct MpT(pub u32, pub String, pub i8);
impl U for MpT {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        MpT(U::make(&f[0]), U::make(&f[1]), U::make(&f[2]))
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.0.show(), self.1.show(), self.2.show()]})
    }
}
impl Layouts for MpT { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(MpT, 0), core::mem::offset_of!(MpT, 1), core::mem::offset_of!(MpT, 2)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Cfg {
    pub title: String,
    pub port: u16,
    pub ratio: f64,
    pub on: bool,
    pub own: CfgO,
    pub opt: Option<u8>,
    pub names: Vec<String>,
    pub mode: Mode,
}
impl U for Cfg {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Cfg { title: U::make(&f[0]), port: U::make(&f[1]), ratio: U::make(&f[2]), on: U::make(&f[3]), own: U::make(&f[4]), opt: U::make(&f[5]), names: U::make(&f[6]), mode: U::make(&f[7]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.title.show(), self.port.show(), self.ratio.show(), self.on.show(), self.own.show(), self.opt.show(), self.names.show(), self.mode.show()]})
    }
}
impl Layouts for Cfg { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Cfg, title), core::mem::offset_of!(Cfg, port), core::mem::offset_of!(Cfg, ratio), core::mem::offset_of!(Cfg, on), core::mem::offset_of!(Cfg, own), core::mem::offset_of!(Cfg, opt), core::mem::offset_of!(Cfg, names), core::mem::offset_of!(Cfg, mode)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct CfgO {
    pub name: String,
    pub n: i64,
}
impl U for CfgO {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        CfgO { name: U::make(&f[0]), n: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.name.show(), self.n.show()]})
    }
}
impl Layouts for CfgO { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(CfgO, name), core::mem::offset_of!(CfgO, n)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(u8)]
pub enum Mode {
    Off,
    Level(u8),
    Both(u8, String),
    Full {
        a: i32,
        b: Option<String>,
    },
}
impl U for Mode {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => Mode::Off,
            2 => Mode::Level(U::make(&f[0])),
            3 => Mode::Both(U::make(&f[0]), U::make(&f[1])),
            4 => Mode::Full { a: U::make(&f[0]), b: U::make(&f[1]) },
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            Mode::Off => json!({"t": "en", "i": 1, "f": []}),
            Mode::Level(a0) => json!({"t": "en", "i": 2, "f": [a0.show()]}),
            Mode::Both(a0, a1) => json!({"t": "en", "i": 3, "f": [a0.show(), a1.show()]}),
            Mode::Full { a, b } => json!({"t": "en", "i": 4, "f": [a.show(), b.show()]}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Wrap(pub u16);
impl U for Wrap {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Wrap(U::make(&f[0]))
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.0.show()]})
    }
}
impl Layouts for Wrap { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Wrap, 0)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct TomlM {
    pub m: HashMap<String,u8>,
    pub o: Option<CfgO>,
    pub l: Vec<Vec<i32>>,
    pub ms: Vec<Mode>,
    pub w: Wrap,
}
impl U for TomlM {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        TomlM { m: U::make(&f[0]), o: U::make(&f[1]), l: U::make(&f[2]), ms: U::make(&f[3]), w: U::make(&f[4]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.m.show(), self.o.show(), self.l.show(), self.ms.show(), self.w.show()]})
    }
}
impl Layouts for TomlM { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(TomlM, m), core::mem::offset_of!(TomlM, o), core::mem::offset_of!(TomlM, l), core::mem::offset_of!(TomlM, ms), core::mem::offset_of!(TomlM, w)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct TomlE {
    pub a: Mode,
    pub b: Option<Mode>,
    pub c: Vec<Shp>,
    pub d: HashMap<String,Mode>,
    pub f: Option<Option<u8>>,
    pub g: HashMap<String,CfgO>,
    pub h: Tv,
}
impl U for TomlE {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        TomlE { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]), d: U::make(&f[3]), f: U::make(&f[4]), g: U::make(&f[5]), h: U::make(&f[6]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show(), self.d.show(), self.f.show(), self.g.show(), self.h.show()]})
    }
}
impl Layouts for TomlE { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(TomlE, a), core::mem::offset_of!(TomlE, b), core::mem::offset_of!(TomlE, c), core::mem::offset_of!(TomlE, d), core::mem::offset_of!(TomlE, f), core::mem::offset_of!(TomlE, g), core::mem::offset_of!(TomlE, h)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(C)]
pub enum Tv {
    P(f32),
    O(Option<u8>, Option<String>),
    S {
        a: Option<u8>,
        b: bool,
        c: Mode,
    },
    N(CfgO),
    W {
        m: HashMap<String,i8>,
    },
    T(Wrap),
    L(Vec<i16>, u8),
}
impl U for Tv {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => Tv::P(U::make(&f[0])),
            2 => Tv::O(U::make(&f[0]), U::make(&f[1])),
            3 => Tv::S { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]) },
            4 => Tv::N(U::make(&f[0])),
            5 => Tv::W { m: U::make(&f[0]) },
            6 => Tv::T(U::make(&f[0])),
            7 => Tv::L(U::make(&f[0]), U::make(&f[1])),
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            Tv::P(a0) => json!({"t": "en", "i": 1, "f": [a0.show()]}),
            Tv::O(a0, a1) => json!({"t": "en", "i": 2, "f": [a0.show(), a1.show()]}),
            Tv::S { a, b, c } => json!({"t": "en", "i": 3, "f": [a.show(), b.show(), c.show()]}),
            Tv::N(a0) => json!({"t": "en", "i": 4, "f": [a0.show()]}),
            Tv::W { m } => json!({"t": "en", "i": 5, "f": [m.show()]}),
            Tv::T(a0) => json!({"t": "en", "i": 6, "f": [a0.show()]}),
            Tv::L(a0, a1) => json!({"t": "en", "i": 7, "f": [a0.show(), a1.show()]}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct TomlO {
    pub a: Option<CfgO>,
    pub b: Option<Wrap>,
    pub c: Option<Vec<Option<u8>>>,
    pub d: Option<bool>,
    pub e: Option<f32>,
    pub f: Option<Tv>,
    pub g: Option<String>,
}
impl U for TomlO {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        TomlO { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]), d: U::make(&f[3]), e: U::make(&f[4]), f: U::make(&f[5]), g: U::make(&f[6]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show(), self.d.show(), self.e.show(), self.f.show(), self.g.show()]})
    }
}
impl Layouts for TomlO { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(TomlO, a), core::mem::offset_of!(TomlO, b), core::mem::offset_of!(TomlO, c), core::mem::offset_of!(TomlO, d), core::mem::offset_of!(TomlO, e), core::mem::offset_of!(TomlO, f), core::mem::offset_of!(TomlO, g)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Ym {
    pub host: String,
    pub port: u64,
    pub in_: YmI,
}
impl U for Ym {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Ym { host: U::make(&f[0]), port: U::make(&f[1]), in_: U::make(&f[2]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.host.show(), self.port.show(), self.in_.show()]})
    }
}
impl Layouts for Ym { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Ym, host), core::mem::offset_of!(Ym, port), core::mem::offset_of!(Ym, in_)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct YmI {
    pub a: u64,
    pub b: String,
}
impl U for YmI {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        YmI { a: U::make(&f[0]), b: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show()]})
    }
}
impl Layouts for YmI { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(YmI, a), core::mem::offset_of!(YmI, b)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Form {
    pub name: String,
    pub n: u64,
    pub user: FormU,
}
impl U for Form {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Form { name: U::make(&f[0]), n: U::make(&f[1]), user: U::make(&f[2]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.name.show(), self.n.show(), self.user.show()]})
    }
}
impl Layouts for Form { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Form, name), core::mem::offset_of!(Form, n), core::mem::offset_of!(Form, user)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct FormU {
    pub age: u64,
    pub city: String,
    pub more: FormV,
}
impl U for FormU {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        FormU { age: U::make(&f[0]), city: U::make(&f[1]), more: U::make(&f[2]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.age.show(), self.city.show(), self.more.show()]})
    }
}
impl Layouts for FormU { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(FormU, age), core::mem::offset_of!(FormU, city), core::mem::offset_of!(FormU, more)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct FormV {
    pub z: String,
}
impl U for FormV {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        FormV { z: U::make(&f[0]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.z.show()]})
    }
}
impl Layouts for FormV { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(FormV, z)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Flat {
    pub k: String,
    pub v: u64,
}
impl U for Flat {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Flat { k: U::make(&f[0]), v: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.k.show(), self.v.show()]})
    }
}
impl Layouts for Flat { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Flat, k), core::mem::offset_of!(Flat, v)]) } }

#[derive(Facet, Debug)]
pub struct Args {
    #[facet(positional)]
    pub path: String,
    #[facet(positional)]
    pub count: u16,
    #[facet(named)]
    #[facet(short = "v")]
    pub verbose: bool,
    #[facet(named)]
    #[facet(short = "j")]
    pub jobs: i32,
    #[facet(named)]
    pub out: String,
}
impl U for Args {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Args { path: U::make(&f[0]), count: U::make(&f[1]), verbose: U::make(&f[2]), jobs: U::make(&f[3]), out: U::make(&f[4]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.path.show(), self.count.show(), self.verbose.show(), self.jobs.show(), self.out.show()]})
    }
}
impl Layouts for Args { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Args, path), core::mem::offset_of!(Args, count), core::mem::offset_of!(Args, verbose), core::mem::offset_of!(Args, jobs), core::mem::offset_of!(Args, out)]) } }

#[derive(Facet, Debug)]
pub struct Args1 {
    #[facet(named)]
    pub verbose: bool,
    #[facet(named)]
    pub x: u8,
    #[facet(positional)]
    pub file: String,
}
impl U for Args1 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Args1 { verbose: U::make(&f[0]), x: U::make(&f[1]), file: U::make(&f[2]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.verbose.show(), self.x.show(), self.file.show()]})
    }
}
impl Layouts for Args1 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Args1, verbose), core::mem::offset_of!(Args1, x), core::mem::offset_of!(Args1, file)]) } }

#[derive(Facet, Debug)]
pub struct Args2 {
    #[facet(positional)]
    pub a: char,
    #[facet(positional)]
    pub b: f64,
    #[facet(positional)]
    pub c: u64,
}
impl U for Args2 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Args2 { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show()]})
    }
}
impl Layouts for Args2 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Args2, a), core::mem::offset_of!(Args2, b), core::mem::offset_of!(Args2, c)]) } }

#[derive(Facet, Debug)]
pub struct Args3 {
    #[facet(positional)]
    pub on: bool,
    #[facet(named)]
    #[facet(positional)]
    pub n: i64,
    #[facet(named)]
    pub off: bool,
    #[facet(named)]
    pub m: NonZeroU8,
    #[facet(positional)]
    pub last: String,
}
impl U for Args3 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Args3 { on: U::make(&f[0]), n: U::make(&f[1]), off: U::make(&f[2]), m: U::make(&f[3]), last: U::make(&f[4]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.on.show(), self.n.show(), self.off.show(), self.m.show(), self.last.show()]})
    }
}
impl Layouts for Args3 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Args3, on), core::mem::offset_of!(Args3, n), core::mem::offset_of!(Args3, off), core::mem::offset_of!(Args3, m), core::mem::offset_of!(Args3, last)]) } }

#[derive(Facet, Debug)]
pub struct Args4 {
    #[facet(positional)]
    pub s: String,
    #[facet(named)]
    pub r: f32,
    #[facet(positional)]
    #[facet(named)]
    pub k: usize,
    pub z: i16,
}
impl U for Args4 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Args4 { s: U::make(&f[0]), r: U::make(&f[1]), k: U::make(&f[2]), z: U::make(&f[3]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.s.show(), self.r.show(), self.k.show(), self.z.show()]})
    }
}
impl Layouts for Args4 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Args4, s), core::mem::offset_of!(Args4, r), core::mem::offset_of!(Args4, k), core::mem::offset_of!(Args4, z)]) } }

#[derive(Facet, Debug)]
pub struct Args5 {
    #[facet(named)]
    pub a: bool,
    #[facet(named)]
    pub b: bool,
}
impl U for Args5 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Args5 { a: U::make(&f[0]), b: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show()]})
    }
}
impl Layouts for Args5 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Args5, a), core::mem::offset_of!(Args5, b)]) } }

#[derive(Facet, Debug)]
pub struct Args6 {
    #[facet(named)]
    pub o: Option<u8>,
    #[facet(positional)]
    pub l: Vec<String>,
    #[facet(named)]
    pub x: bool,
}
impl U for Args6 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Args6 { o: U::make(&f[0]), l: U::make(&f[1]), x: U::make(&f[2]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.o.show(), self.l.show(), self.x.show()]})
    }
}
impl Layouts for Args6 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Args6, o), core::mem::offset_of!(Args6, l), core::mem::offset_of!(Args6, x)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Sec {
    pub id: u32,
    #[facet(sensitive)]
    pub key: String,
    /// hidden
    #[facet(sensitive)]
    pub opt: Option<String>,
    #[facet(sensitive)]
    pub tags: Vec<u8>,
    /// shown
    pub name: String,
}
impl U for Sec {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Sec { id: U::make(&f[0]), key: U::make(&f[1]), opt: U::make(&f[2]), tags: U::make(&f[3]), name: U::make(&f[4]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.id.show(), self.key.show(), self.opt.show(), self.tags.show(), self.name.show()]})
    }
}
impl Layouts for Sec { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Sec, id), core::mem::offset_of!(Sec, key), core::mem::offset_of!(Sec, opt), core::mem::offset_of!(Sec, tags), core::mem::offset_of!(Sec, name)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct SecT(#[facet(sensitive)] pub String, pub u16, #[facet(sensitive)] pub Vec<Sec>, pub Option<Sec>);
impl U for SecT {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        SecT(U::make(&f[0]), U::make(&f[1]), U::make(&f[2]), U::make(&f[3]))
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.0.show(), self.1.show(), self.2.show(), self.3.show()]})
    }
}
impl Layouts for SecT { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(SecT, 0), core::mem::offset_of!(SecT, 1), core::mem::offset_of!(SecT, 2), core::mem::offset_of!(SecT, 3)]) } }

/// An enum
///   with a \ in it
#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(u8)]
pub enum SecE {
    U,
    T(#[facet(sensitive)] String, u8, Sec),
    S {
        /// the "secret"
        #[facet(sensitive)]
        pw: String,
        /// seen
        x: u8,
        i: Sec,
        #[facet(sensitive)]
        e: Vec<SecE>,
    },
    E(Vec<SecE>, #[facet(sensitive)] Option<f32>),
}
impl U for SecE {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => SecE::U,
            2 => SecE::T(U::make(&f[0]), U::make(&f[1]), U::make(&f[2])),
            3 => SecE::S { pw: U::make(&f[0]), x: U::make(&f[1]), i: U::make(&f[2]), e: U::make(&f[3]) },
            4 => SecE::E(U::make(&f[0]), U::make(&f[1])),
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            SecE::U => json!({"t": "en", "i": 1, "f": []}),
            SecE::T(a0, a1, a2) => json!({"t": "en", "i": 2, "f": [a0.show(), a1.show(), a2.show()]}),
            SecE::S { pw, x, i, e } => json!({"t": "en", "i": 3, "f": [pw.show(), x.show(), i.show(), e.show()]}),
            SecE::E(a0, a1) => json!({"t": "en", "i": 4, "f": [a0.show(), a1.show()]}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct SecN {
    #[facet(sensitive)]
    pub s: Sec,
    pub l: Vec<Sec>,
    pub o: Option<Sec>,
    pub m: HashMap<String,Sec>,
    pub a: [Sec;2],
    pub e: SecE,
    pub t: (Sec,u8),
    pub r: Arc<SecT>,
    pub u: SecT,
    pub z: Option<Vec<SecE>>,
}
impl U for SecN {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        SecN { s: U::make(&f[0]), l: U::make(&f[1]), o: U::make(&f[2]), m: U::make(&f[3]), a: U::make(&f[4]), e: U::make(&f[5]), t: U::make(&f[6]), r: U::make(&f[7]), u: U::make(&f[8]), z: U::make(&f[9]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.s.show(), self.l.show(), self.o.show(), self.m.show(), self.a.show(), self.e.show(), self.t.show(), self.r.show(), self.u.show(), self.z.show()]})
    }
}
impl Layouts for SecN { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(SecN, s), core::mem::offset_of!(SecN, l), core::mem::offset_of!(SecN, o), core::mem::offset_of!(SecN, m), core::mem::offset_of!(SecN, a), core::mem::offset_of!(SecN, e), core::mem::offset_of!(SecN, t), core::mem::offset_of!(SecN, r), core::mem::offset_of!(SecN, u), core::mem::offset_of!(SecN, z)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct SecAll {
    #[facet(sensitive)]
    pub a: Vec<Un>,
    #[facet(sensitive)]
    pub b: SecE,
    #[facet(sensitive)]
    pub c: bool,
}
impl U for SecAll {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        SecAll { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show()]})
    }
}
impl Layouts for SecAll { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(SecAll, a), core::mem::offset_of!(SecAll, b), core::mem::offset_of!(SecAll, c)]) } }

/// A documented type
///
/// over three lines
#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Doc {
    /// First
    pub a: u8,
    /// of b
    /// two lines
    pub b: DocI,
    ///no space
    pub c: Vec<DocI>,
    pub d: Option<DocE>,
    ///
    pub e: f64,
    pub f: DocT,
}
impl U for Doc {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Doc { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]), d: U::make(&f[3]), e: U::make(&f[4]), f: U::make(&f[5]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show(), self.d.show(), self.e.show(), self.f.show()]})
    }
}
impl Layouts for Doc { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Doc, a), core::mem::offset_of!(Doc, b), core::mem::offset_of!(Doc, c), core::mem::offset_of!(Doc, d), core::mem::offset_of!(Doc, e), core::mem::offset_of!(Doc, f)]) } }

/// inner
#[derive(Facet, Clone, Debug, PartialEq)]
pub struct DocI {
    pub n: i32,
    /// maybe
    pub o: Option<u8>,
}
impl U for DocI {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        DocI { n: U::make(&f[0]), o: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.n.show(), self.o.show()]})
    }
}
impl Layouts for DocI { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(DocI, n), core::mem::offset_of!(DocI, o)]) } }

/// tuple struct
#[derive(Facet, Clone, Debug, PartialEq)]
pub struct DocT(pub u8, pub DocI);
impl U for DocT {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        DocT(U::make(&f[0]), U::make(&f[1]))
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.0.show(), self.1.show()]})
    }
}
impl Layouts for DocT { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(DocT, 0), core::mem::offset_of!(DocT, 1)]) } }

/// Documented
#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(u8)]
pub enum DocE {
    /// nothing
    A,
    /// b one
    /// b two
    B(DocI, u8),
    C {
        /// the x
        x: i64,
        /// more
        /// and more
        y: Vec<DocE>,
        z: String,
    },
    D(Un),
}
impl U for DocE {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => DocE::A,
            2 => DocE::B(U::make(&f[0]), U::make(&f[1])),
            3 => DocE::C { x: U::make(&f[0]), y: U::make(&f[1]), z: U::make(&f[2]) },
            4 => DocE::D(U::make(&f[0])),
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            DocE::A => json!({"t": "en", "i": 1, "f": []}),
            DocE::B(a0, a1) => json!({"t": "en", "i": 2, "f": [a0.show(), a1.show()]}),
            DocE::C { x, y, z } => json!({"t": "en", "i": 3, "f": [x.show(), y.show(), z.show()]}),
            DocE::D(a0) => json!({"t": "en", "i": 4, "f": [a0.show()]}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Bytes {
    pub v: Vec<u8>,
    pub w: Option<Vec<u8>>,
    pub x: Vec<Vec<u8>>,
    pub y: [u8;3],
    pub z: (u8,Vec<u8>),
}
impl U for Bytes {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Bytes { v: U::make(&f[0]), w: U::make(&f[1]), x: U::make(&f[2]), y: U::make(&f[3]), z: U::make(&f[4]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.v.show(), self.w.show(), self.x.show(), self.y.show(), self.z.show()]})
    }
}
impl Layouts for Bytes { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Bytes, v), core::mem::offset_of!(Bytes, w), core::mem::offset_of!(Bytes, x), core::mem::offset_of!(Bytes, y), core::mem::offset_of!(Bytes, z)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Zst {
    pub a: Un,
    pub b: Vec<Un>,
    pub c: Option<Un>,
    pub d: (Un,()),
    pub e: (),
    pub f: Option<Option<()>>,
    pub g: Mp0,
}
impl U for Zst {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Zst { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]), d: U::make(&f[3]), e: U::make(&f[4]), f: U::make(&f[5]), g: U::make(&f[6]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show(), self.d.show(), self.e.show(), self.f.show(), self.g.show()]})
    }
}
impl Layouts for Zst { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Zst, a), core::mem::offset_of!(Zst, b), core::mem::offset_of!(Zst, c), core::mem::offset_of!(Zst, d), core::mem::offset_of!(Zst, e), core::mem::offset_of!(Zst, f), core::mem::offset_of!(Zst, g)]) } }

#[derive(Facet, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Net {
    pub a: Ipv4Addr,
    pub b: Ipv6Addr,
    pub c: IpAddr,
    pub d: SocketAddr,
    pub p: PathBuf,
    pub o: Option<IpAddr>,
}
impl U for Net {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Net { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]), d: U::make(&f[3]), p: U::make(&f[4]), o: U::make(&f[5]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show(), self.d.show(), self.p.show(), self.o.show()]})
    }
}
impl Layouts for Net { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Net, a), core::mem::offset_of!(Net, b), core::mem::offset_of!(Net, c), core::mem::offset_of!(Net, d), core::mem::offset_of!(Net, p), core::mem::offset_of!(Net, o)]) } }

#[derive(Facet, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Strs {
    pub a: &'static str,
    pub b: Cow<'static, str>,
    pub c: Option<&'static str>,
    pub d: Vec<Cow<'static, str>>,
    pub p: PathBuf,
}
impl U for Strs {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Strs { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]), d: U::make(&f[3]), p: U::make(&f[4]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show(), self.d.show(), self.p.show()]})
    }
}
impl Layouts for Strs { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Strs, a), core::mem::offset_of!(Strs, b), core::mem::offset_of!(Strs, c), core::mem::offset_of!(Strs, d), core::mem::offset_of!(Strs, p)]) } }

#[derive(Facet, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Big {
    pub a: u128,
    pub b: i128,
    pub c: NonZeroU128,
    pub d: NonZeroI128,
    pub e: usize,
    pub f: isize,
}
impl U for Big {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Big { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]), d: U::make(&f[3]), e: U::make(&f[4]), f: U::make(&f[5]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show(), self.d.show(), self.e.show(), self.f.show()]})
    }
}
impl Layouts for Big { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Big, a), core::mem::offset_of!(Big, b), core::mem::offset_of!(Big, c), core::mem::offset_of!(Big, d), core::mem::offset_of!(Big, e), core::mem::offset_of!(Big, f)]) } }

#[derive(Facet, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Every {
    pub a: u8,
    pub b: i32,
    pub c: String,
    pub d: char,
    pub e: bool,
    pub f: Option<String>,
    pub g: (u8,i16),
    pub h: BTreeMap<u8,String>,
    pub i: [i8;2],
    pub j: Vec<u16>,
    pub k: (),
}
impl U for Every {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Every { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]), d: U::make(&f[3]), e: U::make(&f[4]), f: U::make(&f[5]), g: U::make(&f[6]), h: U::make(&f[7]), i: U::make(&f[8]), j: U::make(&f[9]), k: U::make(&f[10]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show(), self.d.show(), self.e.show(), self.f.show(), self.g.show(), self.h.show(), self.i.show(), self.j.show(), self.k.show()]})
    }
}
impl Layouts for Every { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Every, a), core::mem::offset_of!(Every, b), core::mem::offset_of!(Every, c), core::mem::offset_of!(Every, d), core::mem::offset_of!(Every, e), core::mem::offset_of!(Every, f), core::mem::offset_of!(Every, g), core::mem::offset_of!(Every, h), core::mem::offset_of!(Every, i), core::mem::offset_of!(Every, j), core::mem::offset_of!(Every, k)]) } }

#[derive(Facet, Clone, Debug, Default, PartialEq, PartialOrd)]
pub struct EvFl {
    pub a: f32,
    pub b: f64,
    pub c: Option<f64>,
    pub d: (f32,u8),
    pub e: [f64;2],
    pub f: Vec<f32>,
}
impl U for EvFl {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        EvFl { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]), d: U::make(&f[3]), e: U::make(&f[4]), f: U::make(&f[5]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show(), self.d.show(), self.e.show(), self.f.show()]})
    }
}
impl Layouts for EvFl { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(EvFl, a), core::mem::offset_of!(EvFl, b), core::mem::offset_of!(EvFl, c), core::mem::offset_of!(EvFl, d), core::mem::offset_of!(EvFl, e), core::mem::offset_of!(EvFl, f)]) } }

#[derive(Facet, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u8)]
pub enum EvEn {
    A,
    B(u8, String),
    C {
        x: i64,
        y: Option<char>,
    },
    D(Every),
    E = 200,
}
impl U for EvEn {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => EvEn::A,
            2 => EvEn::B(U::make(&f[0]), U::make(&f[1])),
            3 => EvEn::C { x: U::make(&f[0]), y: U::make(&f[1]) },
            4 => EvEn::D(U::make(&f[0])),
            5 => EvEn::E,
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            EvEn::A => json!({"t": "en", "i": 1, "f": []}),
            EvEn::B(a0, a1) => json!({"t": "en", "i": 2, "f": [a0.show(), a1.show()]}),
            EvEn::C { x, y } => json!({"t": "en", "i": 3, "f": [x.show(), y.show()]}),
            EvEn::D(a0) => json!({"t": "en", "i": 4, "f": [a0.show()]}),
            EvEn::E => json!({"t": "en", "i": 5, "f": []}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq, PartialOrd)]
#[repr(i32)]
pub enum EvEf {
    P(f64),
    Q {
        x: f32,
        b: bool,
    },
    N,
}
impl U for EvEf {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => EvEf::P(U::make(&f[0])),
            2 => EvEf::Q { x: U::make(&f[0]), b: U::make(&f[1]) },
            3 => EvEf::N,
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            EvEf::P(a0) => json!({"t": "en", "i": 1, "f": [a0.show()]}),
            EvEf::Q { x, b } => json!({"t": "en", "i": 2, "f": [x.show(), b.show()]}),
            EvEf::N => json!({"t": "en", "i": 3, "f": []}),
        }
    }
}

#[derive(Facet, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Disp {
    pub a: u8,
    pub b: String,
}
impl std::fmt::Display for Disp { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{}|{}>", self.a, self.b) } }
impl U for Disp {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Disp { a: U::make(&f[0]), b: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show()]})
    }
}
impl Layouts for Disp { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Disp, a), core::mem::offset_of!(Disp, b)]) } }

#[derive(Facet, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy)]
pub struct Cp {
    pub a: u8,
    pub b: i64,
    pub c: char,
    pub d: Option<bool>,
}
impl U for Cp {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Cp { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]), d: U::make(&f[3]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show(), self.d.show()]})
    }
}
impl Layouts for Cp { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Cp, a), core::mem::offset_of!(Cp, b), core::mem::offset_of!(Cp, c), core::mem::offset_of!(Cp, d)]) } }

#[derive(Facet, Clone, Copy, Debug, PartialEq, PartialOrd)]
pub struct CpT(pub u16, pub f32);
impl U for CpT {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        CpT(U::make(&f[0]), U::make(&f[1]))
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.0.show(), self.1.show()]})
    }
}
impl Layouts for CpT { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(CpT, 0), core::mem::offset_of!(CpT, 1)]) } }

#[derive(Facet, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy)]
pub struct CpU;
impl U for CpU {
    fn make(j: &J) -> Self {
        let _ = j;
        CpU
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": []})
    }
}
impl Layouts for CpU { fn offsets() -> Option<Vec<usize>> { Some(vec![]) } }

#[derive(Facet, Debug, Clone, Eq)]
pub struct Own1 {
    pub a: u8,
    pub b: u8,
}
impl PartialEq for Own1 { fn eq(&self, o: &Own1) -> bool { self.a == o.a } } impl PartialOrd for Own1 { fn partial_cmp(&self, o: &Own1) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } } impl Ord for Own1 { fn cmp(&self, o: &Own1) -> std::cmp::Ordering { o.a.cmp(&self.a) } } impl std::hash::Hash for Own1 { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.a.hash(h) } }
impl U for Own1 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Own1 { a: U::make(&f[0]), b: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show()]})
    }
}
impl Layouts for Own1 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Own1, a), core::mem::offset_of!(Own1, b)]) } }

#[derive(Facet, Clone)]
pub struct OneClone {
    pub a: u8,
    pub b: Tk,
}
impl U for OneClone {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        OneClone { a: U::make(&f[0]), b: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show()]})
    }
}
impl Layouts for OneClone { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(OneClone, a), core::mem::offset_of!(OneClone, b)]) } }

#[derive(Facet, Debug)]
pub struct OneDebug {
    pub a: u8,
    pub b: Tk,
}
impl U for OneDebug {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        OneDebug { a: U::make(&f[0]), b: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show()]})
    }
}
impl Layouts for OneDebug { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(OneDebug, a), core::mem::offset_of!(OneDebug, b)]) } }

#[derive(Facet, Default)]
pub struct OneDefault {
    pub a: u8,
    pub b: Tk,
}
impl U for OneDefault {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        OneDefault { a: U::make(&f[0]), b: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show()]})
    }
}
impl Layouts for OneDefault { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(OneDefault, a), core::mem::offset_of!(OneDefault, b)]) } }

#[derive(Facet, PartialEq)]
pub struct OnePartialEq {
    pub a: u8,
    pub b: Tk,
}
impl U for OnePartialEq {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        OnePartialEq { a: U::make(&f[0]), b: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show()]})
    }
}
impl Layouts for OnePartialEq { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(OnePartialEq, a), core::mem::offset_of!(OnePartialEq, b)]) } }

#[derive(Facet, PartialEq, Eq)]
pub struct OneEq {
    pub a: u8,
}
impl U for OneEq {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        OneEq { a: U::make(&f[0]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show()]})
    }
}
impl Layouts for OneEq { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(OneEq, a)]) } }

#[derive(Facet, PartialEq, PartialOrd)]
pub struct OnePo {
    pub a: u8,
    pub b: f32,
}
impl U for OnePo {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        OnePo { a: U::make(&f[0]), b: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show()]})
    }
}
impl Layouts for OnePo { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(OnePo, a), core::mem::offset_of!(OnePo, b)]) } }

#[derive(Facet, Hash)]
pub struct OneHash {
    pub a: u8,
    pub b: String,
}
impl U for OneHash {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        OneHash { a: U::make(&f[0]), b: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show()]})
    }
}
impl Layouts for OneHash { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(OneHash, a), core::mem::offset_of!(OneHash, b)]) } }

#[derive(Facet)]
pub struct HasOne {
    pub a: OneClone,
    pub b: Vec<OneDebug>,
    pub c: Option<OneDefault>,
    pub d: (OnePartialEq,OneEq),
    pub e: [OneHash;2],
    pub f: HashMap<u8,OneEq>,
    pub g: Vec<OnePo>,
}
impl U for HasOne {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        HasOne { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]), d: U::make(&f[3]), e: U::make(&f[4]), f: U::make(&f[5]), g: U::make(&f[6]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show(), self.d.show(), self.e.show(), self.f.show(), self.g.show()]})
    }
}
impl Layouts for HasOne { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(HasOne, a), core::mem::offset_of!(HasOne, b), core::mem::offset_of!(HasOne, c), core::mem::offset_of!(HasOne, d), core::mem::offset_of!(HasOne, e), core::mem::offset_of!(HasOne, f), core::mem::offset_of!(HasOne, g)]) } }

#[doc = " bounds"]
#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Gb<T: Clone + Debug + PartialEq> {
    pub v: T,
    pub w: Vec<T>,
}
impl<T: U + Clone + Debug + PartialEq> U for Gb<T> {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Gb { v: U::make(&f[0]), w: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.v.show(), self.w.show()]})
    }
}
impl<T: U + Clone + Debug + PartialEq> Layouts for Gb<T> { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Gb<T>, v), core::mem::offset_of!(Gb<T>, w)]) } }

#[derive(Facet, Clone, Debug)]
pub struct Gw<A, B: Default> where A: Clone + Debug, B: Clone + Debug {
    pub a: A,
    pub b: Option<B>,
}
impl<A: U, B: U + Default> U for Gw<A, B> where A: Clone + Debug, B: Clone + Debug {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Gw { a: U::make(&f[0]), b: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show()]})
    }
}
impl<A: U, B: U + Default> Layouts for Gw<A, B> where A: Clone + Debug, B: Clone + Debug { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Gw<A, B>, a), core::mem::offset_of!(Gw<A, B>, b)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Gc<T: Copy + Debug + PartialEq + Clone, const N: usize> {
    pub a: [T;N],
    pub n: u8,
}
impl<T: U + Copy + Debug + PartialEq + Clone, const N: usize> U for Gc<T, N> {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Gc { a: U::make(&f[0]), n: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.n.show()]})
    }
}
impl<T: U + Copy + Debug + PartialEq + Clone, const N: usize> Layouts for Gc<T, N> { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Gc<T, N>, a), core::mem::offset_of!(Gc<T, N>, n)]) } }

#[derive(Facet, Clone, Debug, PartialEq, Eq, Hash)]
pub struct Lt<'a> {
    pub a: &'a str,
    pub b: Cow<'a, str>,
    pub c: u8,
}
impl<> U for Lt<'static> {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Lt { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show()]})
    }
}
impl<> Layouts for Lt<'static> { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Lt<'static>, a), core::mem::offset_of!(Lt<'static>, b), core::mem::offset_of!(Lt<'static>, c)]) } }

#[derive(Facet, Debug)]
pub struct Lt2<'a, 'b, T: Debug + 'static> {
    pub a: &'a [T],
    pub b: Option<&'b str>,
}
impl<T: U + Debug + 'static> U for Lt2<'static, 'static, T> {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Lt2 { a: U::make(&f[0]), b: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show()]})
    }
}
impl<T: U + Debug + 'static> Layouts for Lt2<'static, 'static, T> { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Lt2<'static, 'static, T>, a), core::mem::offset_of!(Lt2<'static, 'static, T>, b)]) } }

#[derive(Facet, Debug)]
pub struct Gt<T: Debug>(pub T, pub u8);
impl<T: U + Debug> U for Gt<T> {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Gt(U::make(&f[0]), U::make(&f[1]))
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.0.show(), self.1.show()]})
    }
}
impl<T: U + Debug> Layouts for Gt<T> { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Gt<T>, 0), core::mem::offset_of!(Gt<T>, 1)]) } }

#[derive(Facet, Clone, Debug)]
#[repr(u8)]
pub enum Ge<T: Clone + Debug, U2: Clone + Debug> {
    A(T, U2),
    B {
        x: Vec<T>,
        y: U2,
    },
    C,
}
impl<T: U + Clone + Debug, U2: U + Clone + Debug> U for Ge<T, U2> {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => Ge::A(U::make(&f[0]), U::make(&f[1])),
            2 => Ge::B { x: U::make(&f[0]), y: U::make(&f[1]) },
            3 => Ge::C,
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            Ge::A(a0, a1) => json!({"t": "en", "i": 1, "f": [a0.show(), a1.show()]}),
            Ge::B { x, y } => json!({"t": "en", "i": 2, "f": [x.show(), y.show()]}),
            Ge::C => json!({"t": "en", "i": 3, "f": []}),
        }
    }
}

#[derive(Facet, Debug, PartialEq)]
#[repr(u16)]
pub enum Ge2<'a, T: Debug + PartialEq> {
    L {
        l: &'a str,
        o: Option<T>,
    },
    R {
        s: &'a str,
        t: T,
    } = 9,
}
impl<T: U + Debug + PartialEq> U for Ge2<'static, T> {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => Ge2::L { l: U::make(&f[0]), o: U::make(&f[1]) },
            2 => Ge2::R { s: U::make(&f[0]), t: U::make(&f[1]) },
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            Ge2::L { l, o } => json!({"t": "en", "i": 1, "f": [l.show(), o.show()]}),
            Ge2::R { s, t } => json!({"t": "en", "i": 2, "f": [s.show(), t.show()]}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Raw {
    pub r#type: u8,
    pub r#fn: String,
    pub plain: bool,
    pub é: u16,
    pub _u: i8,
    pub __: u8,
}
impl U for Raw {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Raw { r#type: U::make(&f[0]), r#fn: U::make(&f[1]), plain: U::make(&f[2]), é: U::make(&f[3]), _u: U::make(&f[4]), __: U::make(&f[5]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.r#type.show(), self.r#fn.show(), self.plain.show(), self.é.show(), self._u.show(), self.__.show()]})
    }
}
impl Layouts for Raw { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Raw, r#type), core::mem::offset_of!(Raw, r#fn), core::mem::offset_of!(Raw, plain), core::mem::offset_of!(Raw, é), core::mem::offset_of!(Raw, _u), core::mem::offset_of!(Raw, __)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(u8)]
pub enum RawE {
    r#Yield(u8),
    Plain {
        r#in: u8,
        r#match: Option<u8>,
    },
    É,
}
impl U for RawE {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => RawE::r#Yield(U::make(&f[0])),
            2 => RawE::Plain { r#in: U::make(&f[0]), r#match: U::make(&f[1]) },
            3 => RawE::É,
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            RawE::r#Yield(a0) => json!({"t": "en", "i": 1, "f": [a0.show()]}),
            RawE::Plain { r#in, r#match } => json!({"t": "en", "i": 2, "f": [r#in.show(), r#match.show()]}),
            RawE::É => json!({"t": "en", "i": 3, "f": []}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Rn {
    #[facet(rename = "")]
    pub a: u8,
    #[facet(rename = "with \"quotes\" and \\ and {braces}")]
    pub b: u8,
    #[facet(rename = r##"raw " # string"##)]
    pub c: u8,
    #[facet(rename = "tab\tnew\nline")]
    pub d: u8,
    #[facet(rename = "日本 é \u{1F600}")]
    pub e: u8,
    #[facet(rename = "\x61")]
    pub f: u8,
    pub g: u8,
}
impl U for Rn {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Rn { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]), d: U::make(&f[3]), e: U::make(&f[4]), f: U::make(&f[5]), g: U::make(&f[6]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show(), self.d.show(), self.e.show(), self.f.show(), self.g.show()]})
    }
}
impl Layouts for Rn { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Rn, a), core::mem::offset_of!(Rn, b), core::mem::offset_of!(Rn, c), core::mem::offset_of!(Rn, d), core::mem::offset_of!(Rn, e), core::mem::offset_of!(Rn, f), core::mem::offset_of!(Rn, g)]) } }

#[derive(Facet, Debug)]
#[repr(u8)]
pub enum RnE {
    A {
        #[facet(rename = "the x")]
        x: u8,
        y: u8,
    },
    B(#[facet(rename = "first")] u8, u8),
}
impl U for RnE {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => RnE::A { x: U::make(&f[0]), y: U::make(&f[1]) },
            2 => RnE::B(U::make(&f[0]), U::make(&f[1])),
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            RnE::A { x, y } => json!({"t": "en", "i": 1, "f": [x.show(), y.show()]}),
            RnE::B(a0, a1) => json!({"t": "en", "i": 2, "f": [a0.show(), a1.show()]}),
        }
    }
}

///  leading
/// # Heading
///
/// ```
/// code "x" \
/// ```
#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Dc {
    /// "quoted" \ {braces} \n
    ///	tab
    ///
    pub a: u8,
    /** block */
    pub b: u8,
    #[doc = "explicit \"q\""]
    /// then
    #[doc = r"raw \"]
    pub c: u8,
    #[allow(dead_code)]
    /// with others
    #[doc(hidden)]
    #[cfg(all())]
    pub d: u8,
    /// unicode é 日本 😀 
    pub e: u8,
    pub f: u8,
}
impl U for Dc {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Dc { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]), d: U::make(&f[3]), e: U::make(&f[4]), f: U::make(&f[5]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show(), self.d.show(), self.e.show(), self.f.show()]})
    }
}
impl Layouts for Dc { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Dc, a), core::mem::offset_of!(Dc, b), core::mem::offset_of!(Dc, c), core::mem::offset_of!(Dc, d), core::mem::offset_of!(Dc, e), core::mem::offset_of!(Dc, f)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct DcT(#[doc = " inline"] pub u8, #[doc = " a"] #[doc = " b"] pub u8);
impl U for DcT {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        DcT(U::make(&f[0]), U::make(&f[1]))
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.0.show(), self.1.show()]})
    }
}
impl Layouts for DcT { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(DcT, 0), core::mem::offset_of!(DcT, 1)]) } }

/// a unit
/// documented
#[derive(Facet, Clone, Debug, PartialEq)]
pub struct DcU;
impl U for DcU {
    fn make(j: &J) -> Self {
        let _ = j;
        DcU
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": []})
    }
}
impl Layouts for DcU { fn offsets() -> Option<Vec<usize>> { Some(vec![]) } }

/// E
#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(u8)]
pub enum DcE {
/// "A" \
    A,
/// B {} 
#[allow(unused)]
    B(#[doc = "f"] u8),
    C {
        /// x
        x: u8,
    },
}
impl U for DcE {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => DcE::A,
            2 => DcE::B(U::make(&f[0])),
            3 => DcE::C { x: U::make(&f[0]) },
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            DcE::A => json!({"t": "en", "i": 1, "f": []}),
            DcE::B(a0) => json!({"t": "en", "i": 2, "f": [a0.show()]}),
            DcE::C { x } => json!({"t": "en", "i": 3, "f": [x.show()]}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq, Default)]
#[facet(tool = "x")]
#[facet(deny_unknown_fields)]
#[facet(lone)]
#[facet(call(a, b = 2))]
#[facet(default)]
pub struct Att {
    #[facet(foo)]
    pub a: u8,
    #[facet(foo = 3)]
    #[facet(bar(baz, 4))]
    #[facet(quux = "s")]
    pub b: u8,
    #[facet(x::y)]
    #[facet(rename = "see")]
    #[facet(sensitive)]
    #[facet(default)]
    pub c: u8,
    #[facet(sensitive)]
    d: String,
    #[facet(default = "seven")]
    pub(crate) e: u8,
}
impl Att { } fn seven() -> u8 { 7 }
impl U for Att {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Att { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]), d: U::make(&f[3]), e: U::make(&f[4]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show(), self.d.show(), self.e.show()]})
    }
}
impl Layouts for Att { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Att, a), core::mem::offset_of!(Att, b), core::mem::offset_of!(Att, c), core::mem::offset_of!(Att, d), core::mem::offset_of!(Att, e)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
#[facet(t)]
pub struct AttT(#[facet(k = 1)] #[facet(sensitive)] pub u8, #[facet(rename = "one")] pub u8);
impl U for AttT {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        AttT(U::make(&f[0]), U::make(&f[1]))
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.0.show(), self.1.show()]})
    }
}
impl Layouts for AttT { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(AttT, 0), core::mem::offset_of!(AttT, 1)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
#[facet(on_enum)]
#[facet(deny_unknown_fields)]
#[repr(u8)]
pub enum AttE {
    A {
        #[facet(z)]
        #[facet(rename = "ex")]
        #[facet(sensitive)]
        x: u8,
        #[facet(default)]
        y: u8,
    },
}
impl U for AttE {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => AttE::A { x: U::make(&f[0]), y: U::make(&f[1]) },
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            AttE::A { x, y } => json!({"t": "en", "i": 1, "f": [x.show(), y.show()]}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq)]
#[facet(unity)]
#[facet(deny_unknown_fields)]
pub struct AttU;
impl U for AttU {
    fn make(j: &J) -> Self {
        let _ = j;
        AttU
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": []})
    }
}
impl Layouts for AttU { fn offsets() -> Option<Vec<usize>> { Some(vec![]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Comma {
    #[facet(sensitive, named)]
    pub a: u8,
    #[facet(default, rename = "bee")]
    pub b: u8,
    #[facet(default = "seven", sensitive, foo(1, 2))]
    pub c: u8,
    #[facet(sensitive, default)]
    pub d: u8,
}
impl U for Comma {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Comma { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]), d: U::make(&f[3]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show(), self.d.show()]})
    }
}
impl Layouts for Comma { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Comma, a), core::mem::offset_of!(Comma, b), core::mem::offset_of!(Comma, c), core::mem::offset_of!(Comma, d)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct CommaArb {
    #[facet(named, sensitive)]
    pub a: u8,
}
impl U for CommaArb {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        CommaArb { a: U::make(&f[0]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show()]})
    }
}
impl Layouts for CommaArb { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(CommaArb, a)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct CommaRen {
    #[facet(rename = "ay", sensitive)]
    pub a: u8,
}
impl U for CommaRen {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        CommaRen { a: U::make(&f[0]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show()]})
    }
}
impl Layouts for CommaRen { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(CommaRen, a)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(C)]
pub struct LyC {
    pub a: u8,
    pub b: u32,
    pub c: u16,
    pub d: u64,
    pub e: u8,
}
impl U for LyC {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        LyC { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]), d: U::make(&f[3]), e: U::make(&f[4]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show(), self.d.show(), self.e.show()]})
    }
}
impl Layouts for LyC { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(LyC, a), core::mem::offset_of!(LyC, b), core::mem::offset_of!(LyC, c), core::mem::offset_of!(LyC, d), core::mem::offset_of!(LyC, e)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct LyR {
    pub a: u8,
    pub b: u32,
    pub c: u16,
    pub d: u64,
    pub e: u8,
}
impl U for LyR {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        LyR { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]), d: U::make(&f[3]), e: U::make(&f[4]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show(), self.d.show(), self.e.show()]})
    }
}
impl Layouts for LyR { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(LyR, a), core::mem::offset_of!(LyR, b), core::mem::offset_of!(LyR, c), core::mem::offset_of!(LyR, d), core::mem::offset_of!(LyR, e)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(align(32))]
pub struct LyA {
    pub a: u8,
    pub b: u16,
}
impl U for LyA {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        LyA { a: U::make(&f[0]), b: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show()]})
    }
}
impl Layouts for LyA { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(LyA, a), core::mem::offset_of!(LyA, b)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(C, align(64))]
pub struct LyCA {
    pub a: u8,
    pub b: LyA,
    pub c: u8,
}
impl U for LyCA {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        LyCA { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show()]})
    }
}
impl Layouts for LyCA { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(LyCA, a), core::mem::offset_of!(LyCA, b), core::mem::offset_of!(LyCA, c)]) } }

#[derive(Facet, Clone, Debug, PartialEq, Default)]
#[repr(transparent)]
pub struct LyT(pub u64);
impl U for LyT {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        LyT(U::make(&f[0]))
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.0.show()]})
    }
}
impl Layouts for LyT { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(LyT, 0)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct LyZ {
    pub a: (),
    pub b: [u64;0],
    pub c: Un,
    pub d: u8,
    pub e: [Un;3],
}
impl U for LyZ {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        LyZ { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]), d: U::make(&f[3]), e: U::make(&f[4]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show(), self.d.show(), self.e.show()]})
    }
}
impl Layouts for LyZ { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(LyZ, a), core::mem::offset_of!(LyZ, b), core::mem::offset_of!(LyZ, c), core::mem::offset_of!(LyZ, d), core::mem::offset_of!(LyZ, e)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct LyN {
    pub a: (u8,u32,u8),
    pub b: [LyC;2],
    pub c: Option<LyA>,
    pub d: LyT,
    pub e: Option<Vec<u8>>,
    pub f: char,
    pub g: bool,
    pub h: u128,
}
impl U for LyN {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        LyN { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]), d: U::make(&f[3]), e: U::make(&f[4]), f: U::make(&f[5]), g: U::make(&f[6]), h: U::make(&f[7]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show(), self.d.show(), self.e.show(), self.f.show(), self.g.show(), self.h.show()]})
    }
}
impl Layouts for LyN { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(LyN, a), core::mem::offset_of!(LyN, b), core::mem::offset_of!(LyN, c), core::mem::offset_of!(LyN, d), core::mem::offset_of!(LyN, e), core::mem::offset_of!(LyN, f), core::mem::offset_of!(LyN, g), core::mem::offset_of!(LyN, h)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(u8)]
pub enum LyU8 {
    A(u8, u64, u8),
    B {
        x: u16,
    },
    C(LyA),
    Z,
}
impl U for LyU8 {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => LyU8::A(U::make(&f[0]), U::make(&f[1]), U::make(&f[2])),
            2 => LyU8::B { x: U::make(&f[0]) },
            3 => LyU8::C(U::make(&f[0])),
            4 => LyU8::Z,
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            LyU8::A(a0, a1, a2) => json!({"t": "en", "i": 1, "f": [a0.show(), a1.show(), a2.show()]}),
            LyU8::B { x } => json!({"t": "en", "i": 2, "f": [x.show()]}),
            LyU8::C(a0) => json!({"t": "en", "i": 3, "f": [a0.show()]}),
            LyU8::Z => json!({"t": "en", "i": 4, "f": []}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(u64)]
pub enum LyU64 {
    A(u8),
    B = 0x7ff_ffff_ffff_fffe,
}
impl U for LyU64 {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => LyU64::A(U::make(&f[0])),
            2 => LyU64::B,
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            LyU64::A(a0) => json!({"t": "en", "i": 1, "f": [a0.show()]}),
            LyU64::B => json!({"t": "en", "i": 2, "f": []}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(i8)]
pub enum LyI8 {
    A = 5,
    B(u32),
    C = 127,
    D(String) = 0b0,
}
impl U for LyI8 {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => LyI8::A,
            2 => LyI8::B(U::make(&f[0])),
            3 => LyI8::C,
            4 => LyI8::D(U::make(&f[0])),
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            LyI8::A => json!({"t": "en", "i": 1, "f": []}),
            LyI8::B(a0) => json!({"t": "en", "i": 2, "f": [a0.show()]}),
            LyI8::C => json!({"t": "en", "i": 3, "f": []}),
            LyI8::D(a0) => json!({"t": "en", "i": 4, "f": [a0.show()]}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(i16)]
pub enum LyI16 {
    A(u8) = 0o17,
    B(u64),
}
impl U for LyI16 {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => LyI16::A(U::make(&f[0])),
            2 => LyI16::B(U::make(&f[0])),
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            LyI16::A(a0) => json!({"t": "en", "i": 1, "f": [a0.show()]}),
            LyI16::B(a0) => json!({"t": "en", "i": 2, "f": [a0.show()]}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(u32)]
pub enum LyU32 {
    A = 1_000_000,
    B(u8),
    C {
        x: LyA,
    } = 0xffff_ffff,
}
impl U for LyU32 {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => LyU32::A,
            2 => LyU32::B(U::make(&f[0])),
            3 => LyU32::C { x: U::make(&f[0]) },
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            LyU32::A => json!({"t": "en", "i": 1, "f": []}),
            LyU32::B(a0) => json!({"t": "en", "i": 2, "f": [a0.show()]}),
            LyU32::C { x } => json!({"t": "en", "i": 3, "f": [x.show()]}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(i32)]
pub enum LyI32 {
    A(u8),
    B(LyC),
}
impl U for LyI32 {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => LyI32::A(U::make(&f[0])),
            2 => LyI32::B(U::make(&f[0])),
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            LyI32::A(a0) => json!({"t": "en", "i": 1, "f": [a0.show()]}),
            LyI32::B(a0) => json!({"t": "en", "i": 2, "f": [a0.show()]}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(i64)]
pub enum LyI64 {
    A(u8, u16),
    B(),
    C {
    },
}
impl U for LyI64 {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => LyI64::A(U::make(&f[0]), U::make(&f[1])),
            2 => LyI64::B(),
            3 => LyI64::C {  },
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            LyI64::A(a0, a1) => json!({"t": "en", "i": 1, "f": [a0.show(), a1.show()]}),
            LyI64::B() => json!({"t": "en", "i": 2, "f": []}),
            LyI64::C {  } => json!({"t": "en", "i": 3, "f": []}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(usize)]
pub enum LyUs {
    A(u8),
    B(u128),
}
impl U for LyUs {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => LyUs::A(U::make(&f[0])),
            2 => LyUs::B(U::make(&f[0])),
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            LyUs::A(a0) => json!({"t": "en", "i": 1, "f": [a0.show()]}),
            LyUs::B(a0) => json!({"t": "en", "i": 2, "f": [a0.show()]}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(isize)]
pub enum LyIs {
    A(u8),
    B(u8, u8, u32) = 77,
}
impl U for LyIs {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => LyIs::A(U::make(&f[0])),
            2 => LyIs::B(U::make(&f[0]), U::make(&f[1]), U::make(&f[2])),
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            LyIs::A(a0) => json!({"t": "en", "i": 1, "f": [a0.show()]}),
            LyIs::B(a0, a1, a2) => json!({"t": "en", "i": 2, "f": [a0.show(), a1.show(), a2.show()]}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(C)]
pub enum LyCn {
    A(u8, u64),
    B {
        x: u8,
    },
    C,
    D(LyA),
}
impl U for LyCn {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => LyCn::A(U::make(&f[0]), U::make(&f[1])),
            2 => LyCn::B { x: U::make(&f[0]) },
            3 => LyCn::C,
            4 => LyCn::D(U::make(&f[0])),
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            LyCn::A(a0, a1) => json!({"t": "en", "i": 1, "f": [a0.show(), a1.show()]}),
            LyCn::B { x } => json!({"t": "en", "i": 2, "f": [x.show()]}),
            LyCn::C => json!({"t": "en", "i": 3, "f": []}),
            LyCn::D(a0) => json!({"t": "en", "i": 4, "f": [a0.show()]}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(C, u8)]
pub enum LyCu8 {
    A(u8, u64),
    B {
        x: u16,
        y: u8,
    },
    C = 9,
}
impl U for LyCu8 {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => LyCu8::A(U::make(&f[0]), U::make(&f[1])),
            2 => LyCu8::B { x: U::make(&f[0]), y: U::make(&f[1]) },
            3 => LyCu8::C,
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            LyCu8::A(a0, a1) => json!({"t": "en", "i": 1, "f": [a0.show(), a1.show()]}),
            LyCu8::B { x, y } => json!({"t": "en", "i": 2, "f": [x.show(), y.show()]}),
            LyCu8::C => json!({"t": "en", "i": 3, "f": []}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(C)]
#[repr(i16)]
pub enum LyCi16 {
    A(u8, u64),
    B {
        x: u16,
        y: u8,
    },
    C = 9,
}
impl U for LyCi16 {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => LyCi16::A(U::make(&f[0]), U::make(&f[1])),
            2 => LyCi16::B { x: U::make(&f[0]), y: U::make(&f[1]) },
            3 => LyCi16::C,
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            LyCi16::A(a0, a1) => json!({"t": "en", "i": 1, "f": [a0.show(), a1.show()]}),
            LyCi16::B { x, y } => json!({"t": "en", "i": 2, "f": [x.show(), y.show()]}),
            LyCi16::C => json!({"t": "en", "i": 3, "f": []}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(C)]
pub enum LyCd {
    A = 70000,
    B = 3,
    C,
    D = 0,
    E = 90_000,
}
impl U for LyCd {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => LyCd::A,
            2 => LyCd::B,
            3 => LyCd::C,
            4 => LyCd::D,
            5 => LyCd::E,
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            LyCd::A => json!({"t": "en", "i": 1, "f": []}),
            LyCd::B => json!({"t": "en", "i": 2, "f": []}),
            LyCd::C => json!({"t": "en", "i": 3, "f": []}),
            LyCd::D => json!({"t": "en", "i": 4, "f": []}),
            LyCd::E => json!({"t": "en", "i": 5, "f": []}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(C, i16)]
pub enum LyCe {
    A(u8) = 500,
    B = 3,
    C {
        x: u16,
    },
    D(u8, String) = 0,
}
impl U for LyCe {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => LyCe::A(U::make(&f[0])),
            2 => LyCe::B,
            3 => LyCe::C { x: U::make(&f[0]) },
            4 => LyCe::D(U::make(&f[0]), U::make(&f[1])),
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            LyCe::A(a0) => json!({"t": "en", "i": 1, "f": [a0.show()]}),
            LyCe::B => json!({"t": "en", "i": 2, "f": []}),
            LyCe::C { x } => json!({"t": "en", "i": 3, "f": [x.show()]}),
            LyCe::D(a0, a1) => json!({"t": "en", "i": 4, "f": [a0.show(), a1.show()]}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u8)]
pub enum LyDu {
    A = 9,
    B,
    C = 2,
    D,
    E = 0,
    F = 255,
    G = 4,
}
impl U for LyDu {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => LyDu::A,
            2 => LyDu::B,
            3 => LyDu::C,
            4 => LyDu::D,
            5 => LyDu::E,
            6 => LyDu::F,
            7 => LyDu::G,
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            LyDu::A => json!({"t": "en", "i": 1, "f": []}),
            LyDu::B => json!({"t": "en", "i": 2, "f": []}),
            LyDu::C => json!({"t": "en", "i": 3, "f": []}),
            LyDu::D => json!({"t": "en", "i": 4, "f": []}),
            LyDu::E => json!({"t": "en", "i": 5, "f": []}),
            LyDu::F => json!({"t": "en", "i": 6, "f": []}),
            LyDu::G => json!({"t": "en", "i": 7, "f": []}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(u32, C)]
pub enum LyTC {
    A(u8),
    B(u64),
}
impl U for LyTC {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => LyTC::A(U::make(&f[0])),
            2 => LyTC::B(U::make(&f[0])),
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            LyTC::A(a0) => json!({"t": "en", "i": 1, "f": [a0.show()]}),
            LyTC::B(a0) => json!({"t": "en", "i": 2, "f": [a0.show()]}),
        }
    }
}

#[derive(Facet, Clone)]
pub struct Oq {
    #[facet(opaque)]
    pub h: Arc<Hidden>,
    pub n: u8,
}
impl U for Oq {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Oq { h: U::make(&f[0]), n: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.h.show(), self.n.show()]})
    }
}
impl Layouts for Oq { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Oq, h), core::mem::offset_of!(Oq, n)]) } }

#[derive(Facet, Clone)]
pub struct Wk {
    pub s: Arc<Tk>,
    pub n: u8,
    pub w: Weak<Tk>,
}
impl U for Wk {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Wk { s: U::make(&f[0]), n: U::make(&f[1]), w: U::make(&f[2]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.s.show(), self.n.show(), self.w.show()]})
    }
}
impl Layouts for Wk { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Wk, s), core::mem::offset_of!(Wk, n), core::mem::offset_of!(Wk, w)]) } }

#[derive(Facet, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Ph {
    pub a: PhU8,
    pub b: PhNo,
    pub c: u8,
}
impl U for Ph {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Ph { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show()]})
    }
}
impl Layouts for Ph { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Ph, a), core::mem::offset_of!(Ph, b), core::mem::offset_of!(Ph, c)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Hm {
    pub a: HashMap<u8,u16,Hs>,
    pub b: HashMap<u8,u16>,
}
impl U for Hm {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Hm { a: U::make(&f[0]), b: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show()]})
    }
}
impl Layouts for Hm { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Hm, a), core::mem::offset_of!(Hm, b)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct T12(pub (u8,u16,u32,u64,i8,i16,i32,i64,bool,char,(),u8), pub (u8,), pub ((u8,),(u16,u8)));
impl U for T12 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        T12(U::make(&f[0]), U::make(&f[1]), U::make(&f[2]))
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.0.show(), self.1.show(), self.2.show()]})
    }
}
impl Layouts for T12 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(T12, 0), core::mem::offset_of!(T12, 1), core::mem::offset_of!(T12, 2)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Slc {
    pub a: &'static [u8],
    pub b: &'static [&'static str],
    pub c: Option<&'static [Disp]>,
}
impl U for Slc {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Slc { a: U::make(&f[0]), b: U::make(&f[1]), c: U::make(&f[2]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.a.show(), self.b.show(), self.c.show()]})
    }
}
impl Layouts for Slc { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Slc, a), core::mem::offset_of!(Slc, b), core::mem::offset_of!(Slc, c)]) } }

#[derive(Facet, Clone)]
pub struct W100 {
    pub f0: u8,
    pub f1: u8,
    pub f2: u8,
    pub f3: u8,
    pub f4: u8,
    pub f5: u8,
    pub f6: u8,
    pub f7: u8,
    pub f8: u8,
    pub f9: u8,
    pub f10: u8,
    pub f11: u8,
    pub f12: u8,
    pub f13: u8,
    pub f14: u8,
    pub f15: u8,
    pub f16: u8,
    pub f17: u8,
    pub f18: u8,
    pub f19: u8,
    pub f20: u8,
    pub f21: u8,
    pub f22: u8,
    pub f23: u8,
    pub f24: u8,
    pub f25: u8,
    pub f26: u8,
    pub f27: u8,
    pub f28: u8,
    pub f29: u8,
    pub f30: u8,
    pub f31: u8,
    pub f32: u8,
    pub f33: u8,
    pub f34: u8,
    pub f35: u8,
    pub f36: u8,
    pub f37: u8,
    pub f38: u8,
    pub f39: u8,
    pub f40: u8,
    pub f41: u8,
    pub f42: u8,
    pub f43: u8,
    pub f44: u8,
    pub f45: u8,
    pub f46: u8,
    pub f47: u8,
    pub f48: u8,
    pub f49: u8,
    pub f50: u8,
    pub f51: u8,
    pub f52: u8,
    pub f53: u8,
    pub f54: u8,
    pub f55: u8,
    pub f56: u8,
    pub f57: u8,
    pub f58: u8,
    pub f59: u8,
    pub f60: u8,
    pub f61: u8,
    pub f62: u8,
    pub f63: u8,
    pub f64: u8,
    pub f65: u8,
    pub f66: u8,
    pub f67: u8,
    pub f68: u8,
    pub f69: u8,
    pub f70: u8,
    pub f71: u8,
    pub f72: u8,
    pub f73: u8,
    pub f74: u8,
    pub f75: u8,
    pub f76: u8,
    pub f77: u8,
    pub f78: u8,
    pub f79: u8,
    pub f80: u8,
    pub f81: u8,
    pub f82: u8,
    pub f83: u8,
    pub f84: u8,
    pub f85: u8,
    pub f86: u8,
    pub f87: u8,
    pub f88: u8,
    pub f89: u8,
    pub f90: u8,
    pub f91: u8,
    pub f92: u8,
    pub f93: u8,
    pub f94: u8,
    pub f95: u8,
    pub f96: u8,
    pub f97: u8,
    pub f98: u8,
    pub f99: u8,
}
impl U for W100 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        W100 { f0: U::make(&f[0]), f1: U::make(&f[1]), f2: U::make(&f[2]), f3: U::make(&f[3]), f4: U::make(&f[4]), f5: U::make(&f[5]), f6: U::make(&f[6]), f7: U::make(&f[7]), f8: U::make(&f[8]), f9: U::make(&f[9]), f10: U::make(&f[10]), f11: U::make(&f[11]), f12: U::make(&f[12]), f13: U::make(&f[13]), f14: U::make(&f[14]), f15: U::make(&f[15]), f16: U::make(&f[16]), f17: U::make(&f[17]), f18: U::make(&f[18]), f19: U::make(&f[19]), f20: U::make(&f[20]), f21: U::make(&f[21]), f22: U::make(&f[22]), f23: U::make(&f[23]), f24: U::make(&f[24]), f25: U::make(&f[25]), f26: U::make(&f[26]), f27: U::make(&f[27]), f28: U::make(&f[28]), f29: U::make(&f[29]), f30: U::make(&f[30]), f31: U::make(&f[31]), f32: U::make(&f[32]), f33: U::make(&f[33]), f34: U::make(&f[34]), f35: U::make(&f[35]), f36: U::make(&f[36]), f37: U::make(&f[37]), f38: U::make(&f[38]), f39: U::make(&f[39]), f40: U::make(&f[40]), f41: U::make(&f[41]), f42: U::make(&f[42]), f43: U::make(&f[43]), f44: U::make(&f[44]), f45: U::make(&f[45]), f46: U::make(&f[46]), f47: U::make(&f[47]), f48: U::make(&f[48]), f49: U::make(&f[49]), f50: U::make(&f[50]), f51: U::make(&f[51]), f52: U::make(&f[52]), f53: U::make(&f[53]), f54: U::make(&f[54]), f55: U::make(&f[55]), f56: U::make(&f[56]), f57: U::make(&f[57]), f58: U::make(&f[58]), f59: U::make(&f[59]), f60: U::make(&f[60]), f61: U::make(&f[61]), f62: U::make(&f[62]), f63: U::make(&f[63]), f64: U::make(&f[64]), f65: U::make(&f[65]), f66: U::make(&f[66]), f67: U::make(&f[67]), f68: U::make(&f[68]), f69: U::make(&f[69]), f70: U::make(&f[70]), f71: U::make(&f[71]), f72: U::make(&f[72]), f73: U::make(&f[73]), f74: U::make(&f[74]), f75: U::make(&f[75]), f76: U::make(&f[76]), f77: U::make(&f[77]), f78: U::make(&f[78]), f79: U::make(&f[79]), f80: U::make(&f[80]), f81: U::make(&f[81]), f82: U::make(&f[82]), f83: U::make(&f[83]), f84: U::make(&f[84]), f85: U::make(&f[85]), f86: U::make(&f[86]), f87: U::make(&f[87]), f88: U::make(&f[88]), f89: U::make(&f[89]), f90: U::make(&f[90]), f91: U::make(&f[91]), f92: U::make(&f[92]), f93: U::make(&f[93]), f94: U::make(&f[94]), f95: U::make(&f[95]), f96: U::make(&f[96]), f97: U::make(&f[97]), f98: U::make(&f[98]), f99: U::make(&f[99]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.f0.show(), self.f1.show(), self.f2.show(), self.f3.show(), self.f4.show(), self.f5.show(), self.f6.show(), self.f7.show(), self.f8.show(), self.f9.show(), self.f10.show(), self.f11.show(), self.f12.show(), self.f13.show(), self.f14.show(), self.f15.show(), self.f16.show(), self.f17.show(), self.f18.show(), self.f19.show(), self.f20.show(), self.f21.show(), self.f22.show(), self.f23.show(), self.f24.show(), self.f25.show(), self.f26.show(), self.f27.show(), self.f28.show(), self.f29.show(), self.f30.show(), self.f31.show(), self.f32.show(), self.f33.show(), self.f34.show(), self.f35.show(), self.f36.show(), self.f37.show(), self.f38.show(), self.f39.show(), self.f40.show(), self.f41.show(), self.f42.show(), self.f43.show(), self.f44.show(), self.f45.show(), self.f46.show(), self.f47.show(), self.f48.show(), self.f49.show(), self.f50.show(), self.f51.show(), self.f52.show(), self.f53.show(), self.f54.show(), self.f55.show(), self.f56.show(), self.f57.show(), self.f58.show(), self.f59.show(), self.f60.show(), self.f61.show(), self.f62.show(), self.f63.show(), self.f64.show(), self.f65.show(), self.f66.show(), self.f67.show(), self.f68.show(), self.f69.show(), self.f70.show(), self.f71.show(), self.f72.show(), self.f73.show(), self.f74.show(), self.f75.show(), self.f76.show(), self.f77.show(), self.f78.show(), self.f79.show(), self.f80.show(), self.f81.show(), self.f82.show(), self.f83.show(), self.f84.show(), self.f85.show(), self.f86.show(), self.f87.show(), self.f88.show(), self.f89.show(), self.f90.show(), self.f91.show(), self.f92.show(), self.f93.show(), self.f94.show(), self.f95.show(), self.f96.show(), self.f97.show(), self.f98.show(), self.f99.show()]})
    }
}
impl Layouts for W100 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(W100, f0), core::mem::offset_of!(W100, f1), core::mem::offset_of!(W100, f2), core::mem::offset_of!(W100, f3), core::mem::offset_of!(W100, f4), core::mem::offset_of!(W100, f5), core::mem::offset_of!(W100, f6), core::mem::offset_of!(W100, f7), core::mem::offset_of!(W100, f8), core::mem::offset_of!(W100, f9), core::mem::offset_of!(W100, f10), core::mem::offset_of!(W100, f11), core::mem::offset_of!(W100, f12), core::mem::offset_of!(W100, f13), core::mem::offset_of!(W100, f14), core::mem::offset_of!(W100, f15), core::mem::offset_of!(W100, f16), core::mem::offset_of!(W100, f17), core::mem::offset_of!(W100, f18), core::mem::offset_of!(W100, f19), core::mem::offset_of!(W100, f20), core::mem::offset_of!(W100, f21), core::mem::offset_of!(W100, f22), core::mem::offset_of!(W100, f23), core::mem::offset_of!(W100, f24), core::mem::offset_of!(W100, f25), core::mem::offset_of!(W100, f26), core::mem::offset_of!(W100, f27), core::mem::offset_of!(W100, f28), core::mem::offset_of!(W100, f29), core::mem::offset_of!(W100, f30), core::mem::offset_of!(W100, f31), core::mem::offset_of!(W100, f32), core::mem::offset_of!(W100, f33), core::mem::offset_of!(W100, f34), core::mem::offset_of!(W100, f35), core::mem::offset_of!(W100, f36), core::mem::offset_of!(W100, f37), core::mem::offset_of!(W100, f38), core::mem::offset_of!(W100, f39), core::mem::offset_of!(W100, f40), core::mem::offset_of!(W100, f41), core::mem::offset_of!(W100, f42), core::mem::offset_of!(W100, f43), core::mem::offset_of!(W100, f44), core::mem::offset_of!(W100, f45), core::mem::offset_of!(W100, f46), core::mem::offset_of!(W100, f47), core::mem::offset_of!(W100, f48), core::mem::offset_of!(W100, f49), core::mem::offset_of!(W100, f50), core::mem::offset_of!(W100, f51), core::mem::offset_of!(W100, f52), core::mem::offset_of!(W100, f53), core::mem::offset_of!(W100, f54), core::mem::offset_of!(W100, f55), core::mem::offset_of!(W100, f56), core::mem::offset_of!(W100, f57), core::mem::offset_of!(W100, f58), core::mem::offset_of!(W100, f59), core::mem::offset_of!(W100, f60), core::mem::offset_of!(W100, f61), core::mem::offset_of!(W100, f62), core::mem::offset_of!(W100, f63), core::mem::offset_of!(W100, f64), core::mem::offset_of!(W100, f65), core::mem::offset_of!(W100, f66), core::mem::offset_of!(W100, f67), core::mem::offset_of!(W100, f68), core::mem::offset_of!(W100, f69), core::mem::offset_of!(W100, f70), core::mem::offset_of!(W100, f71), core::mem::offset_of!(W100, f72), core::mem::offset_of!(W100, f73), core::mem::offset_of!(W100, f74), core::mem::offset_of!(W100, f75), core::mem::offset_of!(W100, f76), core::mem::offset_of!(W100, f77), core::mem::offset_of!(W100, f78), core::mem::offset_of!(W100, f79), core::mem::offset_of!(W100, f80), core::mem::offset_of!(W100, f81), core::mem::offset_of!(W100, f82), core::mem::offset_of!(W100, f83), core::mem::offset_of!(W100, f84), core::mem::offset_of!(W100, f85), core::mem::offset_of!(W100, f86), core::mem::offset_of!(W100, f87), core::mem::offset_of!(W100, f88), core::mem::offset_of!(W100, f89), core::mem::offset_of!(W100, f90), core::mem::offset_of!(W100, f91), core::mem::offset_of!(W100, f92), core::mem::offset_of!(W100, f93), core::mem::offset_of!(W100, f94), core::mem::offset_of!(W100, f95), core::mem::offset_of!(W100, f96), core::mem::offset_of!(W100, f97), core::mem::offset_of!(W100, f98), core::mem::offset_of!(W100, f99)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(u8)]
pub enum E40 {
    V0(u8),
    V1,
    V2,
    V3(u8),
    V4,
    V5,
    V6(u8),
    V7,
    V8,
    V9(u8),
    V10,
    V11,
    V12(u8),
    V13,
    V14,
    V15(u8),
    V16,
    V17,
    V18(u8),
    V19,
    V20,
    V21(u8),
    V22,
    V23,
    V24(u8),
    V25,
    V26,
    V27(u8),
    V28,
    V29,
    V30(u8),
    V31,
    V32,
    V33(u8),
    V34,
    V35,
    V36(u8),
    V37,
    V38,
    V39(u8),
}
impl U for E40 {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => E40::V0(U::make(&f[0])),
            2 => E40::V1,
            3 => E40::V2,
            4 => E40::V3(U::make(&f[0])),
            5 => E40::V4,
            6 => E40::V5,
            7 => E40::V6(U::make(&f[0])),
            8 => E40::V7,
            9 => E40::V8,
            10 => E40::V9(U::make(&f[0])),
            11 => E40::V10,
            12 => E40::V11,
            13 => E40::V12(U::make(&f[0])),
            14 => E40::V13,
            15 => E40::V14,
            16 => E40::V15(U::make(&f[0])),
            17 => E40::V16,
            18 => E40::V17,
            19 => E40::V18(U::make(&f[0])),
            20 => E40::V19,
            21 => E40::V20,
            22 => E40::V21(U::make(&f[0])),
            23 => E40::V22,
            24 => E40::V23,
            25 => E40::V24(U::make(&f[0])),
            26 => E40::V25,
            27 => E40::V26,
            28 => E40::V27(U::make(&f[0])),
            29 => E40::V28,
            30 => E40::V29,
            31 => E40::V30(U::make(&f[0])),
            32 => E40::V31,
            33 => E40::V32,
            34 => E40::V33(U::make(&f[0])),
            35 => E40::V34,
            36 => E40::V35,
            37 => E40::V36(U::make(&f[0])),
            38 => E40::V37,
            39 => E40::V38,
            40 => E40::V39(U::make(&f[0])),
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            E40::V0(a0) => json!({"t": "en", "i": 1, "f": [a0.show()]}),
            E40::V1 => json!({"t": "en", "i": 2, "f": []}),
            E40::V2 => json!({"t": "en", "i": 3, "f": []}),
            E40::V3(a0) => json!({"t": "en", "i": 4, "f": [a0.show()]}),
            E40::V4 => json!({"t": "en", "i": 5, "f": []}),
            E40::V5 => json!({"t": "en", "i": 6, "f": []}),
            E40::V6(a0) => json!({"t": "en", "i": 7, "f": [a0.show()]}),
            E40::V7 => json!({"t": "en", "i": 8, "f": []}),
            E40::V8 => json!({"t": "en", "i": 9, "f": []}),
            E40::V9(a0) => json!({"t": "en", "i": 10, "f": [a0.show()]}),
            E40::V10 => json!({"t": "en", "i": 11, "f": []}),
            E40::V11 => json!({"t": "en", "i": 12, "f": []}),
            E40::V12(a0) => json!({"t": "en", "i": 13, "f": [a0.show()]}),
            E40::V13 => json!({"t": "en", "i": 14, "f": []}),
            E40::V14 => json!({"t": "en", "i": 15, "f": []}),
            E40::V15(a0) => json!({"t": "en", "i": 16, "f": [a0.show()]}),
            E40::V16 => json!({"t": "en", "i": 17, "f": []}),
            E40::V17 => json!({"t": "en", "i": 18, "f": []}),
            E40::V18(a0) => json!({"t": "en", "i": 19, "f": [a0.show()]}),
            E40::V19 => json!({"t": "en", "i": 20, "f": []}),
            E40::V20 => json!({"t": "en", "i": 21, "f": []}),
            E40::V21(a0) => json!({"t": "en", "i": 22, "f": [a0.show()]}),
            E40::V22 => json!({"t": "en", "i": 23, "f": []}),
            E40::V23 => json!({"t": "en", "i": 24, "f": []}),
            E40::V24(a0) => json!({"t": "en", "i": 25, "f": [a0.show()]}),
            E40::V25 => json!({"t": "en", "i": 26, "f": []}),
            E40::V26 => json!({"t": "en", "i": 27, "f": []}),
            E40::V27(a0) => json!({"t": "en", "i": 28, "f": [a0.show()]}),
            E40::V28 => json!({"t": "en", "i": 29, "f": []}),
            E40::V29 => json!({"t": "en", "i": 30, "f": []}),
            E40::V30(a0) => json!({"t": "en", "i": 31, "f": [a0.show()]}),
            E40::V31 => json!({"t": "en", "i": 32, "f": []}),
            E40::V32 => json!({"t": "en", "i": 33, "f": []}),
            E40::V33(a0) => json!({"t": "en", "i": 34, "f": [a0.show()]}),
            E40::V34 => json!({"t": "en", "i": 35, "f": []}),
            E40::V35 => json!({"t": "en", "i": 36, "f": []}),
            E40::V36(a0) => json!({"t": "en", "i": 37, "f": [a0.show()]}),
            E40::V37 => json!({"t": "en", "i": 38, "f": []}),
            E40::V38 => json!({"t": "en", "i": 39, "f": []}),
            E40::V39(a0) => json!({"t": "en", "i": 40, "f": [a0.show()]}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Rg00 {
    pub _q: Vec<Tk>,
}
impl U for Rg00 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Rg00 { _q: U::make(&f[0]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self._q.show()]})
    }
}
impl Layouts for Rg00 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Rg00, _q)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Rg01 {
    #[facet(sensitive)]
    pub is_on: NonZeroUsize,
}
impl U for Rg01 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Rg01 { is_on: U::make(&f[0]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.is_on.show()]})
    }
}
impl Layouts for Rg01 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Rg01, is_on)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(i32)]
pub enum Rg02 {
    /// of A
    A(u128, Option<P2>, Option<Vec<Tk>>),
    Struct(#[facet(rename = "A b185")] f64),
}
impl U for Rg02 {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => Rg02::A(U::make(&f[0]), U::make(&f[1]), U::make(&f[2])),
            2 => Rg02::Struct(U::make(&f[0])),
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            Rg02::A(a0, a1, a2) => json!({"t": "en", "i": 1, "f": [a0.show(), a1.show(), a2.show()]}),
            Rg02::Struct(a0) => json!({"t": "en", "i": 2, "f": [a0.show()]}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Rg03 {
    #[facet(rename = "né83")]
    pub id: char,
    #[facet(sensitive)]
    pub name: isize,
    /// "quoted"
    /// about it
    #[facet(rename = "A b241")]
    pub x1: u8,
    pub T: KeyS,
    /// about it
    pub with_a_rather_long_name_of_many_words: Rg02,
    pub _q: NonZeroUsize,
    pub a: NonZeroU64,
    pub is_on: Tk,
    pub kids: (u8,),
    #[facet(default)]
    pub zz: Tk,
    pub left_over: Tk,
    pub ünï: Arc<Tk>,
}
impl U for Rg03 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Rg03 { id: U::make(&f[0]), name: U::make(&f[1]), x1: U::make(&f[2]), T: U::make(&f[3]), with_a_rather_long_name_of_many_words: U::make(&f[4]), _q: U::make(&f[5]), a: U::make(&f[6]), is_on: U::make(&f[7]), kids: U::make(&f[8]), zz: U::make(&f[9]), left_over: U::make(&f[10]), ünï: U::make(&f[11]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.id.show(), self.name.show(), self.x1.show(), self.T.show(), self.with_a_rather_long_name_of_many_words.show(), self._q.show(), self.a.show(), self.is_on.show(), self.kids.show(), self.zz.show(), self.left_over.show(), self.ünï.show()]})
    }
}
impl Layouts for Rg03 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Rg03, id), core::mem::offset_of!(Rg03, name), core::mem::offset_of!(Rg03, x1), core::mem::offset_of!(Rg03, T), core::mem::offset_of!(Rg03, with_a_rather_long_name_of_many_words), core::mem::offset_of!(Rg03, _q), core::mem::offset_of!(Rg03, a), core::mem::offset_of!(Rg03, is_on), core::mem::offset_of!(Rg03, kids), core::mem::offset_of!(Rg03, zz), core::mem::offset_of!(Rg03, left_over), core::mem::offset_of!(Rg03, ünï)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(isize)]
pub enum Rg04 {
    V2 {
        i: Option<Vec<Tk>>,
        #[facet(rename = "né52")]
        is_on: Cow<'static, str>,
        #[facet(level = 3)]
        b: IpAddr,
        #[facet(rename = "né652")]
        with_a_rather_long_name_of_many_words: Option<Option<Tk>>,
    },
    /// of Vv
    Vv {
        len: u32,
        name: NonZeroI16,
        _q: (),
        #[facet(rename = "A b600")]
        i: LyC,
    } = 32,
    Struct {
        #[facet(sensitive)]
        is_on: u64,
        id: Vec<Tk>,
    },
    Tuple {
        _q: KeyS,
        /// about it
        v: Zst,
        ünï: Option<Tk>,
        a: bool,
    } = 21,
    V1 = 397073141848,
    A {
        #[facet(sensitive)]
        id: EvEf,
    } = 20,
    String(Option<Rg01>, #[doc = " \"quoted\""] #[doc = " about it"] u16, Rg03, #[facet(call(x))] HashMap<String,Tk>, #[facet(rename = "né274")] NonZeroI64, &'static str) = 1,
    /// of AlphaBeta
    AlphaBeta(#[facet(sensitive)] String),
}
impl U for Rg04 {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => Rg04::V2 { i: U::make(&f[0]), is_on: U::make(&f[1]), b: U::make(&f[2]), with_a_rather_long_name_of_many_words: U::make(&f[3]) },
            2 => Rg04::Vv { len: U::make(&f[0]), name: U::make(&f[1]), _q: U::make(&f[2]), i: U::make(&f[3]) },
            3 => Rg04::Struct { is_on: U::make(&f[0]), id: U::make(&f[1]) },
            4 => Rg04::Tuple { _q: U::make(&f[0]), v: U::make(&f[1]), ünï: U::make(&f[2]), a: U::make(&f[3]) },
            5 => Rg04::V1,
            6 => Rg04::A { id: U::make(&f[0]) },
            7 => Rg04::String(U::make(&f[0]), U::make(&f[1]), U::make(&f[2]), U::make(&f[3]), U::make(&f[4]), U::make(&f[5])),
            8 => Rg04::AlphaBeta(U::make(&f[0])),
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            Rg04::V2 { i, is_on, b, with_a_rather_long_name_of_many_words } => json!({"t": "en", "i": 1, "f": [i.show(), is_on.show(), b.show(), with_a_rather_long_name_of_many_words.show()]}),
            Rg04::Vv { len, name, _q, i } => json!({"t": "en", "i": 2, "f": [len.show(), name.show(), _q.show(), i.show()]}),
            Rg04::Struct { is_on, id } => json!({"t": "en", "i": 3, "f": [is_on.show(), id.show()]}),
            Rg04::Tuple { _q, v, ünï, a } => json!({"t": "en", "i": 4, "f": [_q.show(), v.show(), ünï.show(), a.show()]}),
            Rg04::V1 => json!({"t": "en", "i": 5, "f": []}),
            Rg04::A { id } => json!({"t": "en", "i": 6, "f": [id.show()]}),
            Rg04::String(a0, a1, a2, a3, a4, a5) => json!({"t": "en", "i": 7, "f": [a0.show(), a1.show(), a2.show(), a3.show(), a4.show(), a5.show()]}),
            Rg04::AlphaBeta(a0) => json!({"t": "en", "i": 8, "f": [a0.show()]}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Rg05(pub char);
impl U for Rg05 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Rg05(U::make(&f[0]))
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.0.show()]})
    }
}
impl Layouts for Rg05 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Rg05, 0)]) } }

/// random
#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Rg06(pub i128, #[facet(sensitive)] pub Cow<'static, str>);
impl U for Rg06 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Rg06(U::make(&f[0]), U::make(&f[1]))
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.0.show(), self.1.show()]})
    }
}
impl Layouts for Rg06 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Rg06, 0), core::mem::offset_of!(Rg06, 1)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(i32)]
pub enum Rg07 {
    Err {
        /// twice
        /// about it
        with_a_rather_long_name_of_many_words: HashMap<u8,Tk>,
    } = 1953835749,
    B {
        #[facet(rename = "other27")]
        Kind: Tk,
        a: Vec<String>,
        /// "quoted"
        /// about it
        with_a_rather_long_name_of_many_words: Rg00,
    },
    V1(EvEf, #[facet(spare)] Vec<Rg04>) = 562000077,
    A(NonZeroU16, Vec<Rg02>, Mix),
}
impl U for Rg07 {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => Rg07::Err { with_a_rather_long_name_of_many_words: U::make(&f[0]) },
            2 => Rg07::B { Kind: U::make(&f[0]), a: U::make(&f[1]), with_a_rather_long_name_of_many_words: U::make(&f[2]) },
            3 => Rg07::V1(U::make(&f[0]), U::make(&f[1])),
            4 => Rg07::A(U::make(&f[0]), U::make(&f[1]), U::make(&f[2])),
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            Rg07::Err { with_a_rather_long_name_of_many_words } => json!({"t": "en", "i": 1, "f": [with_a_rather_long_name_of_many_words.show()]}),
            Rg07::B { Kind, a, with_a_rather_long_name_of_many_words } => json!({"t": "en", "i": 2, "f": [Kind.show(), a.show(), with_a_rather_long_name_of_many_words.show()]}),
            Rg07::V1(a0, a1) => json!({"t": "en", "i": 3, "f": [a0.show(), a1.show()]}),
            Rg07::A(a0, a1, a2) => json!({"t": "en", "i": 4, "f": [a0.show(), a1.show(), a2.show()]}),
        }
    }
}

/// random
#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Rg08 {
    pub v: NonZeroU128,
    pub n: Tk,
}
impl U for Rg08 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Rg08 { v: U::make(&f[0]), n: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.v.show(), self.n.show()]})
    }
}
impl Layouts for Rg08 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Rg08, v), core::mem::offset_of!(Rg08, n)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(u32)]
pub enum Rg09 {
    /// of x
    x {
        /// about it
        /// "quoted"
        #[facet(rename = "type556")]
        left_over: Tk,
        tag: Option<Option<Tk>>,
        i: Rg06,
    } = 1675891462,
    Zed(#[facet(rename = "A b198")] SocketAddr),
    Vv {
        x1: Rg05,
        value: Rg07,
    } = 66,
}
impl U for Rg09 {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => Rg09::x { left_over: U::make(&f[0]), tag: U::make(&f[1]), i: U::make(&f[2]) },
            2 => Rg09::Zed(U::make(&f[0])),
            3 => Rg09::Vv { x1: U::make(&f[0]), value: U::make(&f[1]) },
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            Rg09::x { left_over, tag, i } => json!({"t": "en", "i": 1, "f": [left_over.show(), tag.show(), i.show()]}),
            Rg09::Zed(a0) => json!({"t": "en", "i": 2, "f": [a0.show()]}),
            Rg09::Vv { x1, value } => json!({"t": "en", "i": 3, "f": [x1.show(), value.show()]}),
        }
    }
}

/// random
#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Rg10(#[facet(sensitive)] pub P2);
impl U for Rg10 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Rg10(U::make(&f[0]))
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.0.show()]})
    }
}
impl Layouts for Rg10 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Rg10, 0)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(C)]
pub enum Rg11 {
    Ok(Rg05, #[doc = " about it"] i64),
    A(EvEf),
    Unit {
        name: Rg04,
        #[facet(rename = "other356")]
        n: LyU64,
        #[facet(call(x))]
        b: u8,
        #[facet(rename = "type859")]
        with_a_rather_long_name_of_many_words: NonZeroU32,
        /// about it
        /// twice
        #[facet(rename = "type7")]
        v: Vec<P2>,
        key: Rg08,
    },
    Self_(Option<Option<Tk>>),
    V1(Option<u8>),
    B {
        is_on: isize,
    },
}
impl U for Rg11 {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => Rg11::Ok(U::make(&f[0]), U::make(&f[1])),
            2 => Rg11::A(U::make(&f[0])),
            3 => Rg11::Unit { name: U::make(&f[0]), n: U::make(&f[1]), b: U::make(&f[2]), with_a_rather_long_name_of_many_words: U::make(&f[3]), v: U::make(&f[4]), key: U::make(&f[5]) },
            4 => Rg11::Self_(U::make(&f[0])),
            5 => Rg11::V1(U::make(&f[0])),
            6 => Rg11::B { is_on: U::make(&f[0]) },
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            Rg11::Ok(a0, a1) => json!({"t": "en", "i": 1, "f": [a0.show(), a1.show()]}),
            Rg11::A(a0) => json!({"t": "en", "i": 2, "f": [a0.show()]}),
            Rg11::Unit { name, n, b, with_a_rather_long_name_of_many_words, v, key } => json!({"t": "en", "i": 3, "f": [name.show(), n.show(), b.show(), with_a_rather_long_name_of_many_words.show(), v.show(), key.show()]}),
            Rg11::Self_(a0) => json!({"t": "en", "i": 4, "f": [a0.show()]}),
            Rg11::V1(a0) => json!({"t": "en", "i": 5, "f": [a0.show()]}),
            Rg11::B { is_on } => json!({"t": "en", "i": 6, "f": [is_on.show()]}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(u32)]
pub enum Rg12 {
    Self_ {
        i: Option<Rg11>,
        T: Rg09,
        /// twice
        _q: NonZeroU8,
        #[facet(call(x))]
        tag: Arc<Tk>,
    },
    Err((u8,), #[facet(rename = "other927")] EvEf),
    B = 8,
    Struct,
    Zed {
        v: NonZeroI16,
        key: Option<Rg04>,
        name: Rg08,
        /// "quoted"
        /// "quoted"
        value: u8,
        #[facet(rename = "né762")]
        ünï: [u8;3],
        tag: EvEf,
    },
    Ok(#[doc = " \"quoted\""] #[doc = " \"quoted\""] Vec<Vec<Tk>>, #[facet(sensitive)] u128, #[doc = " twice"] (u8,), #[facet(rename = "type849")] Rg07),
    Vv,
    Tuple {
        id: Option<Rg11>,
        kids: NonZeroUsize,
        name: Rg00,
        tag: i8,
        is_on: isize,
        #[facet(spare)]
        zz: Rg11,
    },
}
impl U for Rg12 {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => Rg12::Self_ { i: U::make(&f[0]), T: U::make(&f[1]), _q: U::make(&f[2]), tag: U::make(&f[3]) },
            2 => Rg12::Err(U::make(&f[0]), U::make(&f[1])),
            3 => Rg12::B,
            4 => Rg12::Struct,
            5 => Rg12::Zed { v: U::make(&f[0]), key: U::make(&f[1]), name: U::make(&f[2]), value: U::make(&f[3]), ünï: U::make(&f[4]), tag: U::make(&f[5]) },
            6 => Rg12::Ok(U::make(&f[0]), U::make(&f[1]), U::make(&f[2]), U::make(&f[3])),
            7 => Rg12::Vv,
            8 => Rg12::Tuple { id: U::make(&f[0]), kids: U::make(&f[1]), name: U::make(&f[2]), tag: U::make(&f[3]), is_on: U::make(&f[4]), zz: U::make(&f[5]) },
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            Rg12::Self_ { i, T, _q, tag } => json!({"t": "en", "i": 1, "f": [i.show(), T.show(), _q.show(), tag.show()]}),
            Rg12::Err(a0, a1) => json!({"t": "en", "i": 2, "f": [a0.show(), a1.show()]}),
            Rg12::B => json!({"t": "en", "i": 3, "f": []}),
            Rg12::Struct => json!({"t": "en", "i": 4, "f": []}),
            Rg12::Zed { v, key, name, value, ünï, tag } => json!({"t": "en", "i": 5, "f": [v.show(), key.show(), name.show(), value.show(), ünï.show(), tag.show()]}),
            Rg12::Ok(a0, a1, a2, a3) => json!({"t": "en", "i": 6, "f": [a0.show(), a1.show(), a2.show(), a3.show()]}),
            Rg12::Vv => json!({"t": "en", "i": 7, "f": []}),
            Rg12::Tuple { id, kids, name, tag, is_on, zz } => json!({"t": "en", "i": 8, "f": [id.show(), kids.show(), name.show(), tag.show(), is_on.show(), zz.show()]}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Rg13 {
    pub len: Vec<Vec<Tk>>,
    pub zz: Sec,
    #[facet(rename = "A b473")]
    pub value: Vec<String>,
    pub x1: Rg08,
}
impl U for Rg13 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Rg13 { len: U::make(&f[0]), zz: U::make(&f[1]), value: U::make(&f[2]), x1: U::make(&f[3]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.len.show(), self.zz.show(), self.value.show(), self.x1.show()]})
    }
}
impl Layouts for Rg13 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Rg13, len), core::mem::offset_of!(Rg13, zz), core::mem::offset_of!(Rg13, value), core::mem::offset_of!(Rg13, x1)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(i32)]
pub enum Rg14 {
    Tuple = 15,
    None {
        n: Vec<Un>,
    } = 31,
}
impl U for Rg14 {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => Rg14::Tuple,
            2 => Rg14::None { n: U::make(&f[0]) },
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            Rg14::Tuple => json!({"t": "en", "i": 1, "f": []}),
            Rg14::None { n } => json!({"t": "en", "i": 2, "f": [n.show()]}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Rg15 {
    pub b: Rg08,
}
impl U for Rg15 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Rg15 { b: U::make(&f[0]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.b.show()]})
    }
}
impl Layouts for Rg15 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Rg15, b)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Rj00 {
    #[facet(default)]
    pub x1: Option<u8>,
}
impl U for Rj00 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Rj00 { x1: U::make(&f[0]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.x1.show()]})
    }
}
impl Layouts for Rj00 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Rj00, x1)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Rj01 {
    pub kids: f32,
    pub ünï: Rj00,
}
impl U for Rj01 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Rj01 { kids: U::make(&f[0]), ünï: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.kids.show(), self.ünï.show()]})
    }
}
impl Layouts for Rj01 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Rj01, kids), core::mem::offset_of!(Rj01, ünï)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Rj02 {
    #[facet(rename = "A b334")]
    pub v: i64,
}
impl U for Rj02 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Rj02 { v: U::make(&f[0]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.v.show()]})
    }
}
impl Layouts for Rj02 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Rj02, v)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Rj03 {
    pub value: u8,
    pub key: u64,
}
impl U for Rj03 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Rj03 { value: U::make(&f[0]), key: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.value.show(), self.key.show()]})
    }
}
impl Layouts for Rj03 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Rj03, value), core::mem::offset_of!(Rj03, key)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
#[facet(deny_unknown_fields)]
pub struct Rj04 {
    pub value: i16,
    pub v: bool,
    pub with_a_rather_long_name_of_many_words: i8,
    pub tag: Vec<u8>,
    pub left_over: Flat,
    #[facet(default)]
    pub len: Vec<Vec<i32>>,
    pub zz: Flat,
    pub n: Mp0,
    pub data: i16,
    pub id: i64,
    #[facet(default)]
    pub Kind: Option<Rj03>,
    pub is_on: i8,
}
impl U for Rj04 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Rj04 { value: U::make(&f[0]), v: U::make(&f[1]), with_a_rather_long_name_of_many_words: U::make(&f[2]), tag: U::make(&f[3]), left_over: U::make(&f[4]), len: U::make(&f[5]), zz: U::make(&f[6]), n: U::make(&f[7]), data: U::make(&f[8]), id: U::make(&f[9]), Kind: U::make(&f[10]), is_on: U::make(&f[11]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.value.show(), self.v.show(), self.with_a_rather_long_name_of_many_words.show(), self.tag.show(), self.left_over.show(), self.len.show(), self.zz.show(), self.n.show(), self.data.show(), self.id.show(), self.Kind.show(), self.is_on.show()]})
    }
}
impl Layouts for Rj04 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Rj04, value), core::mem::offset_of!(Rj04, v), core::mem::offset_of!(Rj04, with_a_rather_long_name_of_many_words), core::mem::offset_of!(Rj04, tag), core::mem::offset_of!(Rj04, left_over), core::mem::offset_of!(Rj04, len), core::mem::offset_of!(Rj04, zz), core::mem::offset_of!(Rj04, n), core::mem::offset_of!(Rj04, data), core::mem::offset_of!(Rj04, id), core::mem::offset_of!(Rj04, Kind), core::mem::offset_of!(Rj04, is_on)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Rj05 {
    pub len: Vec<String>,
    #[facet(rename = "type526")]
    pub zz: u64,
    #[facet(default)]
    pub value: f64,
    pub id: Option<Rj03>,
    pub tag: Rj00,
    pub n: bool,
    pub is_on: i16,
    pub ünï: u16,
    #[facet(rename = "type684")]
    pub key: Rj03,
    pub x1: Rj01,
    pub name: Vec<Rj01>,
    pub kids: u64,
}
impl U for Rj05 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Rj05 { len: U::make(&f[0]), zz: U::make(&f[1]), value: U::make(&f[2]), id: U::make(&f[3]), tag: U::make(&f[4]), n: U::make(&f[5]), is_on: U::make(&f[6]), ünï: U::make(&f[7]), key: U::make(&f[8]), x1: U::make(&f[9]), name: U::make(&f[10]), kids: U::make(&f[11]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.len.show(), self.zz.show(), self.value.show(), self.id.show(), self.tag.show(), self.n.show(), self.is_on.show(), self.ünï.show(), self.key.show(), self.x1.show(), self.name.show(), self.kids.show()]})
    }
}
impl Layouts for Rj05 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Rj05, len), core::mem::offset_of!(Rj05, zz), core::mem::offset_of!(Rj05, value), core::mem::offset_of!(Rj05, id), core::mem::offset_of!(Rj05, tag), core::mem::offset_of!(Rj05, n), core::mem::offset_of!(Rj05, is_on), core::mem::offset_of!(Rj05, ünï), core::mem::offset_of!(Rj05, key), core::mem::offset_of!(Rj05, x1), core::mem::offset_of!(Rj05, name), core::mem::offset_of!(Rj05, kids)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Rj06 {
    pub data: Option<u8>,
    pub key: Rj04,
    #[facet(rename = "type499")]
    pub v: Rj03,
    pub T: i32,
    /// about it
    /// about it
    pub ünï: Vec<String>,
    #[facet(default)]
    pub _q: u64,
    /// "quoted"
    /// about it
    pub i: usize,
    pub len: Option<f32>,
    #[facet(rename = "né790")]
    pub n: Rj00,
}
impl U for Rj06 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Rj06 { data: U::make(&f[0]), key: U::make(&f[1]), v: U::make(&f[2]), T: U::make(&f[3]), ünï: U::make(&f[4]), _q: U::make(&f[5]), i: U::make(&f[6]), len: U::make(&f[7]), n: U::make(&f[8]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.data.show(), self.key.show(), self.v.show(), self.T.show(), self.ünï.show(), self._q.show(), self.i.show(), self.len.show(), self.n.show()]})
    }
}
impl Layouts for Rj06 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Rj06, data), core::mem::offset_of!(Rj06, key), core::mem::offset_of!(Rj06, v), core::mem::offset_of!(Rj06, T), core::mem::offset_of!(Rj06, ünï), core::mem::offset_of!(Rj06, _q), core::mem::offset_of!(Rj06, i), core::mem::offset_of!(Rj06, len), core::mem::offset_of!(Rj06, n)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Rj07 {
    #[facet(rename = "other340")]
    pub left_over: i32,
}
impl U for Rj07 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Rj07 { left_over: U::make(&f[0]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.left_over.show()]})
    }
}
impl Layouts for Rj07 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Rj07, left_over)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Rm00 {
    /// "quoted"
    pub value: i64,
    pub x1: MpX,
}
impl U for Rm00 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Rm00 { value: U::make(&f[0]), x1: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.value.show(), self.x1.show()]})
    }
}
impl Layouts for Rm00 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Rm00, value), core::mem::offset_of!(Rm00, x1)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Rm01 {
    pub _q: Mp0,
    pub with_a_rather_long_name_of_many_words: i16,
    pub x1: i8,
    pub kids: MpX,
    pub id: MpI,
    pub a: String,
    pub len: i8,
    pub data: u64,
    pub ünï: i64,
}
impl U for Rm01 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Rm01 { _q: U::make(&f[0]), with_a_rather_long_name_of_many_words: U::make(&f[1]), x1: U::make(&f[2]), kids: U::make(&f[3]), id: U::make(&f[4]), a: U::make(&f[5]), len: U::make(&f[6]), data: U::make(&f[7]), ünï: U::make(&f[8]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self._q.show(), self.with_a_rather_long_name_of_many_words.show(), self.x1.show(), self.kids.show(), self.id.show(), self.a.show(), self.len.show(), self.data.show(), self.ünï.show()]})
    }
}
impl Layouts for Rm01 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Rm01, _q), core::mem::offset_of!(Rm01, with_a_rather_long_name_of_many_words), core::mem::offset_of!(Rm01, x1), core::mem::offset_of!(Rm01, kids), core::mem::offset_of!(Rm01, id), core::mem::offset_of!(Rm01, a), core::mem::offset_of!(Rm01, len), core::mem::offset_of!(Rm01, data), core::mem::offset_of!(Rm01, ünï)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Rm02 {
    pub x1: Rm01,
    pub T: u16,
    pub i: u32,
    pub v: i16,
}
impl U for Rm02 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Rm02 { x1: U::make(&f[0]), T: U::make(&f[1]), i: U::make(&f[2]), v: U::make(&f[3]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.x1.show(), self.T.show(), self.i.show(), self.v.show()]})
    }
}
impl Layouts for Rm02 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Rm02, x1), core::mem::offset_of!(Rm02, T), core::mem::offset_of!(Rm02, i), core::mem::offset_of!(Rm02, v)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Rm03 {
    pub tag: Rm00,
    pub name: i32,
    pub zz: u8,
    pub Kind: MpI,
    pub value: MpX,
    pub b: Mp0,
    pub a: Rm01,
    pub len: String,
    pub with_a_rather_long_name_of_many_words: i8,
    pub _q: bool,
    pub left_over: i16,
    pub ünï: Rm02,
}
impl U for Rm03 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Rm03 { tag: U::make(&f[0]), name: U::make(&f[1]), zz: U::make(&f[2]), Kind: U::make(&f[3]), value: U::make(&f[4]), b: U::make(&f[5]), a: U::make(&f[6]), len: U::make(&f[7]), with_a_rather_long_name_of_many_words: U::make(&f[8]), _q: U::make(&f[9]), left_over: U::make(&f[10]), ünï: U::make(&f[11]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.tag.show(), self.name.show(), self.zz.show(), self.Kind.show(), self.value.show(), self.b.show(), self.a.show(), self.len.show(), self.with_a_rather_long_name_of_many_words.show(), self._q.show(), self.left_over.show(), self.ünï.show()]})
    }
}
impl Layouts for Rm03 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Rm03, tag), core::mem::offset_of!(Rm03, name), core::mem::offset_of!(Rm03, zz), core::mem::offset_of!(Rm03, Kind), core::mem::offset_of!(Rm03, value), core::mem::offset_of!(Rm03, b), core::mem::offset_of!(Rm03, a), core::mem::offset_of!(Rm03, len), core::mem::offset_of!(Rm03, with_a_rather_long_name_of_many_words), core::mem::offset_of!(Rm03, _q), core::mem::offset_of!(Rm03, left_over), core::mem::offset_of!(Rm03, ünï)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Rm04 {
    pub Kind: MpX,
    pub zz: u32,
    pub left_over: MpI,
    pub len: i64,
}
impl U for Rm04 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Rm04 { Kind: U::make(&f[0]), zz: U::make(&f[1]), left_over: U::make(&f[2]), len: U::make(&f[3]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.Kind.show(), self.zz.show(), self.left_over.show(), self.len.show()]})
    }
}
impl Layouts for Rm04 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Rm04, Kind), core::mem::offset_of!(Rm04, zz), core::mem::offset_of!(Rm04, left_over), core::mem::offset_of!(Rm04, len)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Rt00 {
    pub len: HashMap<String,u8>,
    pub b: i32,
    pub zz: Tv,
}
impl U for Rt00 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Rt00 { len: U::make(&f[0]), b: U::make(&f[1]), zz: U::make(&f[2]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.len.show(), self.b.show(), self.zz.show()]})
    }
}
impl Layouts for Rt00 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Rt00, len), core::mem::offset_of!(Rt00, b), core::mem::offset_of!(Rt00, zz)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Rt01 {
    pub zz: Shp,
    pub ünï: u32,
    pub x1: Tv,
    pub with_a_rather_long_name_of_many_words: String,
    pub len: i16,
    pub T: Shp,
    pub is_on: HashMap<String,CfgO>,
}
impl U for Rt01 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Rt01 { zz: U::make(&f[0]), ünï: U::make(&f[1]), x1: U::make(&f[2]), with_a_rather_long_name_of_many_words: U::make(&f[3]), len: U::make(&f[4]), T: U::make(&f[5]), is_on: U::make(&f[6]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.zz.show(), self.ünï.show(), self.x1.show(), self.with_a_rather_long_name_of_many_words.show(), self.len.show(), self.T.show(), self.is_on.show()]})
    }
}
impl Layouts for Rt01 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Rt01, zz), core::mem::offset_of!(Rt01, ünï), core::mem::offset_of!(Rt01, x1), core::mem::offset_of!(Rt01, with_a_rather_long_name_of_many_words), core::mem::offset_of!(Rt01, len), core::mem::offset_of!(Rt01, T), core::mem::offset_of!(Rt01, is_on)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(u64)]
pub enum Rt02 {
    /// of V1
    V1 {
        x1: i8,
    },
    Vv,
    Unit {
        name: Option<Mode>,
        value: Vec<Mode>,
        with_a_rather_long_name_of_many_words: bool,
        len: HashMap<String,CfgO>,
        id: i64,
        zz: Option<Rt01>,
    },
    Ok {
        /// about it
        /// twice
        x1: HashMap<String,u8>,
        _q: i32,
        b: Rt01,
    },
    V2 = 520853975640,
}
impl U for Rt02 {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => Rt02::V1 { x1: U::make(&f[0]) },
            2 => Rt02::Vv,
            3 => Rt02::Unit { name: U::make(&f[0]), value: U::make(&f[1]), with_a_rather_long_name_of_many_words: U::make(&f[2]), len: U::make(&f[3]), id: U::make(&f[4]), zz: U::make(&f[5]) },
            4 => Rt02::Ok { x1: U::make(&f[0]), _q: U::make(&f[1]), b: U::make(&f[2]) },
            5 => Rt02::V2,
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            Rt02::V1 { x1 } => json!({"t": "en", "i": 1, "f": [x1.show()]}),
            Rt02::Vv => json!({"t": "en", "i": 2, "f": []}),
            Rt02::Unit { name, value, with_a_rather_long_name_of_many_words, len, id, zz } => json!({"t": "en", "i": 3, "f": [name.show(), value.show(), with_a_rather_long_name_of_many_words.show(), len.show(), id.show(), zz.show()]}),
            Rt02::Ok { x1, _q, b } => json!({"t": "en", "i": 4, "f": [x1.show(), _q.show(), b.show()]}),
            Rt02::V2 => json!({"t": "en", "i": 5, "f": []}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Rt03 {
    pub x1: Shp,
    pub v: f64,
    pub Kind: Rt02,
    pub is_on: Mode,
    pub tag: Option<Mode>,
    pub i: Option<u8>,
    pub id: Option<bool>,
    pub with_a_rather_long_name_of_many_words: i16,
    pub T: f64,
    pub n: Option<Rt00>,
    pub a: i16,
    pub _q: Option<Rt01>,
}
impl U for Rt03 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Rt03 { x1: U::make(&f[0]), v: U::make(&f[1]), Kind: U::make(&f[2]), is_on: U::make(&f[3]), tag: U::make(&f[4]), i: U::make(&f[5]), id: U::make(&f[6]), with_a_rather_long_name_of_many_words: U::make(&f[7]), T: U::make(&f[8]), n: U::make(&f[9]), a: U::make(&f[10]), _q: U::make(&f[11]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.x1.show(), self.v.show(), self.Kind.show(), self.is_on.show(), self.tag.show(), self.i.show(), self.id.show(), self.with_a_rather_long_name_of_many_words.show(), self.T.show(), self.n.show(), self.a.show(), self._q.show()]})
    }
}
impl Layouts for Rt03 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Rt03, x1), core::mem::offset_of!(Rt03, v), core::mem::offset_of!(Rt03, Kind), core::mem::offset_of!(Rt03, is_on), core::mem::offset_of!(Rt03, tag), core::mem::offset_of!(Rt03, i), core::mem::offset_of!(Rt03, id), core::mem::offset_of!(Rt03, with_a_rather_long_name_of_many_words), core::mem::offset_of!(Rt03, T), core::mem::offset_of!(Rt03, n), core::mem::offset_of!(Rt03, a), core::mem::offset_of!(Rt03, _q)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
#[repr(u8)]
pub enum Rt04 {
    V1,
    B {
        T: u32,
        i: i64,
    } = 50,
    Vv {
        /// twice
        /// about it
        len: Vec<Vec<i32>>,
        name: Rt01,
    },
}
impl U for Rt04 {
    fn make(j: &J) -> Self {
        let f = &j["f"]; let _ = f;
        match j["i"].as_u64().unwrap() {
            1 => Rt04::V1,
            2 => Rt04::B { T: U::make(&f[0]), i: U::make(&f[1]) },
            3 => Rt04::Vv { len: U::make(&f[0]), name: U::make(&f[1]) },
            _ => unreachable!(),
        }
    }
    fn show(&self) -> J {
        match self {
            Rt04::V1 => json!({"t": "en", "i": 1, "f": []}),
            Rt04::B { T, i } => json!({"t": "en", "i": 2, "f": [T.show(), i.show()]}),
            Rt04::Vv { len, name } => json!({"t": "en", "i": 3, "f": [len.show(), name.show()]}),
        }
    }
}

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Rt05 {
    pub kids: Option<CfgO>,
    pub T: String,
    pub with_a_rather_long_name_of_many_words: Rt04,
    pub i: i32,
    pub v: String,
    pub left_over: HashMap<String,CfgO>,
    pub zz: String,
    pub id: Option<Mode>,
    pub b: u32,
    pub tag: String,
    pub len: Rt00,
    pub value: f32,
}
impl U for Rt05 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Rt05 { kids: U::make(&f[0]), T: U::make(&f[1]), with_a_rather_long_name_of_many_words: U::make(&f[2]), i: U::make(&f[3]), v: U::make(&f[4]), left_over: U::make(&f[5]), zz: U::make(&f[6]), id: U::make(&f[7]), b: U::make(&f[8]), tag: U::make(&f[9]), len: U::make(&f[10]), value: U::make(&f[11]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.kids.show(), self.T.show(), self.with_a_rather_long_name_of_many_words.show(), self.i.show(), self.v.show(), self.left_over.show(), self.zz.show(), self.id.show(), self.b.show(), self.tag.show(), self.len.show(), self.value.show()]})
    }
}
impl Layouts for Rt05 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Rt05, kids), core::mem::offset_of!(Rt05, T), core::mem::offset_of!(Rt05, with_a_rather_long_name_of_many_words), core::mem::offset_of!(Rt05, i), core::mem::offset_of!(Rt05, v), core::mem::offset_of!(Rt05, left_over), core::mem::offset_of!(Rt05, zz), core::mem::offset_of!(Rt05, id), core::mem::offset_of!(Rt05, b), core::mem::offset_of!(Rt05, tag), core::mem::offset_of!(Rt05, len), core::mem::offset_of!(Rt05, value)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Ru00 {
    pub i: String,
    pub name: FormV,
}
impl U for Ru00 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Ru00 { i: U::make(&f[0]), name: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.i.show(), self.name.show()]})
    }
}
impl Layouts for Ru00 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Ru00, i), core::mem::offset_of!(Ru00, name)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Ru01 {
    pub value: u64,
    pub _q: u64,
}
impl U for Ru01 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Ru01 { value: U::make(&f[0]), _q: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.value.show(), self._q.show()]})
    }
}
impl Layouts for Ru01 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Ru01, value), core::mem::offset_of!(Ru01, _q)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Ru02 {
    pub ünï: u64,
    pub name: String,
}
impl U for Ru02 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Ru02 { ünï: U::make(&f[0]), name: U::make(&f[1]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.ünï.show(), self.name.show()]})
    }
}
impl Layouts for Ru02 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Ru02, ünï), core::mem::offset_of!(Ru02, name)]) } }

#[derive(Facet, Clone, Debug, PartialEq)]
pub struct Ru03 {
    pub is_on: FormV,
    pub key: u64,
    pub name: u64,
    pub data: String,
    /// about it
    pub _q: Ru00,
    pub i: YmI,
    /// about it
    /// twice
    pub kids: Ru01,
    /// "quoted"
    pub left_over: u64,
    pub b: YmI,
}
impl U for Ru03 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Ru03 { is_on: U::make(&f[0]), key: U::make(&f[1]), name: U::make(&f[2]), data: U::make(&f[3]), _q: U::make(&f[4]), i: U::make(&f[5]), kids: U::make(&f[6]), left_over: U::make(&f[7]), b: U::make(&f[8]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.is_on.show(), self.key.show(), self.name.show(), self.data.show(), self._q.show(), self.i.show(), self.kids.show(), self.left_over.show(), self.b.show()]})
    }
}
impl Layouts for Ru03 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Ru03, is_on), core::mem::offset_of!(Ru03, key), core::mem::offset_of!(Ru03, name), core::mem::offset_of!(Ru03, data), core::mem::offset_of!(Ru03, _q), core::mem::offset_of!(Ru03, i), core::mem::offset_of!(Ru03, kids), core::mem::offset_of!(Ru03, left_over), core::mem::offset_of!(Ru03, b)]) } }

#[derive(Facet, Debug)]
pub struct Ra00 {
    #[facet(named)]
    pub tag: bool,
    #[facet(positional)]
    pub i: i64,
    #[facet(named)]
    pub id: char,
    #[facet(named)]
    pub data: u8,
}
impl U for Ra00 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Ra00 { tag: U::make(&f[0]), i: U::make(&f[1]), id: U::make(&f[2]), data: U::make(&f[3]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.tag.show(), self.i.show(), self.id.show(), self.data.show()]})
    }
}
impl Layouts for Ra00 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Ra00, tag), core::mem::offset_of!(Ra00, i), core::mem::offset_of!(Ra00, id), core::mem::offset_of!(Ra00, data)]) } }

#[derive(Facet, Debug)]
pub struct Ra01 {
    #[facet(named)]
    pub b: f64,
    #[facet(named)]
    pub T: bool,
    #[facet(positional)]
    pub with_a_rather_long_name_of_many_words: u8,
    #[facet(named)]
    pub is_on: String,
    #[facet(named)]
    pub tag: f64,
    #[facet(named)]
    pub zz: u8,
    #[facet(named)]
    pub value: bool,
}
impl U for Ra01 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Ra01 { b: U::make(&f[0]), T: U::make(&f[1]), with_a_rather_long_name_of_many_words: U::make(&f[2]), is_on: U::make(&f[3]), tag: U::make(&f[4]), zz: U::make(&f[5]), value: U::make(&f[6]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.b.show(), self.T.show(), self.with_a_rather_long_name_of_many_words.show(), self.is_on.show(), self.tag.show(), self.zz.show(), self.value.show()]})
    }
}
impl Layouts for Ra01 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Ra01, b), core::mem::offset_of!(Ra01, T), core::mem::offset_of!(Ra01, with_a_rather_long_name_of_many_words), core::mem::offset_of!(Ra01, is_on), core::mem::offset_of!(Ra01, tag), core::mem::offset_of!(Ra01, zz), core::mem::offset_of!(Ra01, value)]) } }

#[derive(Facet, Debug)]
pub struct Ra02 {
    #[facet(positional)]
    pub i: String,
    #[facet(named)]
    pub n: String,
    #[facet(named)]
    pub Kind: f64,
    #[facet(named)]
    pub a: bool,
    #[facet(positional)]
    pub tag: u8,
    #[facet(named)]
    pub key: bool,
    #[facet(named)]
    pub T: bool,
}
impl U for Ra02 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Ra02 { i: U::make(&f[0]), n: U::make(&f[1]), Kind: U::make(&f[2]), a: U::make(&f[3]), tag: U::make(&f[4]), key: U::make(&f[5]), T: U::make(&f[6]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.i.show(), self.n.show(), self.Kind.show(), self.a.show(), self.tag.show(), self.key.show(), self.T.show()]})
    }
}
impl Layouts for Ra02 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Ra02, i), core::mem::offset_of!(Ra02, n), core::mem::offset_of!(Ra02, Kind), core::mem::offset_of!(Ra02, a), core::mem::offset_of!(Ra02, tag), core::mem::offset_of!(Ra02, key), core::mem::offset_of!(Ra02, T)]) } }

#[derive(Facet, Debug)]
pub struct Ra03 {
    #[facet(named)]
    pub name: String,
    #[facet(positional)]
    pub with_a_rather_long_name_of_many_words: usize,
    #[facet(named)]
    pub left_over: bool,
    #[facet(positional)]
    pub zz: char,
    #[facet(positional)]
    pub id: usize,
    #[facet(named)]
    pub len: bool,
    #[facet(named)]
    pub is_on: usize,
}
impl U for Ra03 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Ra03 { name: U::make(&f[0]), with_a_rather_long_name_of_many_words: U::make(&f[1]), left_over: U::make(&f[2]), zz: U::make(&f[3]), id: U::make(&f[4]), len: U::make(&f[5]), is_on: U::make(&f[6]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.name.show(), self.with_a_rather_long_name_of_many_words.show(), self.left_over.show(), self.zz.show(), self.id.show(), self.len.show(), self.is_on.show()]})
    }
}
impl Layouts for Ra03 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Ra03, name), core::mem::offset_of!(Ra03, with_a_rather_long_name_of_many_words), core::mem::offset_of!(Ra03, left_over), core::mem::offset_of!(Ra03, zz), core::mem::offset_of!(Ra03, id), core::mem::offset_of!(Ra03, len), core::mem::offset_of!(Ra03, is_on)]) } }

#[derive(Facet, Debug)]
pub struct Ra04 {
    #[facet(named)]
    pub zz: u8,
    #[facet(named)]
    pub T: bool,
    #[facet(positional)]
    pub n: String,
    #[facet(positional)]
    pub tag: u8,
}
impl U for Ra04 {
    fn make(j: &J) -> Self {
        let f = &j["f"];
        Ra04 { zz: U::make(&f[0]), T: U::make(&f[1]), n: U::make(&f[2]), tag: U::make(&f[3]) }
    }
    fn show(&self) -> J {
        json!({"t": "st", "f": [self.zz.show(), self.T.show(), self.n.show(), self.tag.show()]})
    }
}
impl Layouts for Ra04 { fn offsets() -> Option<Vec<usize>> { Some(vec![core::mem::offset_of!(Ra04, zz), core::mem::offset_of!(Ra04, T), core::mem::offset_of!(Ra04, n), core::mem::offset_of!(Ra04, tag)]) } }

pub fn registry() -> Vec<TypeOps> {
    vec![
        crate::ops!((), no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!(bool, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Display, FromStr, Copy),
        crate::ops!(f32, no, Clone, Debug, Default, PartialEq, PartialOrd, Display, FromStr, Copy),
        crate::ops!(f64, no, Clone, Debug, Default, PartialEq, PartialOrd, Display, FromStr, Copy),
        crate::ops!(char, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Display, FromStr, Copy),
        crate::ops!(String, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Display, FromStr),
        crate::ops!(Tk, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Display, FromStr),
        crate::ops!(u8, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Display, FromStr, Copy),
        crate::ops!(u16, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Display, FromStr, Copy),
        crate::ops!(u32, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Display, FromStr, Copy),
        crate::ops!(u64, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Display, FromStr, Copy),
        crate::ops!(u128, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Display, FromStr, Copy),
        crate::ops!(usize, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Display, FromStr, Copy),
        crate::ops!(i8, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Display, FromStr, Copy),
        crate::ops!(i16, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Display, FromStr, Copy),
        crate::ops!(i32, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Display, FromStr, Copy),
        crate::ops!(i64, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Display, FromStr, Copy),
        crate::ops!(i128, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Display, FromStr, Copy),
        crate::ops!(isize, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Display, FromStr, Copy),
        crate::ops!(NonZeroU8, no, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Display, FromStr, Copy),
        crate::ops!(NonZeroU16, no, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Display, FromStr, Copy),
        crate::ops!(NonZeroU32, no, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Display, FromStr, Copy),
        crate::ops!(NonZeroU64, no, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Display, FromStr, Copy),
        crate::ops!(NonZeroUsize, no, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Display, FromStr, Copy),
        crate::ops!(NonZeroI8, no, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Display, FromStr, Copy),
        crate::ops!(NonZeroI16, no, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Display, FromStr, Copy),
        crate::ops!(NonZeroI32, no, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Display, FromStr, Copy),
        crate::ops!(NonZeroI64, no, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Display, FromStr, Copy),
        crate::ops!(NonZeroIsize, no, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Display, FromStr, Copy),
        crate::ops!(P2, own, Clone, Debug, PartialEq),
        crate::ops!(Mix, own, Clone, Debug, PartialEq),
        crate::ops!(Tup, own, Clone, Debug, PartialEq),
        crate::ops!(Un, own, Clone, Debug, PartialEq),
        crate::ops!(Nest, own, Clone, Debug, PartialEq),
        crate::ops!(Option<Tk>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(Vec<Tk>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(Deep, own, Clone, Debug, PartialEq),
        crate::ops!(Mid, own, Clone, Debug, PartialEq),
        crate::ops!(En, no, Clone, Debug, PartialEq),
        crate::ops!(EnC, no, Clone, Debug, PartialEq),
        crate::ops!(En16, no, Clone, Debug, PartialEq),
        crate::ops!(HasEn, own, Clone, Debug, PartialEq),
        crate::ops!(Rec, own, Clone, Debug, PartialEq),
        crate::ops!(Vec<Rec>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(Maps, own, Clone, Debug, PartialEq),
        crate::ops!(HashMap<String,Tk>, no, Clone, Debug, Default, PartialEq, Eq),
        crate::ops!(HashMap<u8,P2>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(KeyS, own, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(Opts, own, Clone, Debug, PartialEq),
        crate::ops!(Option<Option<Tk>>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(Option<P2>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(Option<Vec<Tk>>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(Units, own, Clone, Debug, PartialEq),
        crate::ops!(DefS, own, Clone, Debug, Default, PartialEq),
        crate::ops!(NoTr, own),
        crate::ops!(HasNoTr, own),
        crate::ops!(Option<NoTr>, no, Default),
        crate::ops!(Vec<NoTr>, no, Default),
        crate::ops!(W64, own, Clone, Debug, PartialEq),
        crate::ops!(W63, own, Clone, Debug, PartialEq),
        crate::ops!(Inv, own, Clone, Debug, PartialEq),
        crate::ops!(Inv2, own, Clone, Debug, PartialEq),
        crate::ops!(Vec<u8>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(Inv3, own, Clone, Debug, PartialEq),
        crate::ops!(HasInv, own, Clone, Debug, PartialEq),
        crate::ops!(Arr, own, Clone, Debug, PartialEq),
        crate::ops!([Tk;2], no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(Arc<Tk>, no, Clone),
        crate::ops!((Tk,u8), no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(Ints, own, Clone, Debug, PartialEq),
        crate::ops!(Flts, own, Clone, Debug, PartialEq),
        crate::ops!(NzU, own, Clone, Debug, PartialEq),
        crate::ops!(NzI, own, Clone, Debug, PartialEq),
        crate::ops!(Person, own, Clone, Debug, PartialEq),
        crate::ops!(Option<String>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(Vec<String>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(Ren, own, Clone, Debug, PartialEq),
        crate::ops!(Option<i16>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!(DfF, own, Clone, Debug, PartialEq),
        crate::ops!(Option<u8>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!(DfW, own, Clone, Debug, Default, PartialEq),
        crate::ops!(Option<i32>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!(Deny, own, Clone, Debug, PartialEq),
        crate::ops!(DenyD, own, Clone, Debug, PartialEq),
        crate::ops!(Outer, own, Clone, Debug, PartialEq),
        crate::ops!(Vec<DfW>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(Option<Ren>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(Option<Option<u8>>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!(Vec<Vec<i32>>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(Vec<i32>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(NsD, own, Clone, Debug, PartialEq),
        crate::ops!(Vec<Deny>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(DnS, own, Clone, Debug, PartialEq),
        crate::ops!(Flat, own, Clone, Debug, PartialEq),
        crate::ops!(Option<DfF>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(DwN, own, Clone, Debug, Default, PartialEq),
        crate::ops!(Vec<Ren>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(DfN, own, Clone, Debug, PartialEq),
        crate::ops!(Option<Flat>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(Node, own, Clone, Debug, PartialEq),
        crate::ops!(Vec<Node>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(InvJ, own, Clone, Debug, PartialEq),
        crate::ops!(Shp, no, Clone, Debug, PartialEq),
        crate::ops!(Option<bool>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!(JOut, own, Clone, Debug, PartialEq),
        crate::ops!(Vec<Shp>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(HashMap<String,u8>, no, Clone, Debug, Default, PartialEq, Eq),
        crate::ops!(BTreeMap<i32,Shp>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(Option<Shp>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(MpS, own, Clone, Debug, PartialEq),
        crate::ops!(MpN, own, Clone, Debug, PartialEq),
        crate::ops!(MpI, own, Clone, Debug, PartialEq),
        crate::ops!(MpL, own, Clone, Debug, PartialEq),
        crate::ops!(Mp15, own, Clone, Debug, PartialEq),
        crate::ops!(Mp16, own, Clone, Debug, PartialEq),
        crate::ops!(MpX, own, Clone, Debug, PartialEq),
        crate::ops!(Mp0, own, Clone, Debug, PartialEq),
        crate::ops!(MpT, own, Clone, Debug, PartialEq),
        crate::ops!(Cfg, own, Clone, Debug, PartialEq),
        crate::ops!(CfgO, own, Clone, Debug, PartialEq),
        crate::ops!(Mode, no, Clone, Debug, PartialEq),
        crate::ops!(Wrap, own, Clone, Debug, PartialEq),
        crate::ops!(TomlM, own, Clone, Debug, PartialEq),
        crate::ops!(Option<CfgO>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(Vec<Mode>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(TomlE, own, Clone, Debug, PartialEq),
        crate::ops!(Option<Mode>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(HashMap<String,Mode>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(HashMap<String,CfgO>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(Tv, no, Clone, Debug, PartialEq),
        crate::ops!(HashMap<String,i8>, no, Clone, Debug, Default, PartialEq, Eq),
        crate::ops!(Vec<i16>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(TomlO, own, Clone, Debug, PartialEq),
        crate::ops!(Option<Wrap>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(Option<Vec<Option<u8>>>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(Vec<Option<u8>>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(Option<f32>, no, Clone, Debug, Default, PartialEq, PartialOrd, Copy),
        crate::ops!(Option<Tv>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(Ym, own, Clone, Debug, PartialEq),
        crate::ops!(YmI, own, Clone, Debug, PartialEq),
        crate::ops!(Form, own, Clone, Debug, PartialEq),
        crate::ops!(FormU, own, Clone, Debug, PartialEq),
        crate::ops!(FormV, own, Clone, Debug, PartialEq),
        crate::ops!(Args, own, Debug),
        crate::ops!(Args1, own, Debug),
        crate::ops!(Args2, own, Debug),
        crate::ops!(Args3, own, Debug),
        crate::ops!(Args4, own, Debug),
        crate::ops!(Args5, own, Debug),
        crate::ops!(Args6, own, Debug),
        crate::ops!(Sec, own, Clone, Debug, PartialEq),
        crate::ops!(SecT, own, Clone, Debug, PartialEq),
        crate::ops!(Vec<Sec>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(Option<Sec>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(SecE, no, Clone, Debug, PartialEq),
        crate::ops!(Vec<SecE>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(SecN, own, Clone, Debug, PartialEq),
        crate::ops!(HashMap<String,Sec>, no, Clone, Debug, Default, PartialEq),
        crate::ops!([Sec;2], no, Clone, Debug, PartialEq),
        crate::ops!((Sec,u8), no, Clone, Debug, PartialEq),
        crate::ops!(Arc<SecT>, no, Clone),
        crate::ops!(Option<Vec<SecE>>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(SecAll, own, Clone, Debug, PartialEq),
        crate::ops!(Vec<Un>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(Doc, own, Clone, Debug, PartialEq),
        crate::ops!(DocI, own, Clone, Debug, PartialEq),
        crate::ops!(Vec<DocI>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(Option<DocE>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(DocE, no, Clone, Debug, PartialEq),
        crate::ops!(Vec<DocE>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(DocT, own, Clone, Debug, PartialEq),
        crate::ops!(Bytes, own, Clone, Debug, PartialEq),
        crate::ops!(Option<Vec<u8>>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(Vec<Vec<u8>>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!([u8;3], no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!((u8,Vec<u8>), no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(Zst, own, Clone, Debug, PartialEq),
        crate::ops!(Option<Un>, no, Clone, Debug, Default, PartialEq),
        crate::ops!((Un,()), no, Clone, Debug, PartialEq),
        crate::ops!(Option<Option<()>>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!(Option<()>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!(Net, own, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(Ipv4Addr, no, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Display, FromStr, Copy),
        crate::ops!(Ipv6Addr, no, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Display, FromStr, Copy),
        crate::ops!(IpAddr, no, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Display, FromStr, Copy),
        crate::ops!(SocketAddr, no, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Display, FromStr, Copy),
        crate::ops!(PathBuf, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, FromStr),
        crate::ops!(Option<IpAddr>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!(Strs, own, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(Str, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Display, Copy),
        crate::ops!(CowStr, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Display),
        crate::ops!(Option<Str>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!(Vec<CowStr>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(Big, own, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(NonZeroU128, no, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Display, FromStr, Copy),
        crate::ops!(NonZeroI128, no, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Display, FromStr, Copy),
        crate::ops!(Every, own, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!((u8,i16), no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!(BTreeMap<u8,String>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!([i8;2], no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!(Vec<u16>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(EvFl, own, Clone, Debug, Default, PartialEq, PartialOrd),
        crate::ops!(Option<f64>, no, Clone, Debug, Default, PartialEq, PartialOrd, Copy),
        crate::ops!((f32,u8), no, Clone, Debug, Default, PartialEq, PartialOrd, Copy),
        crate::ops!([f64;2], no, Clone, Debug, Default, PartialEq, PartialOrd, Copy),
        crate::ops!(Vec<f32>, no, Clone, Debug, Default, PartialEq, PartialOrd),
        crate::ops!(EvEn, no, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(Option<char>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!(EvEf, no, Clone, Debug, PartialEq, PartialOrd),
        crate::ops!(Disp, own, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Display),
        crate::ops!(Cp, own, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!(CpT, own, Clone, Debug, PartialEq, PartialOrd, Copy),
        crate::ops!(CpU, own, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!(Own1, own, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(OneClone, own, Clone),
        crate::ops!(OneDebug, own, Debug),
        crate::ops!(OneDefault, own, Default),
        crate::ops!(OnePartialEq, own, PartialEq),
        crate::ops!(OneEq, own, PartialEq, Eq),
        crate::ops!(OnePo, own, PartialEq, PartialOrd),
        crate::ops!(OneHash, own, Hash),
        crate::ops!(HasOne, own),
        crate::ops!(Vec<OneDebug>, no, Debug, Default),
        crate::ops!(Option<OneDefault>, no, Default),
        crate::ops!((OnePartialEq,OneEq), no, PartialEq),
        crate::ops!([OneHash;2], no, Hash),
        crate::ops!(HashMap<u8,OneEq>, no, Default, PartialEq, Eq),
        crate::ops!(Vec<OnePo>, no, Default, PartialEq, PartialOrd),
        crate::ops!(Raw, own, Clone, Debug, PartialEq),
        crate::ops!(RawE, no, Clone, Debug, PartialEq),
        crate::ops!(Rn, own, Clone, Debug, PartialEq),
        crate::ops!(RnE, no, Debug),
        crate::ops!(Dc, own, Clone, Debug, PartialEq),
        crate::ops!(DcT, own, Clone, Debug, PartialEq),
        crate::ops!(DcU, own, Clone, Debug, PartialEq),
        crate::ops!(DcE, no, Clone, Debug, PartialEq),
        crate::ops!(Att, own, Clone, Debug, Default, PartialEq),
        crate::ops!(AttT, own, Clone, Debug, PartialEq),
        crate::ops!(AttE, no, Clone, Debug, PartialEq),
        crate::ops!(AttU, own, Clone, Debug, PartialEq),
        crate::ops!(Comma, own, Clone, Debug, PartialEq),
        crate::ops!(CommaArb, own, Clone, Debug, PartialEq),
        crate::ops!(CommaRen, own, Clone, Debug, PartialEq),
        crate::ops!(LyC, own, Clone, Debug, PartialEq),
        crate::ops!(LyR, own, Clone, Debug, PartialEq),
        crate::ops!(LyA, own, Clone, Debug, PartialEq),
        crate::ops!(LyCA, own, Clone, Debug, PartialEq),
        crate::ops!(LyT, own, Clone, Debug, Default, PartialEq),
        crate::ops!(LyZ, own, Clone, Debug, PartialEq),
        crate::ops!([u64;0], no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!([Un;3], no, Clone, Debug, PartialEq),
        crate::ops!(LyN, own, Clone, Debug, PartialEq),
        crate::ops!((u8,u32,u8), no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!([LyC;2], no, Clone, Debug, PartialEq),
        crate::ops!(Option<LyA>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(LyU8, no, Clone, Debug, PartialEq),
        crate::ops!(LyU64, no, Clone, Debug, PartialEq),
        crate::ops!(LyI8, no, Clone, Debug, PartialEq),
        crate::ops!(LyI16, no, Clone, Debug, PartialEq),
        crate::ops!(LyU32, no, Clone, Debug, PartialEq),
        crate::ops!(LyI32, no, Clone, Debug, PartialEq),
        crate::ops!(LyI64, no, Clone, Debug, PartialEq),
        crate::ops!(LyUs, no, Clone, Debug, PartialEq),
        crate::ops!(LyIs, no, Clone, Debug, PartialEq),
        crate::ops!(LyCn, no, Clone, Debug, PartialEq),
        crate::ops!(LyCu8, no, Clone, Debug, PartialEq),
        crate::ops!(LyCi16, no, Clone, Debug, PartialEq),
        crate::ops!(LyCd, no, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(LyCe, no, Clone, Debug, PartialEq),
        crate::ops!(LyDu, no, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(LyTC, no, Clone, Debug, PartialEq),
        crate::ops!(Oq, own, Clone),
        crate::ops!(Opaque<Arc<Hidden>>, no, Clone),
        crate::ops!(Wk, own, Clone),
        crate::ops!(Weak<Tk>, no, Clone, Debug, Default),
        crate::ops!(Ph, own, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(PhU8, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!(PhNo, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!(Hm, own, Clone, Debug, PartialEq),
        crate::ops!(HashMap<u8,u16,Hs>, no, Clone, Debug, Default, PartialEq, Eq),
        crate::ops!(HashMap<u8,u16>, no, Clone, Debug, Default, PartialEq, Eq),
        crate::ops!(T12, own, Clone, Debug, PartialEq),
        crate::ops!((u8,u16,u32,u64,i8,i16,i32,i64,bool,char,(),u8), no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!((u8,), no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!(((u8,),(u16,u8)), no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!((u16,u8), no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!(Slc, own, Clone, Debug, PartialEq),
        crate::ops!(Slice<u8>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!(Slice<Str>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!(Option<Slice<Disp>>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!(Slice<Disp>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!(W100, own, Clone),
        crate::ops!(E40, no, Clone, Debug, PartialEq),
        crate::ops!(Rg00, own, Clone, Debug, PartialEq),
        crate::ops!(Rg01, own, Clone, Debug, PartialEq),
        crate::ops!(Rg02, no, Clone, Debug, PartialEq),
        crate::ops!(Rg03, own, Clone, Debug, PartialEq),
        crate::ops!(Rg04, no, Clone, Debug, PartialEq),
        crate::ops!(Option<Rg01>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(Rg05, own, Clone, Debug, PartialEq),
        crate::ops!(Rg06, own, Clone, Debug, PartialEq),
        crate::ops!(Rg07, no, Clone, Debug, PartialEq),
        crate::ops!(HashMap<u8,Tk>, no, Clone, Debug, Default, PartialEq, Eq),
        crate::ops!(Vec<Rg04>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(Vec<Rg02>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(Rg08, own, Clone, Debug, PartialEq),
        crate::ops!(Rg09, no, Clone, Debug, PartialEq),
        crate::ops!(Rg10, own, Clone, Debug, PartialEq),
        crate::ops!(Rg11, no, Clone, Debug, PartialEq),
        crate::ops!(Vec<P2>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(Rg12, no, Clone, Debug, PartialEq),
        crate::ops!(Option<Rg11>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(Option<Rg04>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(Vec<Vec<Tk>>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(Rg13, own, Clone, Debug, PartialEq),
        crate::ops!(Rg14, no, Clone, Debug, PartialEq),
        crate::ops!(Rg15, own, Clone, Debug, PartialEq),
        crate::ops!(Rj00, own, Clone, Debug, PartialEq),
        crate::ops!(Rj01, own, Clone, Debug, PartialEq),
        crate::ops!(Rj02, own, Clone, Debug, PartialEq),
        crate::ops!(Rj03, own, Clone, Debug, PartialEq),
        crate::ops!(Rj04, own, Clone, Debug, PartialEq),
        crate::ops!(Option<Rj03>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(Rj05, own, Clone, Debug, PartialEq),
        crate::ops!(Vec<Rj01>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(Rj06, own, Clone, Debug, PartialEq),
        crate::ops!(Rj07, own, Clone, Debug, PartialEq),
        crate::ops!(Rm00, own, Clone, Debug, PartialEq),
        crate::ops!(Rm01, own, Clone, Debug, PartialEq),
        crate::ops!(Rm02, own, Clone, Debug, PartialEq),
        crate::ops!(Rm03, own, Clone, Debug, PartialEq),
        crate::ops!(Rm04, own, Clone, Debug, PartialEq),
        crate::ops!(Rt00, own, Clone, Debug, PartialEq),
        crate::ops!(Rt01, own, Clone, Debug, PartialEq),
        crate::ops!(Rt02, no, Clone, Debug, PartialEq),
        crate::ops!(Option<Rt01>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(Rt03, own, Clone, Debug, PartialEq),
        crate::ops!(Option<Rt00>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(Rt04, no, Clone, Debug, PartialEq),
        crate::ops!(Rt05, own, Clone, Debug, PartialEq),
        crate::ops!(Ru00, own, Clone, Debug, PartialEq),
        crate::ops!(Ru01, own, Clone, Debug, PartialEq),
        crate::ops!(Ru02, own, Clone, Debug, PartialEq),
        crate::ops!(Ru03, own, Clone, Debug, PartialEq),
        crate::ops!(Ra00, own, Debug),
        crate::ops!(Ra01, own, Debug),
        crate::ops!(Ra02, own, Debug),
        crate::ops!(Ra03, own, Debug),
        crate::ops!(Ra04, own, Debug),
        crate::ops!(Vec<En>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(Vec<Option<Tk>>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(Option<En>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(HashMap<u8,Vec<Tk>>, no, Clone, Debug, Default, PartialEq, Eq),
        crate::ops!(HashMap<KeyS,Tk>, no, Clone, Debug, Default, PartialEq, Eq),
        crate::ops!(BTreeMap<u8,Tk>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(BTreeMap<String,P2>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(HashMap<u8,Option<Tk>>, no, Clone, Debug, Default, PartialEq, Eq),
        crate::ops!(HashMap<u8,En>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(Gen<Tk>, own),
        crate::ops!(Gen<u8>, own),
        crate::ops!(Vec<HashMap<u8,Tk>>, no, Clone, Debug, Default, PartialEq, Eq),
        crate::ops!(Vec<HasInv>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(Vec<Option<i64>>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(Option<i64>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!(Vec<f64>, no, Clone, Debug, Default, PartialEq, PartialOrd),
        crate::ops!(HashMap<String,String>, no, Clone, Debug, Default, PartialEq, Eq),
        crate::ops!(BTreeMap<u8,Vec<u8>>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(HashMap<bool,i8>, no, Clone, Debug, Default, PartialEq, Eq),
        crate::ops!(BTreeMap<char,u8>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(Vec<bool>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(Option<Vec<Option<bool>>>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(Vec<Option<bool>>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(Vec<Flat>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(Vec<Person>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(HashMap<String,Shp>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(Option<SecE>, no, Clone, Debug, Default, PartialEq),
        crate::ops!((Sec,SecE), no, Clone, Debug, PartialEq),
        crate::ops!(Vec<SecN>, no, Clone, Debug, Default, PartialEq),
        crate::ops!(Vec<Option<Sec>>, no, Clone, Debug, Default, PartialEq),
        crate::ops!([SecE;2], no, Clone, Debug, PartialEq),
        crate::ops!(Arc<Sec>, no, Clone),
        crate::ops!(Gb<u8>, own, Clone, Debug, PartialEq),
        crate::ops!(Gb<String>, own, Clone, Debug, PartialEq),
        crate::ops!(Gb<EvEn>, own, Clone, Debug, PartialEq),
        crate::ops!(Vec<EvEn>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(Gw<u8,String>, own, Clone, Debug),
        crate::ops!(Gw<Tk,Vec<u8>>, own, Clone, Debug),
        crate::ops!(Gc<u8,3>, own, Clone, Debug, PartialEq),
        crate::ops!(Gc<char,0>, own, Clone, Debug, PartialEq),
        crate::ops!([char;0], no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!(Lt<'static>, own, Clone, Debug, PartialEq, Eq, Hash),
        crate::ops!(Lt2<'static,'static,u8>, own, Debug),
        crate::ops!(Lt2<'static,'static,String>, own, Debug),
        crate::ops!(Slice<String>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!(Gt<u32>, own, Debug),
        crate::ops!(Ge<u8,String>, no, Clone, Debug),
        crate::ops!(Ge<Tk,Tk>, no, Clone, Debug),
        crate::ops!(Ge2<'static,u8>, no, Debug, PartialEq),
        crate::ops!(Slice<Slice<u8>>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!(Slice<f32>, no, Clone, Debug, Default, PartialEq, PartialOrd, Copy),
        crate::ops!(Vec<Every>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(Option<Every>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!([Every;2], no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!((Every,EvFl), no, Clone, Debug, Default, PartialEq, PartialOrd),
        crate::ops!(Arc<Every>, no, Clone),
        crate::ops!(HashMap<String,Every>, no, Clone, Debug, Default, PartialEq, Eq),
        crate::ops!(BTreeMap<Cp,EvFl>, no, Clone, Debug, Default, PartialEq, PartialOrd),
        crate::ops!(Vec<EvFl>, no, Clone, Debug, Default, PartialEq, PartialOrd),
        crate::ops!(Option<EvFl>, no, Clone, Debug, Default, PartialEq, PartialOrd),
        crate::ops!([f64;3], no, Clone, Debug, Default, PartialEq, PartialOrd, Copy),
        crate::ops!((f64,f32), no, Clone, Debug, Default, PartialEq, PartialOrd, Copy),
        crate::ops!(Option<EvEn>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(Vec<char>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(BTreeMap<String,Option<u8>>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(HashMap<IpAddr,u8>, no, Clone, Debug, Default, PartialEq, Eq),
        crate::ops!(Vec<Option<Vec<u8>>>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!([u8;0], no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!([String;1], no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!([NoTr;2], no),
        crate::ops!((NoTr,u8), no),
        crate::ops!((OneClone,), no, Clone),
        crate::ops!(Arc<NoTr>, no, Clone),
        crate::ops!(Arc<Arc<u8>>, no, Clone),
        crate::ops!(Arc<u8>, no, Clone),
        crate::ops!(Vec<Arc<String>>, no, Clone, Default),
        crate::ops!(Arc<String>, no, Clone),
        crate::ops!(Weak<u8>, no, Clone, Debug, Default),
        crate::ops!(HashMap<u8,u8,Hs>, no, Clone, Debug, Default, PartialEq, Eq),
        crate::ops!(HashMap<u8,NoTr>, no, Default),
        crate::ops!(BTreeMap<u8,OneDebug>, no, Debug, Default),
        crate::ops!(Option<OnePo>, no, Default, PartialEq, PartialOrd),
        crate::ops!(Vec<OneEq>, no, Default, PartialEq, Eq),
        crate::ops!(Vec<OneHash>, no, Default, Hash),
        crate::ops!(Option<OneHash>, no, Default, Hash),
        crate::ops!(Vec<Disp>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(Option<Disp>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!([Disp;2], no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!((Disp,Disp), no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!(Option<Arc<Disp>>, no, Clone, Default),
        crate::ops!(Arc<Disp>, no, Clone),
        crate::ops!(Option<(u8,u8)>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!((u8,u8), no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!((u8,u8,u8,u8,u8,u8,u8), no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!((String,u8,Vec<u8>,f32,Option<u8>,char), no, Clone, Debug, Default, PartialEq, PartialOrd),
        crate::ops!(Vec<SocketAddr>, no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash),
        crate::ops!((u8,u16,u8,u16,u8,u16,u8,u16), no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!((u8,u16,u8,u16,u8,u16,u8,u16,u8), no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!((u8,u16,u8,u16,u8,u16,u8,u16,u8,u16), no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!((u8,u16,u8,u16,u8,u16,u8,u16,u8,u16,u8), no, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
        crate::ops!(PathRef, no, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Copy),
    ]
}
