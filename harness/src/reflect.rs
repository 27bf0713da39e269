//! What reflection says about the types of the universe, and about their values: descriptions, views,
//! operations through shapes, typed access, smart pointers. Recorded for the specifications to judge.
use crate::alloc::{off, on};
use crate::docs::{Diffs, memory};
use crate::run::{Ctx, quiet};
use crate::tk;
use crate::u::*;
use facet_core::*;
use facet_reflect::{Peek, ScalarType};
use serde_json::{Value as J, json};
use std::cmp::Ordering;

fn squeezed(s: &str) -> J { codes(&s.chars().filter(|c| !c.is_whitespace()).collect::<String>()) }
fn docs_of(d: &[&str]) -> J { J::Array(d.iter().map(|l| codes(l)).collect()) }
fn flags(b: bool) -> J { json!(b) }
fn one(cx: &Ctx, s: &'static Shape, p: PtrConst<'static>) -> J {
    let i = cx.index(s);
    if i == 0 { return json!({"t": "?"}) }
    (cx.ops[i - 1].get)(&unsafe { Peek::unchecked_new(p, s) }).unwrap_or(json!({"t": "?"}))
}
fn opt(cx: &Ctx, s: &'static Shape, p: Option<PtrConst<'static>>) -> J { p.map_or(json!({"t": "none"}), |p| json!({"t": "some", "x": one(cx, s, p)})) }

fn affinity(cx: &Ctx, s: &'static Shape, a: &ScalarAffinity) -> J {
    match a {
        ScalarAffinity::Number(n) => {
            let mut o = match n.bits {
                NumberBits::Integer { bits, sign } => json!({"a": "int", "bits": bits, "signed": sign == Signedness::Signed}),
                NumberBits::Float { sign_bits, exponent_bits, mantissa_bits, has_explicit_first_mantissa_bit } =>
                    json!({"a": "float", "bits": [sign_bits, exponent_bits, mantissa_bits], "first": has_explicit_first_mantissa_bit}),
                _ => json!({"a": "?"}),
            };
            o["min"] = one(cx, s, n.min);
            o["max"] = one(cx, s, n.max);
            for (k, v) in [("pinf", n.positive_infinity), ("ninf", n.negative_infinity), ("nan", n.nan_sample), ("pzero", n.positive_zero), ("nzero", n.negative_zero), ("eps", n.epsilon)] {
                o[k] = opt(cx, s, v);
            }
            o
        }
        ScalarAffinity::String(_) => json!({"a": "string"}),
        ScalarAffinity::Boolean(_) => json!({"a": "bool"}),
        ScalarAffinity::Empty(_) => json!({"a": "empty"}),
        ScalarAffinity::Char(_) => json!({"a": "char"}),
        ScalarAffinity::Path(_) => json!({"a": "path"}),
        ScalarAffinity::IpAddr(_) => json!({"a": "ip"}),
        ScalarAffinity::SocketAddr(_) => json!({"a": "sock"}),
        ScalarAffinity::Opaque(_) => json!({"a": "opaque"}),
        _ => json!({"a": "?"}),
    }
}
fn fields(cx: &Ctx, s: &Struct) -> J {
    J::Array(s.fields.iter().map(|f| {
        let (mut sens, mut ren, mut def, mut arb, mut rest) = (0, vec![], vec![], vec![], 0);
        for a in f.attributes {
            match a {
                FieldAttribute::Sensitive => sens += 1,
                FieldAttribute::Rename(n) => ren.push(codes(n)),
                FieldAttribute::Default(None) => def.push("own"),
                FieldAttribute::Default(Some(_)) => def.push("fn"),
                FieldAttribute::Arbitrary(a) => arb.push(squeezed(a)),
                _ => rest += 1,
            }
        }
        json!({"n": codes(f.name), "sh": cx.index(f.shape()), "off": f.offset, "sens": sens, "flag": f.flags.contains(FieldFlags::SENSITIVE),
            "ren": ren, "def": def, "arb": arb, "rest": rest, "doc": docs_of(f.doc)})
    }).collect())
}
fn kind(k: StructKind) -> &'static str {
    match k { StructKind::Unit => "unit", StructKind::Struct => "struct", StructKind::TupleStruct => "tuplestruct", StructKind::Tuple => "tuple", _ => "?" }
}
/// the size and alignment of the declared fields' types, natively
fn native_fields(cx: &Ctx, fs: &J) -> J {
    J::Array(fs.as_array().unwrap().iter().map(|f| { let o = &cx.ops[f["sh"].as_u64().unwrap() as usize - 1]; json!([o.size, o.align]) }).collect())
}
pub fn shape(cx: &Ctx, case: &J) -> J {
    let i = case["sh"].as_u64().unwrap() as usize;
    let (o, u) = (&cx.ops[i - 1], &cx.universe[i - 1]);
    let s = o.shape;
    let (mut deny, mut dflt, mut arb, mut rest) = (0, 0, vec![], 0);
    for a in s.attributes {
        match a {
            ShapeAttribute::DenyUnknownFields => deny += 1,
            ShapeAttribute::Default => dflt += 1,
            ShapeAttribute::Arbitrary(a) => arb.push(squeezed(a)),
            #[allow(unreachable_patterns)]
            _ => rest += 1,
        }
    }
    let mut r = json!({"tn": codes(&s.to_string()), "sz": s.layout.size(), "al": s.layout.align(), "nsz": o.size, "nal": o.align, "noff": o.offsets.clone().unwrap_or_default(),
        "tp": s.type_params.iter().map(|p| json!({"n": p.name, "sh": cx.index(p.shape())})).collect::<Vec<_>>(),
        "doc": docs_of(s.doc), "deny": deny, "dflt": dflt, "arb": arb, "rest": rest, "inv": flags(s.vtable.invariants.is_some()), "drop": flags(s.vtable.drop_in_place.is_some())});
    r["d"] = match s.def {
        Def::Scalar(d) => json!({"k": "scalar", "aff": affinity(cx, s, &d.affinity)}),
        Def::Struct(d) => json!({"k": "struct", "sk": kind(d.kind), "f": fields(cx, &d)}),
        Def::Enum(d) => json!({"k": "enum", "repr": format!("{:?}", d.repr).to_lowercase(), "vs": d.variants.iter().map(|v| json!({
            "n": codes(v.name), "g": v.discriminant < 0, "disc": digits(&v.discriminant.unsigned_abs().to_string()), "kind": kind(v.data.kind), "f": fields(cx, &v.data), "doc": docs_of(v.doc)})).collect::<Vec<_>>()}),
        Def::Map(d) => json!({"k": "map", "kt": cx.index(d.k), "vt": cx.index(d.v)}),
        Def::List(d) => json!({"k": "list", "t": cx.index(d.t())}),
        Def::Array(d) => json!({"k": "array", "t": cx.index(d.t()), "n": d.n}),
        Def::Slice(d) => json!({"k": "slice", "t": cx.index(d.t())}),
        Def::Option(d) => json!({"k": "option", "t": cx.index(d.t())}),
        Def::SmartPointer(d) => json!({"k": "ptr", "t": d.pointee.map_or(0, |s| cx.index(s)), "flags": d.flags.bits(), "known": format!("{:?}", d.known),
            "weak": d.weak.map_or(json!([]), |w| other(cx, w())), "strong": d.strong.map_or(json!([]), |w| other(cx, w())),
            "can": [d.vtable.upgrade_into_fn.is_some(), d.vtable.downgrade_into_fn.is_some(), d.vtable.borrow_fn.is_some(), d.vtable.new_into_fn.is_some(),
                d.vtable.lock_fn.is_some(), d.vtable.read_fn.is_some(), d.vtable.write_fn.is_some()]}),
        _ => json!({"k": "?"}),
    };
    // what the compiler makes of the declared types
    if let Some(fs) = u.get("fields") { r["nf"] = native_fields(cx, fs) }
    if let Some(vs) = u.get("variants") { r["nv"] = J::Array(vs.as_array().unwrap().iter().map(|v| native_fields(cx, &v["fields"])).collect()) }
    if let Some(t) = u.get("t") { let t = &cx.ops[t.as_u64().unwrap() as usize - 1]; r["nt"] = json!([t.size, t.align]) }
    r
}
/// the counterpart of a smart pointer: what it points to, what kind it is, and its own counterparts
fn other(cx: &Ctx, s: &'static Shape) -> J {
    let Def::SmartPointer(d) = s.def else { return json!(["?"]) };
    let back = |f: Option<fn() -> &'static Shape>| f.map_or(0, |f| cx.index(f()));
    json!([format!("{:?}", d.known), d.pointee.map_or(0, |s| cx.index(s)), back(d.weak), back(d.strong)])
}

// ---------------------------------------------------------------------------- reading values
struct Walk<'a> { cx: &'a Ctx, names: Vec<String>, keys: Vec<(usize, Vec<J>)> }
fn kinds(p: Peek<'static>) -> Vec<&'static str> {
    let mut k = vec![];
    if p.into_struct().is_ok() { k.push("struct") }
    if p.into_enum().is_ok() { k.push("enum") }
    if p.into_map().is_ok() { k.push("map") }
    if p.into_list().is_ok() { k.push("list") }
    if p.into_smart_pointer().is_ok() { k.push("ptr") }
    if p.into_option().is_ok() { k.push("option") }
    k
}
fn outside(n: usize) -> [usize; 4] { [n, n + 1, n + 64, usize::MAX] }
impl Walk<'_> {
    fn at(&self, all: &[Peek<'static>], p: Option<Peek<'static>>) -> J {
        J::Array(p.map_or(vec![], |p| all.iter().enumerate().filter(|(_, q)| q.id() == p.id() && q.ptr_eq(&p) && q.shape() == p.shape()).map(|(i, _)| json!(i + 1)).collect()))
    }
    fn view(&self, p: Peek<'static>) -> J {
        let mut o = json!({"sh": self.cx.index(p.shape()), "as": kinds(p), "sc": format!("{:?}", p.scalar_type())});
        match p.shape().def {
            Def::Scalar(_) => {
                let i = self.cx.index(p.shape());
                o["v"] = if i == 0 { json!({"t": "?"}) } else { (self.cx.ops[i - 1].get)(&p).unwrap_or(json!({"t": "refused"})) };
            }
            Def::Struct(_) => {
                let s = p.into_struct().unwrap();
                let n = s.field_count();
                let all: Vec<Peek<'static>> = (0..n).map(|i| s.field(i).unwrap()).collect();
                let it: Vec<_> = s.fields().collect();
                o["n"] = json!(n);
                o["f"] = J::Array(all.iter().map(|f| self.view(*f)).collect());
                o["it"] = flags(it.len() == n && it.iter().zip(&all).enumerate().all(|(i, ((f, p), q))| p.id() == q.id() && f.name == s.def().fields[i].name));
                o["names"] = J::Array(it.iter().map(|(f, _)| codes(f.name)).collect());
                o["by"] = J::Array(self.names.iter().map(|x| self.at(&all, s.field_by_name(x).ok())).collect());
                o["out"] = flags(outside(n).iter().all(|&i| s.field(i).is_err()));
            }
            Def::Enum(d) => {
                let e = p.into_enum().unwrap();
                let v = e.active_variant();
                let n = v.data.fields.len();
                let all: Vec<Peek<'static>> = (0..n).map(|i| e.field(i).unwrap()).collect();
                let it: Vec<_> = e.fields().collect();
                let disc = e.discriminant();
                o["i"] = json!(e.variant_index() + 1);
                o["active"] = flags(std::ptr::eq(v, &d.variants[e.variant_index()]));
                o["name"] = codes(e.variant_name_active());
                o["g"] = flags(disc < 0);
                o["disc"] = digits(&disc.unsigned_abs().to_string());
                o["count"] = json!(e.variant_count());
                o["vnames"] = J::Array((0..e.variant_count()).map(|i| e.variant_name(i).map_or(json!(0), codes)).collect());
                o["f"] = J::Array(all.iter().map(|f| self.view(*f)).collect());
                o["it"] = flags(it.len() == n && it.iter().zip(&all).enumerate().all(|(i, ((f, p), q))| p.id() == q.id() && f.name == v.data.fields[i].name));
                o["names"] = J::Array(it.iter().map(|(f, _)| codes(f.name)).collect());
                o["by"] = J::Array(self.names.iter().map(|x| {
                    let at = self.at(&all, e.field_by_name(x));
                    // the index of a name, and the field of that name, are the same
                    let ok = match e.field_index(x) { None => at == json!([]), Some(i) => at.as_array().unwrap().contains(&json!(i + 1)) };
                    if ok { at } else { json!(["?"]) }
                }).collect());
                o["out"] = flags(outside(n).iter().all(|&i| e.field(i).is_none()) && outside(e.variant_count()).iter().all(|&i| e.variant_name(i).is_none()));
            }
            Def::List(_) => {
                let l = p.into_list().unwrap();
                let n = l.len();
                let all: Vec<Peek<'static>> = (0..n).map(|i| l.get(i).unwrap()).collect();
                let it = l.iter();
                let hint = it.size_hint() == (n, Some(n)) && it.len() == n;
                let it: Vec<_> = it.collect();
                o["n"] = json!(n);
                o["empty"] = flags(l.is_empty());
                o["e"] = J::Array(all.iter().map(|f| self.view(*f)).collect());
                o["it"] = flags(hint && it.len() == n && it.iter().zip(&all).all(|(p, q)| p.id() == q.id()) && (&l).into_iter().count() == n);
                o["out"] = flags(outside(n).iter().all(|&i| l.get(i).is_none()));
            }
            Def::Map(d) => {
                let m = p.into_map().unwrap();
                let it: Vec<(Peek<'static>, Peek<'static>)> = m.iter().collect();
                o["n"] = json!(m.len());
                o["empty"] = flags(m.is_empty());
                o["e"] = J::Array(it.iter().map(|(k, v)| json!([self.view(*k), self.view(*v)])).collect());
                let vals: Vec<Peek<'static>> = it.iter().map(|(_, v)| *v).collect();
                o["look"] = J::Array(self.keys.iter().map(|(sh, ks)| J::Array(ks.iter().map(|k| {
                    let (has, got) = (self.cx.ops[sh - 1].look)(&m, k);
                    json!({"has": has, "at": self.at(&vals, got), "none": got.is_none()})
                }).collect())).collect());
                let it2 = (&m).into_iter();
                o["it"] = flags(it2.zip(&it).all(|(a, b)| a.0.id() == b.0.id() && a.1.id() == b.1.id()));
                // an iteration given up half way
                let mut half = m.iter();
                half.next();
                drop(half);
                let _ = d;
            }
            Def::Option(_) => {
                let x = p.into_option().unwrap();
                o["some"] = flags(x.is_some() && !x.is_none());
                o["none"] = flags(x.is_none() && !x.is_some());
                if let Some(v) = x.value() { o["x"] = self.view(v) }
            }
            Def::Array(d) => {
                let get = |i| unsafe { Peek::unchecked_new((d.vtable.get_item_ptr)(p.data(), i), d.t()) };
                o["n"] = json!(d.n);
                o["e"] = J::Array((0..d.n).map(|i| self.view(get(i))).collect());
                o["out"] = flags(outside(d.n).iter().all(|&i| quiet(|| { get(i); }).is_err()));
            }
            Def::Slice(d) => {
                let n = unsafe { (d.vtable.len)(p.data()) };
                let get = |i| unsafe { Peek::unchecked_new((d.vtable.get_item_ptr)(p.data(), i), d.t()) };
                o["n"] = json!(n);
                o["e"] = J::Array((0..n).map(|i| self.view(get(i))).collect());
                o["out"] = flags(outside(n).iter().all(|&i| quiet(|| { get(i); }).is_err()));
            }
            Def::SmartPointer(_) => {
                let d = *p.into_smart_pointer().unwrap().def();
                if let (Some(b), Some(t)) = (d.vtable.borrow_fn, d.pointee) { o["x"] = self.view(unsafe { Peek::unchecked_new(b(p.data()), t) }) }
            }
            _ => {}
        }
        o
    }
}
pub fn walk(cx: &Ctx, case: &J, out: &mut Diffs) -> J {
    let sh = case["sh"].as_u64().unwrap() as usize;
    let w = Walk {
        cx,
        names: case["names"].as_array().unwrap().iter().map(text).collect(),
        keys: case["keys"].as_array().unwrap().iter().map(|k| (k["sh"].as_u64().unwrap() as usize, k["e"].as_array().unwrap().clone())).collect(),
    };
    let h = on(|| (cx.ops[sh - 1].make)(&case["v"]));
    let before = h.show();
    let r = match quiet(|| w.view(h.peek())) { Ok(v) => v, Err(p) => { out.push(("panic", p)); json!({"sh": 0}) } };
    if h.show() != before { out.push(("changed", "reading changed the value".into())) }
    on(|| drop(h));
    memory(out, 1 << 20);
    json!({"w": r})
}

// ---------------------------------------------------------------------------- operations
fn ord(o: Option<Ordering>) -> &'static str { match o { None => "un", Some(Ordering::Less) => "lt", Some(Ordering::Equal) => "eq", Some(Ordering::Greater) => "gt" } }
fn hashed(p: &Peek<'_>) -> Option<Vec<u8>> { let mut r = Recorder::default(); if p.hash(&mut r) { Some(r.0) } else { None } }
struct Erased(&'static Shape, PtrConst<'static>, bool);
impl std::fmt::Display for Erased { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unsafe { (self.0.vtable.display.unwrap())(self.1, f) } } }
impl std::fmt::Debug for Erased { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unsafe { (self.0.vtable.debug.unwrap())(self.1, f) } } }

fn heaps(o: &crate::u::TypeOps, case: &J) -> Vec<String> {
    let mut wrong = vec![];
    // (the builder tracks up to 64 fields)
    if let Def::Struct(d) = &o.shape.def { if d.fields.len() > 64 { return wrong } }
    let (Some(a), Some(b)) = on(|| ((o.heap)(&case["v"]), (o.heap)(&case["w"]))) else { return wrong };
    let (pa, pb) = (a.peek(), b.peek());
    let mut say = |ok: bool, what: &str| if !ok { wrong.push(what.to_string()) };
    say(pa.shape() == o.shape && pb.shape() == o.shape, "the peek of a value on the heap is of another type");
    let shown = (o.get)(&pa);
    say(shown.is_some(), "a value on the heap cannot be read");
    say(format!("{a}") == format!("{pa}"), "Display of a value on the heap is not its display");
    say(format!("{a:?}") == format!("{pa:?}"), "Debug of a value on the heap is not its debug");
    for (x, y, p, q) in [(&a, &b, pa, pb), (&b, &a, pb, pa), (&a, &a, pa, pa)] {
        say((x == y) == (p == q), "values on the heap are not compared like what they hold");
        say((x != y) == (p != q), "values on the heap are not compared (!=) like what they hold");
        say(PartialOrd::partial_cmp(x, y) == PartialOrd::partial_cmp(&p, &q), "values on the heap are not ordered like what they hold");
    }
    say((o.get)(&pa) == shown, "an operation changed a value on the heap");
    match on(|| (o.take)(a)) {
        Ok(h) => { say(Some(h.show()) == shown, "a value taken from the heap is not what it was"); on(|| drop(h)) }
        Err(_) => say(false, "a value cannot be taken from the heap"),
    }
    on(|| drop(b));
    wrong
}
pub fn ops(cx: &Ctx, case: &J, out: &mut Diffs) -> J {
    let sh = case["sh"].as_u64().unwrap() as usize;
    let o = &cx.ops[sh - 1];
    let (s, n) = (o.shape, &o.native);
    let vt = s.vtable;
    let a = on(|| (o.make)(&case["v"]));
    let b = on(|| (o.make)(&case["w"]));
    let (va, vb) = (a.show(), b.show());
    let (pa, pb) = (a.peek(), b.peek());
    let (ca, cb) = (pa.data(), pb.data());
    let mut r = json!({"v": va, "w": vb});
    let mut offers = vec![];
    macro_rules! say { ($k:literal, $e:expr) => { match quiet(|| $e) { Ok(v) => { r[$k] = json!(v); } Err(p) => { r[$k] = json!("panic"); out.push(("panic", format!("{}: {p}", $k))) } } } }
    if let Some(f) = vt.eq {
        offers.push("PartialEq");
        say!("eq", unsafe { [f(ca, cb), f(cb, ca), f(ca, ca), f(cb, cb)] });
        say!("peek_eq", [pa.eq(&pb) == Some(pa == pb), pb.eq(&pa) == Some(pb == pa), pa == pb, pb == pa]);
        if let Some(g) = n.eq { let e = unsafe { [g(a.ptr(), b.ptr()), g(b.ptr(), a.ptr()), g(a.ptr(), a.ptr()), g(b.ptr(), b.ptr())] }; if r["eq"] != json!(e) { out.push(("native", format!("eq: {} but natively {e:?}", r["eq"]))) } }
    } else if pa.eq(&pb).is_some() || pa == pb { out.push(("offer", "values are compared though their type cannot be".into())) }
    if vt.is_eq() { offers.push("Eq") }
    if vt.is_copy() { offers.push("Copy") }
    if let Some(f) = vt.partial_ord {
        offers.push("PartialOrd");
        say!("pcmp", unsafe { [ord(f(ca, cb)), ord(f(cb, ca)), ord(f(ca, ca))] });
        say!("peek_cmp", [pa.partial_cmp(&pb) == PartialOrd::partial_cmp(&pa, &pb), ord(PartialOrd::partial_cmp(&pa, &pb)) == r["pcmp"][0]]);
        if let Some(g) = n.partial { let e = unsafe { [ord(g(a.ptr(), b.ptr())), ord(g(b.ptr(), a.ptr())), ord(g(a.ptr(), a.ptr()))] }; if r["pcmp"] != json!(e) { out.push(("native", format!("partial_cmp: {} but natively {e:?}", r["pcmp"]))) } }
    } else if PartialOrd::partial_cmp(&pa, &pb).is_some() { out.push(("offer", "values are ordered though their type cannot be".into())) }
    if let Some(f) = vt.ord {
        offers.push("Ord");
        say!("cmp", unsafe { [ord(Some(f(ca, cb))), ord(Some(f(cb, ca))), ord(Some(f(ca, ca)))] });
        if let Some(g) = n.cmp { let e = unsafe { [ord(Some(g(a.ptr(), b.ptr()))), ord(Some(g(b.ptr(), a.ptr()))), ord(Some(g(a.ptr(), a.ptr())))] }; if r["cmp"] != json!(e) { out.push(("native", format!("cmp: {} but natively {e:?}", r["cmp"]))) } }
    }
    if vt.hash.is_some() {
        offers.push("Hash");
        say!("hash", { let (x, y) = (hashed(&pa).unwrap(), hashed(&pb).unwrap()); [x == y, Some(x) == hashed(&pa)] });
        let map = |j: &J| j.to_string().contains("\"map\"");
        // (how hash maps hash is their own affair: the type has no Hash)
        if let Some(g) = n.hash { if !(map(&va) && s.to_string().contains("HashMap")) { let e = unsafe { g(a.ptr()) }; match quiet(|| hashed(&pa)) { Ok(Some(x)) if x != e => out.push(("native", format!("hash: {x:?} but natively {e:?}"))), _ => {} } } }
        // through the implementation of Hash
        let mut rec = Recorder::default();
        std::hash::Hash::hash(&pa, &mut rec);
        if Some(rec.0) != hashed(&pa) { out.push(("ways", "Hash of a peek is not its hash".into())) }
    } else if quiet(|| hashed(&pa)) != Ok(None) { out.push(("offer", "values are hashed though their type cannot be".into())) }
    if vt.debug.is_some() {
        offers.push("Debug");
        say!("debug", codes(&format!("{:?}", Erased(s, ca, true))));
        if r["debug"] != codes(&format!("{pa:?}")) { out.push(("ways", "Debug of a peek is not its debug".into())) }
        if let Some(g) = n.debug { let e = unsafe { g(a.ptr()) }; if r["debug"] != codes(&e) && !(s.to_string().contains("HashMap")) { out.push(("native", format!("debug: {:?} but natively {e:?}", text(&r["debug"])))) } }
    } else { let t = format!("{pa:?}"); if t != format!("⟨{s}⟩") { out.push(("ways", format!("a value without Debug is shown as {t}"))) } }
    if vt.display.is_some() {
        offers.push("Display");
        say!("display", codes(&format!("{}", Erased(s, ca, false))));
        if r["display"] != codes(&format!("{pa}")) { out.push(("ways", "Display of a peek is not its display".into())) }
        if let Some(g) = n.display { let e = unsafe { g(a.ptr()) }; if r["display"] != codes(&e) { out.push(("native", format!("display: {:?} but natively {e:?}", text(&r["display"])))) } }
    } else { let t = format!("{pa}"); if t != format!("⟨{s}⟩") { out.push(("ways", format!("a value without Display is shown as {t}"))) } }
    if a.show() != va || b.show() != vb { out.push(("changed", "an operation changed the values it reads".into())) }
    if let Some(f) = vt.clone_into {
        offers.push("Clone");
        match quiet(|| on(|| o.room().fill(|p| unsafe { f(ca, p); true }))) {
            Ok(Some(h)) => { r["clone"] = h.show(); on(|| drop(h)) }
            Ok(None) => unreachable!(),
            Err(p) => out.push(("panic", format!("clone: {p}"))),
        }
    }
    if a.show() != va || b.show() != vb { out.push(("changed", "cloning changed the value".into())) }
    if let Some(f) = vt.default_in_place {
        offers.push("Default");
        match quiet(|| on(|| o.room().fill(|p| unsafe { f(p); true }))) {
            Ok(Some(h)) => {
                r["default"] = h.show();
                if let Some(g) = n.default { let e = g(); if e.show() != r["default"] && !r["default"].to_string().contains("\"tk\"") { out.push(("native", format!("default: {} but natively {}", r["default"], e.show()))) } }
                on(|| drop(h))
            }
            Ok(None) => unreachable!(),
            Err(p) => out.push(("panic", format!("default: {p}"))),
        }
    }
    if let Some(f) = vt.parse {
        offers.push("FromStr");
        r["parse"] = J::Array(case["parse"].as_array().unwrap().iter().map(|t| {
            let t = text(t);
            let got = match quiet(|| on(|| o.room().fill(|p| unsafe { f(&t, p).is_ok() }))) {
                Ok(Some(h)) => { let j = json!({"r": 1, "v": h.show()}); on(|| drop(h)); j }
                Ok(None) => json!({"r": 0}),
                Err(p) => { out.push(("panic", format!("parsing {t:?}: {p}"))); json!({"r": 0}) }
            };
            if let Some(g) = n.parse {
                let e = match g(&t) { Some(h) => json!({"r": 1, "v": h.show()}), None => json!({"r": 0}) };
                if e != got && !e.to_string().contains("\"tk\"") { out.push(("native", format!("parsing {t:?} gave {got} but natively {e}"))) }
            }
            got
        }).collect());
    }
    // the same of values on the heap, as the builder hands them out
    match quiet(|| heaps(o, case)) { Ok(w) => for w in w { out.push(("ways", w)) }, Err(p) => out.push(("panic", format!("a value on the heap: {p}"))) }
    offers.sort();
    r["offers"] = json!(offers);
    on(|| { drop(a); drop(b) });
    memory(out, 1 << 20);
    r
}

// ---------------------------------------------------------------------------- typed access
fn hash_of<T: std::hash::Hash>(t: &T) -> Vec<u8> { let mut r = Recorder::default(); t.hash(&mut r); r.0 }
/// one type against all others
pub fn pair(cx: &Ctx, case: &J, out: &mut Diffs) -> J {
    let i = case["sh"].as_u64().unwrap() as usize;
    let s = cx.ops[i - 1].shape;
    let make = |j: usize| (cx.ops[j - 1].make)(&case["vs"][j - 1]);
    let all = 1..=cx.ops.len();
    let list = |f: &mut dyn FnMut(usize) -> bool| J::Array(all.clone().filter(|&j| f(j)).map(|j| json!(j)).collect());
    let v = on(|| make(i));
    let mut r = json!({});
    macro_rules! all { ($k:literal, $f:expr) => { match quiet(|| list(&mut $f)) { Ok(v) => r[$k] = v, Err(p) => out.push(("panic", format!("{}: {p}", $k))) } } }
    all!("eq", |j| s == cx.ops[j - 1].shape);
    all!("is_shape", |j| s.is_shape(cx.ops[j - 1].shape));
    all!("is_type", |j| (cx.ops[j - 1].shape_is)(s));
    all!("assert", |j| quiet(|| s.assert_shape(cx.ops[j - 1].shape)).is_ok());
    all!("id", |j| s.id == cx.ops[j - 1].shape.id);
    all!("get", |j| (cx.ops[j - 1].get)(&v.peek()).is_some());
    for j in all.clone() { if s == cx.ops[j - 1].shape && (hash_of(s) != hash_of(cx.ops[j - 1].shape)) { out.push(("pair", format!("equal shapes hash differently: {i} and {j}"))) } }
    // comparing with a value of another type: not equal, not ordered
    let few = case["few"].as_array().unwrap();
    r["cmp"] = J::Array(few.iter().filter(|j| {
        let w = make(j.as_u64().unwrap() as usize);
        let (p, q) = (v.peek(), w.peek());
        let wide = |s: &Shape| matches!(&s.def, Def::Struct(d) if d.fields.len() > 64);
        let h = j.as_u64().unwrap() as usize != i && !wide(s) && !wide(cx.ops[j.as_u64().unwrap() as usize - 1].shape) && match (on(|| (cx.ops[i - 1].heap)(&case["vs"][i - 1])), on(|| (cx.ops[j.as_u64().unwrap() as usize - 1].heap)(&case["vs"][j.as_u64().unwrap() as usize - 1]))) {
            (Some(x), Some(y)) => { let b = x == y || x.partial_cmp(&y).is_some(); on(|| drop((x, y))); b }
            (x, y) => { on(|| drop((x, y))); false }
        };
        p.eq(&q).is_some() || p == q || p.partial_cmp(&q).is_some() || PartialOrd::partial_cmp(&p, &q).is_some() || h
    }).cloned().collect());
    // putting in and taking out, as another type
    r["put"] = J::Array(few.iter().filter(|j| {
        let j = j.as_u64().unwrap() as usize;
        match quiet(|| on(|| {
            let a = (cx.ops[j - 1].put)((cx.ops[i - 1].alloc)(), &case["vs"][j - 1]).is_ok();
            let b = (cx.ops[j - 1].put_peek)((cx.ops[i - 1].alloc)(), &case["vs"][j - 1]).is_ok();
            (a, b)
        })) {
            Ok((a, b)) => { if a && !b && i != j { out.push(("pair", format!("put is granted but put_peek is not: {j}"))) } a || b }
            Err(p) => { out.push(("panic", format!("put {j}: {p}"))); false }
        }
    }).cloned().collect());
    r["take"] = J::Array(few.iter().filter(|j| {
        let j = j.as_u64().unwrap() as usize;
        match quiet(|| on(|| {
            let w = (cx.ops[i - 1].put)((cx.ops[i - 1].alloc)(), &case["vs"][i - 1]).ok()?;
            (cx.ops[j - 1].take)(w.build().ok()?).ok()
        })) {
            Ok(x) => { let y = x.is_some(); on(|| drop(x)); y }
            Err(p) => { out.push(("panic", format!("take {j}: {p}"))); false }
        }
    }).cloned().collect());
    r["sc"] = json!(format!("{:?}", ScalarType::try_from_shape(s)));
    // identities: the value, and others like it
    let w = make(i);
    let (p, q) = (v.peek(), w.peek());
    let z = s.layout.size() == 0;
    r["ids"] = json!([p.id() == v.peek().id(), (p.id() == q.id()) == (v.ptr() == w.ptr()), p.ptr_eq(&v.peek()), p.ptr_eq(&q) == (v.ptr() == w.ptr()), hash_of(&p.id()) == hash_of(&v.peek().id()), z || v.ptr() != w.ptr()]);
    r["idt"] = J::Array(few.iter().filter(|j| {
        let t = cx.ops[j.as_u64().unwrap() as usize - 1].shape;
        unsafe { Peek::unchecked_new(p.data(), t) }.id() == p.id()
    }).cloned().collect());
    drop(w);
    on(|| drop(v));
    let (_, _, errs) = tk::status();
    for e in errs { out.push(("mem", e)) }
    // (what was refused by put is dropped with it)
    memory(out, 1 << 20);
    r
}
pub fn run(cx: &Ctx, mode: &str, case: &J) -> (J, Diffs) {
    let mut out = vec![];
    tk::reset();
    let r = match mode {
        "shape" => shape(cx, case),
        "walk" => walk(cx, case, &mut out),
        "ops" => ops(cx, case, &mut out),
        "pair" => pair(cx, case, &mut out),
        _ => unreachable!(),
    };
    off(|| ());
    (r, out)
}
