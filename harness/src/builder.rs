//! Replays behaviours of spec/Builder.tla on the real `Wip` and compares everything it says.
use crate::alloc::{off, on, settle};
use crate::tk;
use crate::u::*;
use crate::run::{Ctx, quiet};
use facet_core::{Facet, Def};
use facet_reflect::{FrameMode, HeapValue, ReflectError, Wip};
use serde_json::{Value as J, json};

fn mode(m: FrameMode) -> &'static str {
    match m {
        FrameMode::Root => "root", FrameMode::Field => "field", FrameMode::ListElement => "elem", FrameMode::MapKey => "key",
        FrameMode::MapValue { .. } => "val", FrameMode::OptionSome => "some", FrameMode::OptionNone => "none",
    }
}

/// what the builder says about itself, in the specification's terms (Report in Builder.tla)
fn report(cx: &Ctx, w: &Wip<'static>) -> J {
    let n = w.frames_count();
    if n == 0 { return json!({"n": 0}); }
    let sh = cx.index(w.shape());
    let mut set = vec![];
    let mut i = 0;
    while let Ok(b) = w.is_field_set(i) { set.push(b as u8); i += 1; }
    let mut r = json!({"n": n, "sh": sh, "m": mode(w.mode()), "p": w.path(), "set": set,
        "var": w.selected_variant().map(|v| v.name).unwrap_or("")});
    r["es"] = json!(w.element_shape().ok().map(|s| cx.index(s)).unwrap_or(0));
    r["ks"] = json!(w.key_shape().ok().map(|s| cx.index(s)).unwrap_or(0));
    r
}
/// ... and what it says about names and types, checked against each other
fn lookups(cx: &Ctx, w: &Wip<'static>, out: &mut Vec<(&'static str, String)>) {
    if w.frames_count() == 0 { return; }
    let sh = cx.index(w.shape());
    if sh == 0 { return; }
    let u = &cx.universe[sh - 1];
    let mut want = vec![];
    match u["k"].as_str().unwrap() {
        "struct" => want = u["fields"].as_array().unwrap().clone(),
        "enum" => {
            for (i, v) in u["variants"].as_array().unwrap().iter().enumerate() {
                let got = w.find_variant(v["n"].as_str().unwrap()).map(|(j, v)| (j, v.name));
                if got != Some((i, v["n"].as_str().unwrap())) { out.push(("report", format!("find_variant({}) = {got:?}", v["n"]))); }
                if w.selected_variant().is_some_and(|s| s.name == v["n"].as_str().unwrap()) { want = v["fields"].as_array().unwrap().clone(); }
            }
            for v in u["variants"].as_array().unwrap() {
                let n = v["n"].as_str().unwrap();
                for x in [n.to_uppercase(), n.to_lowercase(), format!("{n}_"), n.chars().take(n.chars().count() - 1).collect(), n.chars().skip(1).collect()] {
                    if u["variants"].as_array().unwrap().iter().all(|g| g["n"] != x.as_str()) && w.find_variant(&x).is_some() { out.push(("report", format!("find_variant({x:?}) finds something"))); }
                }
            }
            if w.find_variant("No Such").is_some() { out.push(("report", "found a variant that does not exist".into())); }
        }
        _ => {}
    }
    for (i, f) in want.iter().enumerate() {
        let got = w.field_index(f["n"].as_str().unwrap());
        if got != Some(i) { out.push(("report", format!("field_index({}) = {got:?}", f["n"]))); }
    }
    // ... and nothing under a name that is nearly one
    for (i, f) in want.iter().enumerate() {
        let n = f["n"].as_str().unwrap();
        let lower = n.to_lowercase();
        let near = [n.to_uppercase(), lower, format!("{n}_"), format!(" {n}"), n.chars().take(n.chars().count() - 1).collect(), n.chars().skip(1).collect(), i.to_string()];
        for x in near.iter().filter(|x| want.iter().all(|g| g["n"] != x.as_str())) {
            if let Some(j) = w.field_index(x) { out.push(("report", format!("field_index({x:?}) = {j}"))); }
        }
    }
    if w.field_index("no such").is_some() { out.push(("report", "found a field that does not exist".into())); }
    if !(cx.ops[sh - 1].is_type)(w) { out.push(("report", "current_is_type denies the current type".into())); }
    let other = if sh == cx.u8 { cx.string } else { cx.u8 };
    if (cx.ops[other - 1].is_type)(w) { out.push(("report", "current_is_type affirms another type".into())); }
    let _ = matches!(w.shape().def, Def::Scalar(_));
}

type W = Wip<'static>;
pub fn step(cx: &Ctx, w: W, op: &J) -> Result<W, ReflectError> {
    let i = || op["i"].as_u64().unwrap() as usize - 1;
    let sh = || &cx.ops[op["sh"].as_u64().unwrap() as usize - 1];
    match op["o"].as_str().unwrap() {
        "field" => w.field(i()),
        "fieldn" => w.field_named(op["n"].as_str().unwrap()),
        "variant" => w.variant(i()),
        "variantn" => w.variant_named(op["n"].as_str().unwrap()),
        "put" => (sh().put)(w, &op["v"]),
        "peek" => (sh().put_peek)(w, &op["v"]),
        "putfn" => { off(|| PENDING.with(|p| *p.borrow_mut() = op["v"].clone())); (sh().from_fn)(w) }
        "default" => w.put_default(),
        "parse" => { let s = off(|| text(&op["txt"])); let r = w.parse(&s); off(move || drop(s)); r }
        "elist" => w.put_empty_list(),
        "emap" => w.put_empty_map(),
        "blist" => w.begin_pushback(),
        "bmap" => w.begin_map_insert(),
        "push" => w.push(),
        "some" => w.push_some(),
        "none" => w.pop_some_push_none(),
        "key" => w.push_map_key(),
        "val" => w.push_map_value(),
        "pop" => w.pop(),
        o => panic!("unknown step {o}"),
    }
}

enum At { Wip(W), Heap(HeapValue<'static>), Gone }

/// runs one behaviour; what differs from it comes back as (kind of difference, description)
pub fn replay(cx: &Ctx, case: &J) -> Vec<(&'static str, String)> {
    if let Some(fan) = case["fan"].as_array() {
        let mut out = vec![];
        for op in fan {
            let mut c = json!({"root": case["root"], "steps": case["steps"]});
            c["steps"].as_array_mut().unwrap().push(op.clone());
            for (k, m) in replay(cx, &c) { out.push((k, format!("{m} [{op}]"))); }
        }
        return out;
    }
    let first = attempt(cx, case);
    // lazily initialized statics look like leaks once: only what happens again counts
    if first.iter().any(|d| d.0 == "mem") { attempt(cx, case) } else { first }
}
fn attempt(cx: &Ctx, case: &J) -> Vec<(&'static str, String)> {
    tk::reset();
    let mut out: Vec<(&'static str, String)> = vec![];
    let root = case["root"].as_u64().unwrap() as usize;
    let ops = &cx.ops[root - 1];
    let mut at = match quiet(|| on(|| (ops.alloc)())) { Ok(w) => At::Wip(w), Err(p) => { out.push(("panic", p)); At::Gone } };
    for (k, op) in case["steps"].as_array().unwrap().iter().enumerate() {
        let o = op["o"].as_str().unwrap();
        let want = op["r"] == 1;
        let place = |m: String| format!("step {} ({o}): {m}", k + 1);
        match std::mem::replace(&mut at, At::Gone) {
            At::Gone => break,
            At::Wip(w) => match o {
                "drop" => { if let Err(p) = quiet(|| on(move || drop(w))) { out.push(("panic", place(p))) } }
                "build" => match quiet(|| on(move || match w.build() { Ok(h) => Some(h), Err(e) => { let _ = off(|| format!("{e}")); drop(e); None } })) {
                    Err(p) => out.push(("panic", place(p))),
                    Ok(Some(h)) => {
                        if !want { out.push(("complete", place("built, although it must not".into()))); }
                        at = At::Heap(h);
                        if want {
                            if let At::Heap(h) = &at {
                                match quiet(|| off(|| (ops.get)(&h.peek()))) {
                                    Ok(Some(v)) => { let e = norm(&op["v"]); if v != e { out.push(("value", place(format!("built {v} instead of {e}")))) } }
                                    Ok(None) => out.push(("access", place("the value cannot be read as its own type".into()))),
                                    Err(p) => out.push(("panic", place(p))),
                                }
                            }
                        }
                    }
                    Ok(None) => if want { out.push(("complete", place("refused to build a complete value".into()))) },
                },
                _ => match quiet(|| on(|| match step(cx, w, op) { Ok(w) => Some(w), Err(e) => { let _ = off(|| format!("{e} {e:?}")); drop(e); None } })) {
                    Err(p) => out.push(("panic", place(p))),
                    Ok(None) => if want { out.push(("accept", place("refused, but must be accepted".into()))) },
                    Ok(Some(w)) => {
                        if !want { out.push(("accept", place("accepted, but must be refused".into()))); }
                        else {
                            match quiet(|| off(|| { let r = report(cx, &w); let mut l = vec![]; lookups(cx, &w, &mut l); (r, l) })) {
                                Err(p) => out.push(("panic", place(p))),
                                Ok((got, l)) => {
                                    if got != op["s"] { out.push(("report", place(format!("reports {got} instead of {}", op["s"])))) }
                                    for (c, m) in l { out.push((c, place(m))) }
                                }
                            }
                        }
                        at = At::Wip(w);
                    }
                },
            },
            At::Heap(h) => match o {
                "mat" => match quiet(|| on(|| (ops.take)(h))) {
                    Err(p) => out.push(("panic", place(p))),
                    Ok(Err(e)) => { out.push(("access", place(format!("{e}")))); on(move || drop(e)) }
                    Ok(Ok(v)) => {
                        let e = norm(case["steps"].as_array().unwrap().iter().find_map(|s| s.get("v").filter(|_| s["o"] == "build")).unwrap());
                        let got = quiet(|| off(|| v.show()));
                        if got.as_ref().ok() != Some(&e) { out.push(("value", place(format!("handed out {got:?} instead of {e}")))) }
                        if let Err(p) = quiet(|| on(|| drop(v))) { out.push(("panic", place(p))) }
                    }
                },
                "wrong" => {
                    let other = if root == cx.u8 { cx.string } else { cx.u8 };
                    match quiet(|| on(|| (cx.ops[other - 1].take)(h).map_err(drop))) {
                        Err(p) => out.push(("panic", place(p))),
                        Ok(Err(())) => {}
                        Ok(Ok(v)) => { out.push(("access", place("handed out as another type".into()))); std::mem::forget(v) }
                    }
                }
                _ => { if let Err(p) = quiet(|| on(|| drop(h))) { out.push(("panic", place(p))) } }
            },
        }
    }
    if let Err(p) = quiet(|| on(|| drop(at))) { out.push(("panic", p)) }
    off(|| PENDING.with(|p| *p.borrow_mut() = J::Null));
    let (made, alive, errs) = tk::status();
    for e in errs { out.push(("mem", e)) }
    if !alive.is_empty() { out.push(("mem", format!("of {made} values, these were never dropped: {alive:?}"))) }
    let m = settle();
    if !m.clean() { out.push(("mem", format!("{m:?}"))) }
    let _ = <u8 as Facet>::SHAPE;
    out
}
