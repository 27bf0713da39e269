//! Lists, maps and options edited and asked through their shapes: one machine of spec/Coll.tla.
use crate::alloc::on;
use crate::docs::{Diffs, memory};
use crate::run::{Ctx, quiet};
use crate::tk;
use crate::u::*;
use facet_core::*;
use facet_reflect::Peek;
use serde_json::{Value as J, json};

pub fn run(cx: &Ctx, case: &J) -> Diffs {
    let mut out = vec![];
    tk::reset();
    let o = &cx.ops[case["sh"].as_u64().unwrap() as usize - 1];
    let s = o.shape;
    let n = case["n"].as_u64().unwrap() as usize;
    let mut at: Vec<Option<Holder>> = (0..n).map(|_| None).collect();
    for (step, op) in case["h"].as_array().unwrap().iter().enumerate() {
        let name = op["o"].as_str().unwrap();
        let i = op["i"].as_u64().unwrap() as usize;
        let num = op["n"].as_u64().unwrap() as usize;
        let say = |m: String| format!("step {}, {name} {i} ({num}) on {s}: {m}", step + 1);
        let did = quiet(|| go(cx, o, &mut at, name, i, num, op));
        match did {
            Err(p) => { out.push(("panic", say(p))); break }
            Ok(Err(e)) => { out.push(("coll", say(e))); break }
            Ok(Ok(a)) => if norm(&a) != norm(&op["a"]) { out.push(("coll", say(format!("answers {a}, not {}", op["a"])))); break }
        }
        let p: Vec<J> = at.iter().map(|h| h.as_ref().map_or(json!({"t": ""}), |h| h.show())).collect();
        if norm(&op["s"]["p"]) != norm(&json!(p)) { out.push(("coll", say(format!("now {}, not {}", json!(p), op["s"]["p"])))); break }
        let live = tk::status().1;
        if op["s"]["live"] != json!(live) { out.push(("coll", say(format!("alive are {live:?}, not {}", op["s"]["live"])))); break }
    }
    if out.is_empty() {
        on(|| drop(at));
        memory(&mut out, 1 << 20);
    } else { std::mem::forget(at); crate::alloc::settle(); }
    out
}

fn go(cx: &Ctx, o: &TypeOps, at: &mut [Option<Holder>], name: &str, i: usize, num: usize, op: &J) -> Result<J, String> {
    let s = o.shape;
    let ops_of = |t: &'static Shape| &cx.ops[cx.index(t) - 1];
    // the value in a place, and what is asked about it
    let here = if i > 0 { PtrConst::new(at[i - 1].as_ref().unwrap().ptr()) } else { PtrConst::new(&0u8) };
    let edit = if i > 0 { PtrMut::new(at[i - 1].as_ref().unwrap().ptr()) } else { PtrMut::new(std::ptr::NonNull::<u8>::dangling().as_ptr()) };
    let seen = |t: &'static Shape, p: PtrConst<'static>| (ops_of(t).get)(&unsafe { Peek::unchecked_new(p, t) });
    let (et, kt) = match s.def {
        Def::List(d) => (d.t(), None),
        Def::Option(d) => (d.t(), None),
        Def::Map(d) => (d.v, Some(d.k)),
        _ => return Err("is not described as a collection".into()),
    };
    let key = op.get("k").map(|j| { let f = ops_of(kt.unwrap()).make; on(|| f(j)) });
    let elem = op.get("x").map(|j| { let f = ops_of(et).make; on(|| f(j)) });
    let (kp, xp) = (key.as_ref().map(|h| h.ptr()), elem.as_ref().map(|h| h.ptr()));
    let answer = |v: Option<J>| match v { Some(v) => json!({"r": 1, "v": v}), None => json!({"r": 0}) };
    let mut a = json!({"r": 1});
    // something new in the first empty place
    macro_rules! fresh { ($f:expr) => {{
        let mut ok = true;
        let h = on(|| o.room().fill(|p| { let at = p.as_mut_byte_ptr(); let f = $f; let got: PtrMut = f(p); ok = got.as_byte_ptr() == at as *const u8; true }));
        if !ok { return Err("the value is not where it was to be put".into()) }
        *at.iter_mut().find(|h| h.is_none()).unwrap() = h;
    }} }
    match (name, s.def) {
        ("init", Def::List(d)) => { let f = d.vtable.init_in_place_with_capacity.ok_or("there is no init_in_place_with_capacity")?; fresh!(|p| unsafe { f(p, num) }) }
        ("init", Def::Map(d)) => fresh!(|p| unsafe { (d.vtable.init_in_place_with_capacity_fn)(p, num) }),
        ("default", _) => { let f = s.vtable.default_in_place.ok_or("there is no default")?; fresh!(|p| unsafe { f(p) }) }
        ("clone", _) => { let f = s.vtable.clone_into.ok_or("there is no clone")?; fresh!(|p| unsafe { f(here, p) }) }
        ("none", Def::Option(d)) => fresh!(|p| unsafe { (d.vtable.init_none_fn)(p) }),
        ("some", Def::Option(d)) => fresh!(|p| unsafe { (d.vtable.init_some_fn)(p, PtrConst::new(xp.unwrap())) }),
        ("set", Def::Option(d)) => on(|| unsafe { (d.vtable.replace_with_fn)(edit, Some(PtrConst::new(xp.unwrap()))) }),
        ("unset", Def::Option(d)) => on(|| unsafe { (d.vtable.replace_with_fn)(edit, None) }),
        ("push", Def::List(d)) => on(|| unsafe { (d.vtable.push)(edit, PtrMut::new(xp.unwrap())) }),
        ("insert", Def::Map(d)) => on(|| unsafe { (d.vtable.insert_fn)(edit, PtrMut::new(kp.unwrap()), PtrMut::new(xp.unwrap())) }),
        ("get", Def::List(d)) => {
            // (beyond the end it panics)
            a = answer(match quiet(|| unsafe { (d.vtable.get_item_ptr)(here, num) }) { Ok(p) => Some(seen(et, p).ok_or("the element is of another type")?), Err(_) => None });
        }
        ("get", Def::Option(d)) => a = answer(match unsafe { (d.vtable.get_value_fn)(here) } { Some(p) => Some(seen(et, p).ok_or("the value is of another type")?), None => None }),
        ("look", Def::Map(d)) => {
            let k = PtrConst::new(kp.unwrap());
            let v = unsafe { (d.vtable.get_value_ptr_fn)(here, k) };
            if unsafe { (d.vtable.contains_key_fn)(here, k) } != v.is_some() { return Err("contains_key and get_value_ptr do not agree".into()) }
            a = answer(match v { Some(p) => Some(seen(et, p).ok_or("the value is of another type")?), None => None });
        }
        ("len", Def::List(d)) => a = json!({"r": unsafe { (d.vtable.len)(here) }}),
        ("len", Def::Map(d)) => a = json!({"r": unsafe { (d.vtable.len_fn)(here) }}),
        ("len", Def::Option(d)) => a = json!({"r": unsafe { (d.vtable.is_some_fn)(here) } as u8}),
        ("iter", Def::Map(d)) => {
            // two at a time: one goes num steps, the other all the way
            let all = at[i - 1].as_ref().unwrap().show();
            let pair = |(k, v): (PtrConst<'static>, PtrConst<'static>)| Some(norm(&json!([seen(kt.unwrap(), k)?, seen(et, v)?])));
            let (first, second) = unsafe {
                let (x, y) = on(|| ((d.vtable.iter_fn)(here), (d.vtable.iter_fn)(here)));
                let (mut first, mut second) = (vec![], vec![]);
                loop {
                    if first.len() < num { if let Some(p) = on(|| (d.vtable.iter_vtable.next)(x)) { first.push(pair(p)) } }
                    match on(|| (d.vtable.iter_vtable.next)(y)) { Some(p) => second.push(pair(p)), None => break }
                    if second.len() > 1000 { return Err("an iteration does not end".into()) }
                }
                if on(|| (d.vtable.iter_vtable.next)(y)).is_some() { return Err("an iteration goes on after its end".into()) }
                on(|| (d.vtable.iter_vtable.dealloc)(y));
                while first.len() < num { match on(|| (d.vtable.iter_vtable.next)(x)) { Some(p) => first.push(pair(p)), None => break } }
                on(|| (d.vtable.iter_vtable.dealloc)(x));
                (first, second)
            };
            let sorted = |v: &[Option<J>]| { let mut v: Vec<String> = v.iter().map(|j| json!(j).to_string()).collect(); v.sort(); v };
            let want: Vec<Option<J>> = norm(&all)["e"].as_array().unwrap().iter().cloned().map(Some).collect();
            if sorted(&second) != sorted(&want) { return Err(format!("iterating shows {}, not {}", json!(second), json!(want))) }
            if first.len() > second.len() || first[..] != second[..first.len()] { return Err("another iteration shows something else".into()) }
            a = json!({"r": first.len()});
        }
        ("drop", _) => {
            // through the shape; its memory natively
            let h = at[i - 1].take().unwrap();
            match s.vtable.drop_in_place {
                Some(f) => on(|| { unsafe { f(PtrMut::new(h.ptr())); } h.hollow() }),
                None => return Err("cannot be dropped".into()),
            }
        }
        _ => return Err("is described as another kind of collection".into()),
    }
    // what was moved leaves its memory behind; a key that was only shown is dropped
    on(|| {
        if let Some(h) = elem { h.hollow() }
        if let Some(h) = key { if name == "look" { drop(h) } else { h.hollow() } }
    });
    Ok(a)
}
