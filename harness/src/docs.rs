//! Reads documents into, and writes them from, the types of the universe: records what happened, for
//! the specifications to judge. What is wrong whatever the document says (a panic, memory left behind,
//! entry points that disagree, an error that cannot be shown) is reported as a difference right away.
use crate::alloc::{off, on, settle};
use crate::run::{Ctx, quiet};
use crate::tk;
use crate::u::*;
use facet_core::Facet;
use facet_pretty::{FacetPretty, PrettyPrinter};
use facet_reflect::Wip;
use serde_json::{Value as J, json};
use std::io::{self, Write};

pub type Got = Result<Holder, String>;
#[derive(Clone, Copy)]
pub struct Fmt {
    pub json: fn(&[u8]) -> Got,
    pub json_str: fn(&str) -> Got,
    pub json_wip: fn(&[u8]) -> Got,
    pub json_write: fn(*mut u8) -> String,
    pub json_writer: fn(*mut u8, &mut dyn Write) -> io::Result<()>,
    pub mp: fn(&[u8]) -> Got,
    pub mp_str: fn(&[u8]) -> Got,
    pub mp_value: fn(&[u8]) -> Got,
    pub mp_write: fn(*mut u8) -> Vec<u8>,
    pub toml: fn(&str) -> Got,
    pub yaml: fn(&str) -> Got,
    pub url: fn(&str) -> Got,
    pub args: fn(&[&str]) -> Holder,
    pub pretty: fn(*mut u8, PrettyPrinter) -> String,
    pub pretty_display: fn(*mut u8, PrettyPrinter) -> String,
    pub pretty_default: fn(*mut u8) -> String,
}
fn got<T: U + Facet, E: std::fmt::Display + std::fmt::Debug>(r: Result<T, E>) -> Got {
    match r { Ok(v) => Ok(Holder::new(v)), Err(e) => Err(format!("{e} {e:?}")) }
}
pub fn fmt<T: U + Facet>() -> Fmt {
    Fmt {
        json: |b| got(facet_json::from_slice::<T>(b)),
        json_str: |s| got(facet_json::from_str::<T>(s)),
        json_wip: |b| match facet_json::from_slice_wip(Wip::alloc::<T>(), b) {
            Ok(h) => h.materialize::<T>().map(Holder::new).map_err(|e| format!("materialize: {e}")),
            Err(e) => Err(format!("{e} {e:?}")),
        },
        json_write: |p| facet_json::to_string(unsafe { &*(p as *const T) }),
        json_writer: |p, mut w| facet_json::to_writer(unsafe { &*(p as *const T) }, &mut w),
        mp: |b| got(facet_msgpack::from_slice::<T>(b)),
        mp_str: |b| got(facet_msgpack::from_str::<T>(b)),
        mp_value: |b| match facet_msgpack::from_slice_value(Wip::alloc::<T>(), b) {
            Ok(h) => h.materialize::<T>().map(Holder::new).map_err(|e| format!("materialize: {e}")),
            Err(e) => Err(format!("{e} {e:?}")),
        },
        mp_write: |p| facet_msgpack::to_vec(unsafe { &*(p as *const T) }),
        toml: |s| got(facet_toml::from_str::<T>(s)),
        yaml: |s| got(facet_yaml::from_str::<T>(s)),
        url: |s| got(facet_urlencoded::from_str::<T>(s)),
        args: |a| Holder::new(facet_args::from_slice::<T>(a)),
        pretty: |p, pp| pp.format(unsafe { &*(p as *const T) }),
        pretty_display: |p, pp| unsafe { &*(p as *const T) }.pretty_with(pp).to_string(),
        pretty_default: |p| unsafe { &*(p as *const T) }.pretty().to_string(),
    }
}

pub type Diffs = Vec<(&'static str, String)>;
/// runs something that gives a value or refuses; what it gave
fn attempt(what: &str, out: &mut Diffs, show: bool, f: impl FnOnce() -> Got) -> Option<J> {
    match quiet(|| on(f)) {
        Err(p) => { out.push(("panic", format!("{what}: {p}"))); None }
        Ok(Err(e)) => { on(move || drop(e)); Some(json!({"r": 0})) }
        Ok(Ok(h)) => {
            let v = if show { match quiet(|| off(|| h.show())) { Ok(v) => v, Err(p) => { out.push(("panic", format!("{what}: reading the value: {p}"))); return None } } } else { json!({"t": "dontcare"}) };
            if let Err(p) = quiet(|| on(|| drop(h))) { out.push(("panic", format!("{what}: dropping the value: {p}"))) }
            Some(json!({"r": 1, "v": v}))
        }
    }
}
pub fn memory(out: &mut Diffs, input: usize) {
    let (made, alive, errs) = tk::status();
    for e in errs { out.push(("mem", e)) }
    if !alive.is_empty() { out.push(("mem", format!("of {made} values, these were never dropped: {alive:?}"))) }
    let m = settle();
    if !m.clean() { out.push(("mem", format!("{m:?}"))) }
    // far more memory than anything in the input could account for
    if m.peak > (1 << 20) + 4096 * input { out.push(("mem", format!("{} bytes were allocated for an input of {input}", m.peak))) }
}
/// accepts so many bytes, a few at a time
struct Narrow { room: usize, got: Vec<u8> }
impl Write for Narrow {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0) }
        if self.room == 0 { return Err(io::Error::from(io::ErrorKind::StorageFull)) }
        let n = b.len().min(3).min(self.room);
        self.room -= n;
        off(|| self.got.extend_from_slice(&b[..n]));
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn fill(case: &J) -> Vec<u8> {
    if case["k"] != "deep" { return bytes(&case["b"]) }
    let n = case["n"].as_u64().unwrap() as usize;
    let mut b = bytes(&case["pre"]);
    b.extend(bytes(&case["open"]).repeat(n));
    b.extend(bytes(&case["mid"]));
    b.extend(bytes(&case["close"]).repeat(n));
    b.extend(bytes(&case["post"]));
    b
}

/// reads a document in some format, through every way there is
fn read(cx: &Ctx, format: &str, case: &J, out: &mut Diffs) -> J {
    let f = cx.ops[case["sh"].as_u64().unwrap() as usize - 1].fmt;
    let deep = case["k"] == "deep";
    let mut ways: Vec<(&str, Option<J>)> = vec![];
    if format == "args" {
        let a: Vec<String> = case["a"].as_array().unwrap().iter().map(text).collect();
        let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
        // panicking is how it refuses
        let r = match quiet(|| on(|| (f.args)(&a))) {
            Err(_) => json!({"r": 0}),
            Ok(h) => { let v = off(|| h.show()); on(|| drop(h)); json!({"r": 1, "v": v}) }
        };
        return r;
    }
    let b = fill(case);
    let s = std::str::from_utf8(&b).ok();
    match format {
        "json" => {
            ways.push(("from_slice", attempt("from_slice", out, !deep, || (f.json)(&b))));
            if !deep { ways.push(("from_slice_wip", attempt("from_slice_wip", out, true, || (f.json_wip)(&b)))) }
            if let Some(s) = s { ways.push(("from_str", attempt("from_str", out, !deep, || (f.json_str)(s)))) }
        }
        "msgpack" => {
            ways.push(("from_slice", attempt("from_slice", out, !deep, || (f.mp)(&b))));
            ways.push(("from_str", attempt("from_str", out, !deep, || (f.mp_str)(&b))));
            ways.push(("from_slice_value", attempt("from_slice_value", out, !deep, || (f.mp_value)(&b))));
        }
        "toml" => ways.push(("from_str", attempt("from_str", out, !deep, || (f.toml)(s.unwrap())))),
        "yaml" => ways.push(("from_str", attempt("from_str", out, !deep, || (f.yaml)(s.unwrap())))),
        "url" => ways.push(("from_str", attempt("from_str", out, !deep, || (f.url)(s.unwrap())))),
        m => panic!("unknown format {m}"),
    }
    let first = ways[0].1.clone();
    for (w, r) in &ways[1..] {
        if r.is_some() && first.is_some() && *r != first { out.push(("ways", format!("{w} gives {}, but {} gives {}", r.as_ref().unwrap(), ways[0].0, first.as_ref().unwrap()))) }
    }
    first.unwrap_or(json!({"r": 0}))
}
fn write(cx: &Ctx, format: &str, case: &J, out: &mut Diffs) -> J {
    let o = &cx.ops[case["sh"].as_u64().unwrap() as usize - 1];
    let f = o.fmt;
    let h = off(|| (o.make)(&case["v"]));
    let p = h.ptr();
    let made: Option<Vec<u8>> = match format {
        "json" => quiet(|| on(|| (f.json_write)(p).into_bytes())),
        _ => quiet(|| on(|| (f.mp_write)(p))),
    }.map_err(|e| out.push(("panic", format!("writing: {e}")))).ok();
    let Some(b) = made else { return json!({"r": 0, "t": [], "t2": []}) };
    let t = off(|| b.clone());
    on(move || drop(b));
    if format == "json" {
        let pk = quiet(|| on(|| facet_json::peek_to_string(&h.peek()).into_bytes()));
        if pk.as_ref().ok() != Some(&t) { out.push(("ways", "peek_to_string writes something else than to_string".into())) }
        on(|| drop(pk));
        let mut w = Narrow { room: usize::MAX, got: vec![] };
        match quiet(|| on(|| (f.json_writer)(p, &mut w))) {
            Ok(Ok(())) if w.got == t => {}
            r => out.push(("ways", format!("to_writer gives {r:?} and {:?}", String::from_utf8_lossy(&w.got)))),
        }
        let mut pw = Narrow { room: usize::MAX, got: vec![] };
        match quiet(|| on(|| facet_json::peek_to_writer(&h.peek(), &mut pw))) {
            Ok(Ok(())) if pw.got == t => {}
            r => out.push(("ways", format!("peek_to_writer gives {r:?} and {:?}", String::from_utf8_lossy(&pw.got)))),
        }
        for room in [0, t.len() / 2, t.len() - 1] {
            let mut w = Narrow { room, got: vec![] };
            match quiet(|| on(|| (f.json_writer)(p, &mut w).is_err())) {
                Ok(true) if t.starts_with(&w.got) => {}
                r => out.push(("ways", format!("to_writer with room for {room} of {} bytes gives {r:?}", t.len()))),
            }
        }
    }
    // the value must still be what it was
    if h.show() != norm(&case["v"]) { out.push(("value", "writing changed the value".into())) }
    let mut res = json!({"r": 0, "t": t, "t2": []});
    if case["back"] == true {
        let rd = if format == "json" { f.json } else { f.mp };
        match quiet(|| on(|| rd(&t))) {
            Err(p) => out.push(("panic", format!("reading what was written: {p}"))),
            Ok(Err(e)) => { on(|| drop(e)); }
            Ok(Ok(v)) => {
                res["r"] = json!(1);
                res["v"] = off(|| v.show());
                let again = quiet(|| on(|| if format == "json" { (f.json_write)(v.ptr()).into_bytes() } else { (f.mp_write)(v.ptr()) }));
                if let Ok(a) = again { res["t2"] = json!(a); on(move || drop(a)); }
                on(|| drop(v));
            }
        }
    }
    off(|| drop(h));
    res
}
/// puts a float into a position of the type: at the root, and into every field of the structs of numbers that has the type
fn number(cx: &Ctx, case: &J, out: &mut Diffs) -> J {
    let sh = case["sh"].as_u64().unwrap() as usize;
    let x = flt_of(&case["x"]);
    let o = &cx.ops[sh - 1];
    let can = quiet(|| on(|| (o.alloc)().can_put_f64())).unwrap_or(false);
    let root = attempt("put", out, true, || {
        let w = (o.alloc)().try_put_f64(x).map_err(|e| e.to_string())?;
        (o.take)(w.build().map_err(|e| format!("build: {e}"))?).map_err(|e| format!("take: {e}"))
    }).unwrap_or(json!({"r": 2}));
    let mut fields = vec![];
    for ty in ["Ints", "NzU", "NzI", "Flts"] {
        let t = cx.find(ty);
        let fs = cx.universe[t - 1]["fields"].as_array().unwrap();
        for (i, f) in fs.iter().enumerate() {
            if f["sh"].as_u64().unwrap() as usize != sh { continue }
            let s = &cx.ops[t - 1];
            let r = attempt("put into a field", out, true, || {
                let mut w = (s.alloc)();
                // the others get ones, some of them before and some after
                for j in (0..fs.len()).filter(|j| j % 2 == 0 && *j != i) { w = w.field(j).unwrap().try_put_f64(1.0).unwrap().pop().unwrap(); }
                w = w.field(i).unwrap().try_put_f64(x).map_err(|e| e.to_string())?.pop().unwrap();
                for j in (0..fs.len()).filter(|j| j % 2 == 1 && *j != i) { w = w.field(j).unwrap().try_put_f64(1.0).unwrap().pop().unwrap(); }
                (s.take)(w.build().map_err(|e| format!("build: {e}"))?).map_err(|e| format!("take: {e}"))
            }).unwrap_or(json!({"r": 2}));
            fields.push(if r["r"] == 1 {
                for j in (0..fs.len()).filter(|j| *j != i) {
                    if r["v"]["f"][j] != int_json("1") && r["v"]["f"][j] != flt_json(1.0) { out.push(("value", format!("another field holds {}", r["v"]["f"][j]))) }
                }
                json!({"r": 1, "v": r["v"]["f"][i]})
            } else { r });
        }
    }
    json!({"r": 1, "can": can, "root": root, "fields": fields})
}
/// prints a value and its sensitively different sibling, plain and in color, in every way there is
fn print(cx: &Ctx, case: &J, out: &mut Diffs) -> J {
    let o = &cx.ops[case["sh"].as_u64().unwrap() as usize - 1];
    let f = o.fmt;
    let (ind, max) = (case["ind"].as_u64().unwrap() as usize, case["max"].as_i64().unwrap());
    let printer = |colors: bool| {
        let p = PrettyPrinter::new().with_indent_size(ind).with_colors(colors);
        if max >= 0 { p.with_max_depth(max as usize) } else { p }
    };
    tk::reset();
    let h = off(|| (o.make)(&case["v"]));
    let seen = off(|| h.show());
    // each text on its own, so that the tracked values are numbered alike
    let mut texts = vec![];
    for (colors, h) in [(false, &h), (true, &h)] {
        let p = h.ptr();
        let Ok(t) = quiet(|| on(|| (f.pretty)(p, printer(colors)))).map_err(|e| out.push(("panic", format!("printing: {e}")))) else { return json!({"r": 0}) };
        let peek = h.peek();
        for (w, u) in [("format_peek", quiet(|| on(|| printer(colors).format_peek(peek)))), ("pretty_with", quiet(|| on(|| (f.pretty_display)(p, printer(colors)))))] {
            if u.as_ref().ok() != Some(&t) { out.push(("ways", format!("{w} prints {u:?}, but format prints {t:?}"))) }
            on(|| drop(u));
        }
        if colors && ind == 2 && max < 0 {
            let u = quiet(|| on(|| (f.pretty_default)(p)));
            if u.as_ref().ok() != Some(&t) { out.push(("ways", format!("pretty prints {u:?}, but format prints {t:?}"))) }
            on(|| drop(u));
        }
        texts.push(codes(&t));
        on(|| drop(t));
    }
    if h.show() != seen { out.push(("value", "printing changed the value".into())) }
    off(|| drop(h));
    tk::reset();
    let h2 = off(|| (o.make)(&case["v2"]));
    for colors in [false, true] {
        let Ok(t) = quiet(|| on(|| (f.pretty)(h2.ptr(), printer(colors)))).map_err(|e| out.push(("panic", format!("printing: {e}")))) else { return json!({"r": 0}) };
        texts.push(codes(&t));
        on(|| drop(t));
    }
    off(|| drop(h2));
    json!({"r": 1, "v": seen, "t": texts[0], "c": texts[1], "t2": texts[2], "c2": texts[3]})
}
fn once(cx: &Ctx, format: &str, case: &J) -> (J, Diffs) {
    tk::reset();
    let mut out = vec![];
    let size = case.to_string().len() + case["n"].as_u64().unwrap_or(0) as usize * 32;
    let r = match case["k"].as_str().unwrap() { "write" => write(cx, format, case, &mut out), "print" => print(cx, case, &mut out), "num" => number(cx, case, &mut out), _ => read(cx, format, case, &mut out) };
    // a panic that is caught leaves things behind, and is reported anyway
    if format == "args" && r["r"] == 0 { let mut ignored = vec![]; memory(&mut ignored, 0); } else { memory(&mut out, size); }
    (r, out)
}
pub fn run(cx: &Ctx, format: &str, case: &J) -> (J, Diffs) {
    let r = once(cx, format, case);
    // lazily initialized statics look like leaks once: only what happens again counts
    if r.1.iter().any(|d| d.0 == "mem") { once(cx, format, case) } else { r }
}
