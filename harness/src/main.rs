mod alloc;
mod builder;
mod colls;
mod docs;
mod ptrs;
mod reflect;
mod run;
mod tk;
mod types;
mod u;
use serde_json::json;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cx = run::Ctx::new();
    let skip = a.get(4).map_or(0, |s| s.parse().unwrap());
    match a[1].as_str() {
        "builder" => run::each(&a[2], &a[3], skip, |i, j, out| {
            let d = builder::replay(&cx, &j);
            if !d.is_empty() {
                writeln!(out, "{}", json!({"case": i, "diffs": d.iter().map(|(c, m)| json!([c, m])).collect::<Vec<_>>()})).unwrap();
                out.flush().unwrap();
            }
        }),
        m @ ("json" | "msgpack" | "toml" | "yaml" | "url" | "args" | "pretty" | "num") => run::each(&a[2], &a[3], skip, |i, j, out| {
            let (mut r, d) = docs::run(&cx, m, &j);
            if !d.is_empty() {
                writeln!(out, "{}", json!({"case": i, "diffs": d.iter().map(|(c, m)| json!([c, m])).collect::<Vec<_>>()})).unwrap();
            }
            r["case"] = json!(i);
            writeln!(out, "{r}").unwrap();
            out.flush().unwrap();
        }),
        m @ ("shape" | "walk" | "ops" | "pair") => run::each(&a[2], &a[3], skip, |i, j, out| {
            let (mut r, d) = reflect::run(&cx, m, &j);
            if !d.is_empty() {
                writeln!(out, "{}", json!({"case": i, "diffs": d.iter().map(|(c, m)| json!([c, m])).collect::<Vec<_>>()})).unwrap();
            }
            r["case"] = json!(i);
            writeln!(out, "{r}").unwrap();
            out.flush().unwrap();
        }),
        "coll" => run::each(&a[2], &a[3], skip, |i, j, out| {
            let d = colls::run(&cx, &j);
            if !d.is_empty() { writeln!(out, "{}", json!({"case": i, "diffs": d.iter().map(|(c, m)| json!([c, m])).collect::<Vec<_>>()})).unwrap(); out.flush().unwrap(); }
        }),
        "rc" => run::each(&a[2], &a[3], skip, |i, j, out| {
            let d = ptrs::run(&cx.universe, &j);
            if !d.is_empty() { writeln!(out, "{}", json!({"case": i, "diffs": d.iter().map(|(c, m)| json!([c, m])).collect::<Vec<_>>()})).unwrap(); out.flush().unwrap(); }
        }),
        "offers" => for (i, o) in cx.ops.iter().enumerate() {
            let v = o.shape.vtable;
            let mut l = vec![];
            if v.clone_into.is_some() { l.push("Clone") }
            if v.debug.is_some() { l.push("Debug") }
            if v.default_in_place.is_some() { l.push("Default") }
            if v.eq.is_some() { l.push("PartialEq") }
            if v.is_eq() { l.push("Eq") }
            if v.partial_ord.is_some() { l.push("PartialOrd") }
            if v.ord.is_some() { l.push("Ord") }
            if v.hash.is_some() { l.push("Hash") }
            if v.display.is_some() { l.push("Display") }
            if v.parse.is_some() { l.push("FromStr") }
            if v.is_copy() { l.push("Copy") }
            println!("{}", json!([i + 1, cx.universe[i]["ty"], l]));
        },
        m => panic!("unknown mode {m}"),
    }
}
