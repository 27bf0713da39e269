//! What all replays share: the types, panics as data, progress for crashes, a watchdog for hangs.
use crate::u::TypeOps;
use facet_core::Shape;
use serde_json::Value as J;
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

pub struct Ctx {
    pub ops: Vec<TypeOps>,
    pub universe: Vec<J>,
    pub u8: usize,
    pub string: usize,
    by_ptr: RefCell<HashMap<*const Shape, usize>>,
}
impl Ctx {
    pub fn new() -> Ctx {
        let ops = crate::types::registry();
        let universe: Vec<J> = serde_json::from_str(include_str!("../universe.json")).unwrap();
        assert_eq!(ops.len(), universe.len());
        let find = |n: &str| universe.iter().position(|u| u["ty"] == n).unwrap() + 1;
        let (a, b) = (find("u8"), find("String"));
        Ctx { ops, universe, u8: a, string: b, by_ptr: Default::default() }
    }
    /// the specification's number of a shape; 0 if it is none of the universe's
    pub fn index(&self, s: &'static Shape) -> usize {
        *self.by_ptr.borrow_mut().entry(s as *const Shape).or_insert_with(|| self.ops.iter().position(|o| o.shape.id == s.id).map_or(0, |i| i + 1))
    }
    pub fn find(&self, ty: &str) -> usize { self.universe.iter().position(|u| u["ty"] == ty).unwrap_or_else(|| panic!("no type {ty}")) + 1 }
}

/// panics are observations
pub fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|p| {
        if let Some(s) = p.downcast_ref::<&str>() { format!("panic: {s}") }
        else if let Some(s) = p.downcast_ref::<String>() { format!("panic: {s}") } else { "panic".into() }
    })
}

static CASE: AtomicU64 = AtomicU64::new(0);
/// reads cases (one JSON value a line), handles each, and prints what the handler returns.
/// The number of the case at hand is kept in the progress file, for when the process dies.
pub fn each(cases: &str, progress: &str, skip: usize, mut f: impl FnMut(usize, J, &mut dyn Write)) {
    std::panic::set_hook(Box::new(|_| {}));
    let pf = std::fs::File::create(progress).unwrap();
    std::thread::spawn(|| {
        let (mut last, mut since) = (u64::MAX, std::time::Instant::now());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let c = CASE.load(SeqCst);
            if c != last { last = c; since = std::time::Instant::now(); }
            else if since.elapsed().as_secs() >= 30 { unsafe { libc_exit(78) } }
        }
    });
    let file = std::io::BufReader::new(std::fs::File::open(cases).unwrap());
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    for (i, line) in file.lines().enumerate() {
        let line = line.unwrap();
        if i < skip || line.is_empty() { continue; }
        let j: J = serde_json::from_str(&line).unwrap();
        CASE.store(i as u64 + 1, SeqCst);
        pf.write_at(format!("{:12}", i).as_bytes(), 0).unwrap();
        f(i, j, &mut out);
    }
    CASE.store(u64::MAX - 1, SeqCst);
    out.flush().unwrap();
}
unsafe extern "C" { #[link_name = "_exit"] fn libc_exit(c: i32) -> !; }
