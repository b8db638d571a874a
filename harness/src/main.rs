mod engine;
mod shape;
mod gen;
mod jref;
mod mref;
mod run;
#[cfg(any(feature = "realj", feature = "realm"))]
mod real;
mod deep;
mod p_json;
mod p_cursor;
mod p_mp;
mod p_core;
mod p_scale;
mod p_more;
mod p_api;
mod p_big;
mod p_all;
mod p_grow;
mod p_tie;
mod p_indep;

use engine::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- allocator under control
/// Per-thread allocation control: fail the n-th request from now, or measure what is requested.
pub mod mem {
    use super::*;
    thread_local! {
        pub static FAIL_IN: Cell<u64> = const { Cell::new(0) };
        pub static REQS: Cell<u64> = const { Cell::new(0) };
        pub static BYTES: Cell<u64> = const { Cell::new(0) };
        pub static BIGGEST: Cell<u64> = const { Cell::new(0) };
    }
    fn req(n: usize) -> bool {
        REQS.with(|c| c.set(c.get() + 1));
        BYTES.with(|c| c.set(c.get() + n as u64));
        BIGGEST.with(|c| if n as u64 > c.get() { c.set(n as u64) });
        FAIL_IN.with(|c| { let k = c.get(); if k > 0 { c.set(k - 1); k == 1 } else { false } })
    }
    pub struct A;
    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { if req(l.size()) { return std::ptr::null_mut() } System.alloc(l) }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { if req(l.size()) { return std::ptr::null_mut() } System.alloc_zeroed(l) }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { if req(n) { return std::ptr::null_mut() } System.realloc(p, l, n) }
    }
    /// allocation requests made by `f`: (count, total bytes, biggest)
    #[allow(dead_code)]
    pub fn measure<T>(f: impl FnOnce() -> T) -> (T, u64, u64, u64) {
        let (a, b) = (REQS.with(|c| c.get()), BYTES.with(|c| c.get()));
        BIGGEST.with(|c| c.set(0));
        let r = f();
        (r, REQS.with(|c| c.get()) - a, BYTES.with(|c| c.get()) - b, BIGGEST.with(|c| c.get()))
    }
    /// run `f` with the k-th (1-based) allocation request failing; tells whether it was reached
    #[allow(dead_code)]
    pub fn failing<T>(k: u64, f: impl FnOnce() -> T) -> (T, bool) {
        FAIL_IN.with(|c| c.set(k));
        let r = f();
        let left = FAIL_IN.with(|c| c.replace(0));
        (r, left == 0)
    }
}
#[global_allocator]
static ALLOC: mem::A = mem::A;

fn spaces(prop: &str, t: bool) -> Vec<Space> {
    let mut v = match &prop[..1] {
        "J" => p_json::spaces(prop, t),
        "M" => p_mp::spaces(prop, t),
        _ => p_core::spaces(prop, t),
    };
    v.extend(p_scale::extra(prop, t));
    v.extend(p_more::spaces(prop, t));
    v.extend(p_api::spaces(prop, t));
    v.extend(p_big::extra(prop, t));
    v.extend(p_all::extra(prop, t));
    v.extend(p_grow::extra(prop, t));
    v.extend(p_tie::extra(prop, t));
    v.extend(p_indep::extra(prop, t));
    v
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}
/// messages about big documents are cut in the middle
fn cut(m: &str) -> String { let c: Vec<char> = m.chars().collect(); if c.len() <= 3000 { m.into() } else { c[..1800].iter().chain(" ... ".chars().collect::<Vec<_>>().iter()).chain(&c[c.len() - 1000..]).collect() } }
fn list(x: &[u32]) -> String { format!("[{}]", x.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(",")) }

fn main() {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let prop = opt("--prop").unwrap_or_default();
    let thorough = opt("--tier").as_deref() == Some("thorough");
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            if let Some(p) = opt("--slots") { open_slots(&p) }
            let known: Vec<String> = opt("--known").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
            let threads: usize = opt("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
            let deadline = opt("--deadline").and_then(|s| s.parse::<f64>().ok()).map(|s| Instant::now() + Duration::from_secs_f64(s));
            let only = opt("--space");
            println!("[");
            for (i, sp) in spaces(&prop, thorough).iter().enumerate() {
                if let Some(o) = &only { if *o != sp.name { continue } }
                let r = explore(sp, i, threads, thorough, &known, deadline);
                let outs = r.st.outcomes.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect::<Vec<_>>().join(",");
                let kn = r.st.known.iter().map(|(k, v)| format!("{}:[{},{}]", esc(k), v.0, esc(&v.1))).collect::<Vec<_>>().join(",");
                let sam = r.st.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",");
                let found = r.found.as_ref().map_or("null".into(), |f| format!("{{\"key\":{},\"msg\":{},\"choices\":{}}}", esc(&f.bad.key), esc(&cut(&f.bad.msg)), list(&f.choices)));
                println!("{{\"space\":{},\"index\":{i},\"bound\":{},\"runs\":{},\"execs\":{},\"states\":{},\"transitions\":{},\"maxdepth\":{},\"capped\":{},\"complete\":{},\"secs\":{:.3},\"outcomes\":{{{outs}}},\"known\":{{{kn}}},\"samples\":[{sam}],\"found\":{found},\"internal\":{}}},",
                    esc(&sp.name), esc(&sp.bound), r.st.runs, r.st.execs, r.st.states.len() as u64 + r.st.bulk_states, r.st.transitions, r.st.maxdepth, r.st.capped_states, r.complete, r.secs,
                    r.internal.as_ref().map_or("null".into(), |s| esc(s)));
                if r.found.is_some() || r.internal.is_some() || !r.complete { break }
            }
            println!("null]");
        }
        Some("replay") => {
            let sp = spaces(&prop, thorough);
            let i: usize = opt("--space").unwrap().parse().unwrap();
            let ch: Vec<u32> = opt("--choices").unwrap().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            match replay(&sp[i], &ch, thorough) {
                Ok(None) => println!("{{\"ok\":true}}"),
                Ok(Some(b)) => println!("{{\"ok\":false,\"key\":{},\"msg\":{}}}", esc(&b.key), esc(&cut(&b.msg))),
                Err(m) => println!("{{\"internal\":{}}}", esc(&m)),
            }
        }
        // one deep-nesting case, alone in its process
        Some("deep") => deep::deep(&opt("--case").unwrap()),
        Some("digest") => p_core::digest_main(thorough, opt("--bucket"), opt("--tier").as_deref() == Some("huge")),
        _ => { eprintln!("usage: run|replay|deep|digest"); std::process::exit(2) }
    }
}
