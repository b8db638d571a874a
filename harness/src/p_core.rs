//! Sinks (W01-W03), failing writers (S01), configuration equivalence (X01).
use crate::engine::*;
use crate::gen::*;
use crate::jref::{show, Dec, Enc, DECS, ENCS};
use crate::mref::{hex, FLS};
use crate::p_json::cat;
use crate::run::*;
use crate::shape::*;
use crate::{ensure, fail};
use ser_write::{SerError, SerWrite, SliceWriter};
use std::sync::Arc;

pub fn spaces(prop: &str, t: bool) -> Vec<Space> {
    match prop { "W01" => w01(t), "W02" => w02(t), "W03" => w03(t), "S01" => s01(t), _ => vec![] }
}

// ------------------------------------------------------------------ W01
#[derive(Clone, Debug, Hash)]
pub enum Op { Write(Vec<u8>), Byte(u8), Str(&'static str) }
impl Op {
    fn data(&self) -> Vec<u8> { match self { Op::Write(b) => b.clone(), Op::Byte(b) => vec![*b], Op::Str(s) => s.as_bytes().to_vec() } }
}
fn do_op<W: SerWrite>(mut w: W, o: &Op) -> Result<(), W::Error> {
    match o { Op::Write(b) => w.write(b), Op::Byte(b) => w.write_byte(*b), Op::Str(s) => w.write_str(s) }
}
/// directly, through `&mut` and through `&mut &mut`
fn apply<W: SerWrite + ?Sized>(w: &mut W, o: &Op, via: usize) -> Result<(), W::Error> {
    match via {
        0 => match o { Op::Write(b) => w.write(b), Op::Byte(b) => w.write_byte(*b), Op::Str(s) => w.write_str(s) },
        _ => apply_ref(w, o, via),
    }
}
fn apply_ref<W: SerWrite + ?Sized>(w: &mut W, o: &Op, via: usize) -> Result<(), W::Error> {
    struct Fwd<'a, W: SerWrite + ?Sized>(&'a mut W);
    impl<W: SerWrite + ?Sized> SerWrite for Fwd<'_, W> {
        type Error = W::Error;
        fn write(&mut self, b: &[u8]) -> Result<(), W::Error> { self.0.write(b) }
        fn write_byte(&mut self, b: u8) -> Result<(), W::Error> { self.0.write_byte(b) }
        fn write_str(&mut self, s: &str) -> Result<(), W::Error> { self.0.write_str(s) }
    }
    let mut f = Fwd(w);
    if via == 1 { do_op(&mut f, o) } else { do_op(&mut &mut f, o) }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Cap { Grow, Fixed(usize), /** std::io::Cursor: a refused write may leave a prefix */ Io(usize) }
/// Run a history on a fresh sink; `make` gives the sink to the continuation.
struct Hist<'a> { ops: &'a [(Op, usize)], cap: Cap, name: &'a str, start: Vec<u8> }
impl Hist<'_> {
    fn run<W: SerWrite + ?Sized>(&self, w: &mut W, content: &dyn Fn(&W) -> Vec<u8>) -> R where W::Error: std::fmt::Debug {
        let mut model = self.start.clone();
        ensure!(content(w) == model, "{}: initial content {:?}, want {:?}", self.name, content(w), model);
        for (k, (o, via)) in self.ops.iter().enumerate() {
            let r = imp(|| apply(w, o, *via))?;
            let d = o.data();
            let fits = match self.cap { Cap::Grow => true, Cap::Fixed(n) | Cap::Io(n) => model.len() + d.len() <= n };
            let before = model.clone();
            let cx = || format!("{}: operation {k} of {:?} (content before: {before:02x?})", self.name, self.ops);
            match r {
                Ok(()) => { ensure!(fits, "{} accepted beyond its capacity", cx()); model.extend(d); ensure!(content(w) == model, "{}: content is {:02x?}, want {model:02x?}", cx(), content(w)); }
                Err(e) => {
                    ensure!(!fits, "{} refused with {e:?} although it fits", cx());
                    ensure!(kind(&e) == "BufferFull", "{} refused with {e:?}, want BufferFull", cx());
                    let now = content(w);
                    if let Cap::Io(_) = self.cap {
                        ensure!(now.len() >= model.len() && now[..model.len()] == model[..] && d.starts_with(&now[model.len()..]), "{}: a refused write left {now:02x?}", cx());
                        model = now;
                    } else { ensure!(now == model, "{}: a refused write left {now:02x?}", cx()); }
                }
            }
        }
        Ok(())
    }
}
fn ops_alphabet(t: bool) -> Vec<(Op, usize)> {
    let mut v = vec![];
    for via in 0..if t { 3 } else { 2 } {
        for n in [0, 1, 2, 3, 4, 7] { v.push((Op::Write(vec![0; n]), via)) }
        v.push((Op::Byte(0), via));
        for s in ["", "a", "é", "😀", "x\u{0}y"] { v.push((Op::Str(s), via)) }
    }
    v
}
/// make the k-th operation's data recognisable
fn stamp(ops: &mut [(Op, usize)]) {
    let mut n = 1u8;
    for (o, _) in ops { match o { Op::Write(b) => for x in b { *x = n; n = n.wrapping_mul(3).wrapping_add(1) }, Op::Byte(b) => { *b = n; n = n.wrapping_mul(3).wrapping_add(1) } _ => {} } }
}
type SinkRun = Box<dyn Fn(&[(Op, usize)]) -> R + Send + Sync>;
fn sinks() -> Vec<(String, SinkRun)> {
    let mut v: Vec<(String, SinkRun)> = vec![];
    for cap in 0..=9usize {
        v.push((format!("SliceWriter[{cap}]"), Box::new(move |ops| {
            let mut g = Guard::new(&vec![0xee; cap]);
            { let mut w = SliceWriter::new(g.doc()); Hist { ops, cap: Cap::Fixed(cap), name: &format!("SliceWriter[{cap}]"), start: vec![] }.run(&mut w, &|w| w.as_ref().to_vec())?; }
            g.check()
        })));
    }
    #[cfg(feature = "heap")]
    {
        use std::collections::VecDeque;
        for pre in [0usize, 1, 3] {
            v.push((format!("Vec with {pre} bytes"), Box::new(move |ops| {
                let mut w: Vec<u8> = (0..pre as u8).collect();
                Hist { ops, cap: Cap::Grow, name: "Vec", start: w.clone() }.run(&mut w, &|w| w.clone())
            })));
            for cap in [0usize, 4, 8] { for rot in [0usize, 2, 3] {
                v.push((format!("VecDeque({cap}) rotated {rot} with {pre} bytes"), Box::new(move |ops| {
                    let mut w: VecDeque<u8> = VecDeque::with_capacity(cap);
                    for _ in 0..rot { w.push_back(9) }
                    for i in 0..pre { w.push_back(i as u8) }
                    for _ in 0..rot { w.pop_front(); }
                    Hist { ops, cap: Cap::Grow, name: "VecDeque", start: w.iter().copied().collect() }.run(&mut w, &|w| w.iter().copied().collect())
                })));
            } }
        }
    }
    #[cfg(feature = "std")]
    {
        use std::io::Cursor;
        for cap in 0..=6usize {
            v.push((format!("io::Cursor<&mut [u8]>[{cap}]"), Box::new(move |ops| {
                let mut g = Guard::new(&vec![0xee; cap]);
                { let mut w = Cursor::new(g.doc()); Hist { ops, cap: Cap::Io(cap), name: "Cursor<&mut [u8]>", start: vec![] }.run(&mut w, &|w| w.get_ref()[..w.position() as usize].to_vec())?; }
                g.check()
            })));
            v.push((format!("io::Cursor<Box<[u8]>>[{cap}]"), Box::new(move |ops| {
                let mut w = Cursor::new(vec![0xeeu8; cap].into_boxed_slice());
                Hist { ops, cap: Cap::Io(cap), name: "Cursor<Box<[u8]>>", start: vec![] }.run(&mut w, &|w| w.get_ref()[..w.position() as usize].to_vec())
            })));
        }
        v.push(("io::Cursor<[u8; 5]>".into(), Box::new(move |ops| {
            let mut w = Cursor::new([0xeeu8; 5]);
            Hist { ops, cap: Cap::Io(5), name: "Cursor<[u8; 5]>", start: vec![] }.run(&mut w, &|w| w.get_ref()[..w.position() as usize].to_vec())
        })));
        v.push(("io::Cursor<Vec<u8>>".into(), Box::new(move |ops| {
            let mut w = Cursor::new(Vec::new());
            Hist { ops, cap: Cap::Grow, name: "Cursor<Vec>", start: vec![] }.run(&mut w, &|w| w.get_ref()[..w.position() as usize].to_vec())
        })));
        v.push(("io::Cursor<&mut Vec<u8>> in the middle".into(), Box::new(move |ops| {
            let mut x = vec![0u8; 4];
            let mut w = Cursor::new(&mut x);
            w.set_position(2);
            Hist { ops, cap: Cap::Grow, name: "Cursor<&mut Vec>", start: vec![0, 0] }.run(&mut w, &|w| w.get_ref()[..w.position() as usize].to_vec())
        })));
    }
    #[cfg(feature = "foreign")]
    {
        macro_rules! fixed { ($($n:literal)*) => { $(
            for pre in [0usize, 1] { if pre <= $n {
                v.push((format!("arrayvec::ArrayVec<{}> with {pre}", $n), Box::new(move |ops| {
                    let mut w: arrayvec::ArrayVec<u8, $n> = (0..pre as u8).collect();
                    Hist { ops, cap: Cap::Fixed($n), name: concat!("arrayvec::ArrayVec<u8, ", $n, ">"), start: w.to_vec() }.run(&mut w, &|w| w.to_vec())
                })));
                v.push((format!("heapless::Vec<{}> with {pre}", $n), Box::new(move |ops| {
                    let mut w: heapless::Vec<u8, $n> = (0..pre as u8).collect();
                    let s = w.to_vec();
                    Hist { ops, cap: Cap::Fixed($n), name: concat!("heapless::Vec<u8, ", $n, ">"), start: s }.run(&mut w, &|w| w.to_vec())
                })));
                v.push((format!("heapless::Vec<{}, u8> view with {pre}", $n), Box::new(move |ops| {
                    let mut w: heapless::Vec<u8, $n, u8> = (0..pre as u8).collect();
                    let s = w.to_vec();
                    let w: &mut heapless::VecView<u8, u8> = w.as_mut_view();
                    Hist { ops, cap: Cap::Fixed($n), name: concat!("heapless::VecView of ", $n), start: s }.run(w, &|w| w.to_vec())
                })));
                v.push((format!("heapless::Vec<{}> view with {pre}", $n), Box::new(move |ops| {
                    let mut w: heapless::Vec<u8, $n> = (0..pre as u8).collect();
                    let s = w.to_vec();
                    let w: &mut heapless::VecView<u8> = w.as_mut_view();
                    Hist { ops, cap: Cap::Fixed($n), name: concat!("heapless::VecView of ", $n), start: s }.run(w, &|w| w.to_vec())
                })));
                v.push((format!("tinyvec::ArrayVec<{}> with {pre}", $n), Box::new(move |ops| {
                    let mut w: tinyvec::ArrayVec<[u8; $n]> = (0..pre as u8).collect();
                    let s = w.to_vec();
                    Hist { ops, cap: Cap::Fixed($n), name: concat!("tinyvec::ArrayVec<[u8; ", $n, "]>"), start: s }.run(&mut w, &|w| w.to_vec())
                })));
                v.push((format!("tinyvec::SliceVec[{}] with {pre}", $n), Box::new(move |ops| {
                    let mut g = Guard::new(&[0; $n]);
                    { let mut w = tinyvec::SliceVec::from_slice_len(g.doc(), pre);
                      Hist { ops, cap: Cap::Fixed($n), name: concat!("tinyvec::SliceVec[", $n, "]"), start: vec![0; pre] }.run(&mut w, &|w| w.to_vec())?; }
                    g.check()
                })));
                v.push((format!("tinyvec::TinyVec<{}> with {pre}", $n), Box::new(move |ops| {
                    let mut w: tinyvec::TinyVec<[u8; $n]> = (0..pre as u8).collect();
                    let s = w.to_vec();
                    Hist { ops, cap: Cap::Grow, name: concat!("tinyvec::TinyVec<[u8; ", $n, "]>"), start: s }.run(&mut w, &|w| w.to_vec())
                })));
                v.push((format!("smallvec::SmallVec<{}> with {pre}", $n), Box::new(move |ops| {
                    let mut w: smallvec::SmallVec<[u8; $n]> = (0..pre as u8).collect();
                    let s = w.to_vec();
                    Hist { ops, cap: Cap::Grow, name: concat!("smallvec::SmallVec<[u8; ", $n, "]>"), start: s }.run(&mut w, &|w| w.to_vec())
                })));
            } }
        )* } }
        fixed!(0 1 2 3 4 5 6 8);
    }
    v
}
fn w01(t: bool) -> Vec<Space> {
    let ss = Arc::new(sinks());
    let s2 = ss.clone();
    let al = Arc::new(ops_alphabet(t));
    let a2 = al.clone();
    let d = if t { 4 } else { 3 };
    let mut v = vec![
        space("histories", format!("every history of up to {d} of {} operations (slices, bytes, strings; direct, by reference) on {} sinks of every capacity", al.len(), ss.len()), move |c| {
            let k = c.choose(ss.len());
            let n = c.num(1, d);
            let mut ops: Vec<(Op, usize)> = (0..n).map(|_| al[c.choose(al.len())].clone()).collect();
            stamp(&mut ops);
            c.state(&(k, &ops)); c.sample(|| format!("{}: {ops:?}", ss[k].0));
            (ss[k].1)(&ops)
        }),
        space("fill-up", "single-byte filling of every sink past every capacity, with one slice or string in the middle", move |c| {
            let k = c.choose(s2.len());
            let n = c.num(0, 12);
            let at = c.num(0, n);
            let mid = a2[c.choose(a2.len())].clone();
            let mut ops: Vec<(Op, usize)> = vec![];
            for i in 0..n { if i == at { ops.push(mid.clone()) } ops.push((Op::Byte(0), 0)) }
            ops.push(mid);
            stamp(&mut ops);
            c.state(&(k, &ops));
            (s2[k].1)(&ops)
        }),
    ];
    v.push(space("sizes", "slice writers of every capacity 0..=40 and around powers of two up to 1024, vectors, deques of every rotation: every filling, then one write of every size (slice or string), then one byte", |c| {
        const TXT: &str = "0123456789abcdefghijklmnopqrstuvwxyz+-*/=!?()[]{}<>,.:;#%&@0123456789abcdefghijklmnopqrstuvwxyz+-*/=!?()[]{}<>,.:;#%&@0123456789abcdefghijklmnopqrstuvwxyz";
        let big = [63usize, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025];
        let kind = c.choose(if cfg!(feature = "heap") { 4 } else { 2 });
        let (cap, n1, n2, rot);
        match kind {
            1 => { // selected sizes near the limits
                cap = big[c.choose(big.len())]; rot = 0;
                n1 = [0, 1, 7, 8, 31, 32, 33, 63, 64, cap / 2, cap - 1, cap][c.choose(12)].min(cap);
                let rem = cap - n1;
                n2 = [0, 1, 8, 15, 16, 17, 31, 32, 33, 64, 128, 255, 256, 257, rem.saturating_sub(1), rem, rem + 1, rem + 2][c.choose(18)];
            }
            0 => { cap = c.num(0, 40); n1 = c.num(0, cap); n2 = c.num(0, cap - n1 + 2); rot = 0 }
            2 => { cap = *c.pick(&[0, 1, 5, 16, 64, 300]); n1 = c.num(0, 70); n2 = c.num(0, 140); rot = 0 }
            _ => { cap = *c.pick(&[1, 2, 3, 4, 7, 8, 15, 16, 32]); rot = c.num(0, cap); n1 = c.num(0, cap + 2); n2 = c.num(0, 2 * cap + 3) }
        }
        let mut ops = vec![(Op::Write(vec![0; n1]), 0), if n2 % 3 == 1 && n2 < TXT.len() { (Op::Str(&TXT[..n2]), 0) } else { (Op::Write(vec![0; n2]), 0) }, (Op::Byte(0), 0)];
        stamp(&mut ops);
        c.state(&(kind, cap, rot, n1, n2)); c.sample(|| format!("kind {kind} capacity {cap} rotated {rot}: {n1} then {n2} bytes"));
        match kind {
            0 | 1 => {
                let mut g = Guard::new(&vec![0xee; cap]);
                { let mut w = SliceWriter::new(g.doc()); Hist { ops: &ops, cap: Cap::Fixed(cap), name: &format!("SliceWriter[{cap}]"), start: vec![] }.run(&mut w, &|w| w.as_ref().to_vec())?; }
                g.check()
            }
            #[cfg(feature = "heap")]
            2 => { let mut w: Vec<u8> = Vec::with_capacity(cap); Hist { ops: &ops, cap: Cap::Grow, name: "Vec", start: vec![] }.run(&mut w, &|w| w.clone()) }
            #[cfg(feature = "heap")]
            _ => {
                let mut w: std::collections::VecDeque<u8> = std::collections::VecDeque::with_capacity(cap);
                for _ in 0..rot { w.push_back(9) }
                if rot > 0 { w.drain(..rot - 1); }
                Hist { ops: &ops, cap: Cap::Grow, name: "VecDeque", start: vec![9; (rot > 0) as usize] }.run(&mut w, &|w| w.iter().copied().collect())
            }
            #[cfg(not(feature = "heap"))]
            _ => unreachable!(),
        }
    }));
    #[cfg(feature = "foreign")]
    {
        // long writes: length fields narrower than usize, spilling, big requests
        v.push(space("long", "one to three writes of 0..=600 bytes on the large sinks", |c| {
            let which = c.choose(6);
            let a = [0usize, 1, 127, 128, 254, 255, 256, 257, 299, 300, 301, 600];
            let n = c.num(1, 3);
            let mut ops: Vec<(Op, usize)> = (0..n).map(|_| (Op::Write(vec![0; a[c.choose(a.len())]]), 0)).collect();
            stamp(&mut ops);
            c.state(&(which, &ops));
            match which {
                0 => { let mut w: heapless::Vec<u8, 255, u8> = heapless::Vec::new(); Hist { ops: &ops, cap: Cap::Fixed(255), name: "heapless::Vec<u8, 255, u8>", start: vec![] }.run(&mut w, &|w| w.to_vec()) }
                1 => { let mut w: heapless::Vec<u8, 300, u16> = heapless::Vec::new(); Hist { ops: &ops, cap: Cap::Fixed(300), name: "heapless::Vec<u8, 300, u16>", start: vec![] }.run(w.as_mut_view(), &|w: &heapless::VecView<u8, u16>| w.to_vec()) }
                2 => { let mut w: smallvec::SmallVec<[u8; 256]> = smallvec::SmallVec::new(); Hist { ops: &ops, cap: Cap::Grow, name: "SmallVec<256>", start: vec![] }.run(&mut w, &|w| w.to_vec()) }
                3 => { let mut w: tinyvec::ArrayVec<[u8; 256]> = tinyvec::ArrayVec::new(); Hist { ops: &ops, cap: Cap::Fixed(256), name: "tinyvec::ArrayVec<256>", start: vec![] }.run(&mut w, &|w| w.to_vec()) }
                4 => { let mut w: arrayvec::ArrayVec<u8, 300> = arrayvec::ArrayVec::new(); Hist { ops: &ops, cap: Cap::Fixed(300), name: "arrayvec::ArrayVec<300>", start: vec![] }.run(&mut w, &|w| w.to_vec()) }
                _ => { let mut w: tinyvec::TinyVec<[u8; 256]> = tinyvec::TinyVec::new(); Hist { ops: &ops, cap: Cap::Grow, name: "TinyVec<256>", start: vec![] }.run(&mut w, &|w| w.to_vec()) }
            }
        }));
    }
    let _ = &mut v;
    v
}

// ------------------------------------------------------------------ W02
#[cfg(not(feature = "foreign"))]
fn w02(_t: bool) -> Vec<Space> { vec![] }
#[cfg(feature = "foreign")]
fn w02(t: bool) -> Vec<Space> {
    use std::collections::VecDeque;
    /// history, index of the refused operation, which of its allocations is refused
    fn hist<W: SerWrite<Error = SerError>>(c: &mut Ctx, name: &str, w: &mut W, ops: &[Op], at: usize, k: u64, content: &dyn Fn(&W) -> Vec<u8>, start: Vec<u8>) -> R {
        let mut model = start;
        for (i, o) in ops.iter().enumerate() {
            let cx = || format!("{name}: operation {i} of {ops:?} with allocation {k} of operation {at} failing");
            let (r, hit) = if i == at { crate::mem::failing(k, || imp(|| apply(w, o, 0))) } else { (imp(|| apply(w, o, 0)), false) };
            let r = r.map_err(|b| Bad { msg: format!("{} in {}", b.msg, cx()), key: b.key })?;
            if i == at { c.outcome(if hit { "fault reached" } else { "no allocation" }) }
            match r {
                Ok(()) => model.extend(o.data()),
                Err(e) => {
                    ensure!(hit, "{} failed with {e:?} without an allocation failure", cx());
                    ensure!(e == SerError::BufferFull, "{} failed with {e:?}", cx());
                    ensure!(content(w) == model, "{} changed the content to {:02x?}, want {model:02x?}", cx(), content(w));
                    // memory is back: the same write succeeds
                    let r2 = imp(|| apply(w, o, 0))?;
                    ensure!(r2.is_ok(), "{}: retry failed with {r2:?}", cx());
                    model.extend(o.data());
                }
            }
            ensure!(content(w) == model, "{}: content {:02x?}, want {model:02x?}", cx(), content(w));
        }
        Ok(())
    }
    let sizes: &'static [usize] = if t { &[0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 64, 100] } else { &[0, 1, 2, 4, 5, 8, 9, 17, 40] };
    let shapes = cat(false);
    vec![
        space("histories", "every history of up to 4 writes (slice, byte, string; 9 sizes) on 17 growable sinks, each allocation of each write refused in turn", move |c| {
            let which = c.choose(17);
            let n = c.num(1, if t { 4 } else { 3 });
            let mut ops: Vec<(Op, usize)> = (0..n).map(|_| { let k = c.choose(sizes.len() + 3); (if k < sizes.len() { Op::Write(vec![0; sizes[k]]) } else if k == sizes.len() { Op::Byte(0) } else { Op::Str(["é", "hello world, hello"][k - sizes.len() - 1]) }, 0) }).collect();
            stamp(&mut ops);
            let ops: Vec<Op> = ops.into_iter().map(|o| o.0).collect();
            let at = c.choose(n);
            let k = 1 + c.choose(2) as u64;
            c.state(&(which, &ops, at, k)); c.sample(|| format!("sink {which} {ops:?} at {at} allocation {k}"));
            macro_rules! small { ($n:literal) => {{ let mut w: smallvec::SmallVec<[u8; $n]> = smallvec::SmallVec::new(); hist(c, concat!("SmallVec<", $n, ">"), &mut w, &ops, at, k, &|w| w.to_vec(), vec![]) }} }
            macro_rules! tiny { ($n:literal) => {{ let mut w: tinyvec::TinyVec<[u8; $n]> = tinyvec::TinyVec::new(); hist(c, concat!("TinyVec<", $n, ">"), &mut w, &ops, at, k, &|w| w.to_vec(), vec![]) }} }
            match which {
                0 => { let mut w: Vec<u8> = vec![]; hist(c, "Vec", &mut w, &ops, at, k, &|w| w.clone(), vec![]) }
                1 => { let mut w: Vec<u8> = vec![5; 3]; w.shrink_to_fit(); hist(c, "Vec of 3", &mut w, &ops, at, k, &|w| w.clone(), vec![5; 3]) }
                2 => { let mut w: Vec<u8> = Vec::with_capacity(8); hist(c, "Vec(8)", &mut w, &ops, at, k, &|w| w.clone(), vec![]) }
                3 => { let mut w: VecDeque<u8> = VecDeque::new(); hist(c, "VecDeque", &mut w, &ops, at, k, &|w| w.iter().copied().collect(), vec![]) }
                4 => { let mut w: VecDeque<u8> = VecDeque::with_capacity(4); for _ in 0..4 { w.push_back(1) } w.drain(..2); w.push_back(2); hist(c, "VecDeque wrapped", &mut w, &ops, at, k, &|w| w.iter().copied().collect(), vec![1, 1, 2]) }
                5 => { let mut w: VecDeque<u8> = VecDeque::with_capacity(8); for _ in 0..7 { w.push_back(1) } w.drain(..6); hist(c, "VecDeque rotated", &mut w, &ops, at, k, &|w| w.iter().copied().collect(), vec![1]) }
                6 => small!(0), 7 => small!(1), 8 => small!(4), 9 => small!(8), 10 => small!(16),
                11 => tiny!(0), 12 => tiny!(1), 13 => tiny!(4), 14 => tiny!(8), 15 => tiny!(16),
                _ => { let mut w: tinyvec::TinyVec<[u8; 4]> = tinyvec::TinyVec::Heap(vec![7; 2]); hist(c, "TinyVec on the heap", &mut w, &ops, at, k, &|w| w.to_vec(), vec![7; 2]) }
            }
        }),
        space("serializers", "every catalog value serialized into Vec, VecDeque, SmallVec, TinyVec and by the string/vector functions, every allocation refused in turn", move |c| {
            use ser_write_json as js;
            use ser_write_msgpack as mp;
            let i = c.choose(shapes.len());
            let v = gen(c, shapes[i], 0, 1);
            let m = c.choose(13);
            // the text of a display value is formatted into a temporary, which is not a sink
            if matches!(m, 4..=6 | 10..=12) && has(shapes[i], &|s| matches!(s, Sh::Disp)) { return Ok(()) }
            let x = SV(shapes[i], &v);
            let sink = if m < 8 { c.choose(4) } else { 0 };
            c.state(&(i, &v, m, sink));
            // Ok(bytes) or Err(kind), computed without allocating on the failure path
            fn js_kind<E>(e: js::ser::Error<E>) -> &'static str { match e { js::ser::Error::Writer(_) => "Writer", js::ser::Error::InvalidKeyType => "InvalidKeyType", js::ser::Error::Utf8Encode => "Utf8Encode", js::ser::Error::FormatError => "FormatError", _ => "Other" } }
            fn mp_kind<E>(e: mp::ser::Error<E>) -> &'static str { match e { mp::ser::Error::Writer(_) => "Writer", mp::ser::Error::FormatError => "FormatError", _ => "Other" } }
            fn jrun<W: SerWrite<Error = SerError>>(m: usize, x: &SV, w: &mut W) -> Result<(), &'static str> { jser_to(ENCS[m], w, x).map_err(js_kind) }
            fn mrun<W: SerWrite<Error = SerError>>(m: usize, x: &SV, w: &mut W) -> Result<(), &'static str> { mser_to(FLS[m], w, x).map_err(mp_kind) }
            let run = || -> Result<Vec<u8>, &'static str> {
                match m {
                    0..=3 => { let f = (m, &x); macro_rules! j { ($w:expr) => { jrun(f.0, f.1, $w) } } match sink { 0 => { let mut w: Vec<u8> = vec![]; j!(&mut w).map(|_| w) } 1 => { let mut w: VecDeque<u8> = VecDeque::new(); j!(&mut w).map(|_| w.into()) } 2 => { let mut w: smallvec::SmallVec<[u8; 2]> = smallvec::SmallVec::new(); j!(&mut w).map(|_| stash(&w)) } _ => { let mut w: tinyvec::TinyVec<[u8; 2]> = tinyvec::TinyVec::new(); j!(&mut w).map(|_| stash(&w)) } } }
                    4..=6 => { let f = (m - 4, &x); macro_rules! j { ($w:expr) => { mrun(f.0, f.1, $w) } } match sink { 0 => { let mut w: Vec<u8> = vec![]; j!(&mut w).map(|_| w) } 1 => { let mut w: VecDeque<u8> = VecDeque::new(); j!(&mut w).map(|_| w.into()) } 2 => { let mut w: smallvec::SmallVec<[u8; 2]> = smallvec::SmallVec::new(); j!(&mut w).map(|_| stash(&w)) } _ => { let mut w: tinyvec::TinyVec<[u8; 2]> = tinyvec::TinyVec::new(); j!(&mut w).map(|_| stash(&w)) } } }
                    7 => js::to_string(&x).map(String::into_bytes).map_err(js_kind),
                    8 => js::to_string_hex_bytes(&x).map(String::into_bytes).map_err(js_kind),
                    9 => js::to_string_base64_bytes(&x).map(String::into_bytes).map_err(js_kind),
                    10 => mp::to_vec(&x).map_err(mp_kind),
                    11 => mp::to_vec_compact(&x).map_err(mp_kind),
                    _ => mp::to_vec_named(&x).map_err(mp_kind),
                }
            };
            let whole = imp(&run)?;
            if whole.is_err() { return Ok(()) }
            for k in 1.. {
                STASH_ALLOC.with(|s| s.set(0));
                let (r, hit) = crate::mem::failing(k, || imp(&run));
                let r = r.map_err(|b| Bad { msg: format!("{} serializing {v:?} as {:?} (method {m}, sink {sink}) with allocation {k} failing", b.msg, shapes[i]), key: b.key })?;
                if !hit { ensure!(r == whole, "serialization differs without a fault"); break }
                // our own copy of the finished output is not under test
                if STASH_ALLOC.with(|s| s.get()) != 0 { break }
                c.outcome("fault reached");
                let disp = has(shapes[i], &|s| matches!(s, Sh::Disp));
                ensure!(matches!(r, Err("Writer")) || disp && matches!(r, Err("FormatError")), "allocation {k} failing while serializing {v:?} as {:?} (method {m}, sink {sink}) gives {r:?}", shapes[i]);
                ensure!(k < 10_000, "no end of allocations");
            }
            Ok(())
        }),
    ]
}
#[cfg(feature = "foreign")]
thread_local! { static STASH_ALLOC: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
/// copy of a finished output; fault injection is over
#[cfg(feature = "foreign")]
fn stash(b: &[u8]) -> Vec<u8> {
    let left = crate::mem::FAIL_IN.with(|c| c.replace(0));
    let v = b.to_vec();
    crate::mem::FAIL_IN.with(|c| c.set(left));
    v
}

// ------------------------------------------------------------------ W03
fn w03(t: bool) -> Vec<Space> {
    let d = if t { 7 } else { 5 };
    vec![space("sizes", "slices of 0..=40 bytes (and around 64, 128, 256, 1024): a write of every size, then split (either half kept), clear or nothing, then a write of every size, another split or clear, and filling to the end", |c| {
        let big = [63usize, 64, 65, 127, 128, 129, 255, 256, 257, 1024];
        let k = c.choose(41 + big.len());
        let cap = if k <= 40 { k } else { big[k - 41] };
        let size = |c: &mut Ctx, rem: usize| if cap <= 40 { c.num(0, rem + 1) } else { [0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, rem / 2, rem.saturating_sub(1), rem, rem + 1][c.choose(18)] };
        let mut g = Guard::new(&vec![0xEE; cap]);
        let base = g.doc().as_ptr() as usize;
        let mut model = vec![0xEEu8; cap];
        let (mut at, mut len, mut end) = (0usize, 0usize, cap);
        let mut hist = vec![];
        let mut next = 1u8;
        {
            let mut w = SliceWriter::new(g.doc());
            for round in 0..3 {
                let n = if round == 2 { end - at - len } else { size(c, end - at - len) };
                let data: Vec<u8> = (0..n).map(|i| next.wrapping_add((i % 64) as u8)).collect();
                next = next.wrapping_add(64);
                let fits = n <= end - at - len;
                let r = imp(|| SerWrite::write(&mut w, &data))?;
                hist.push(n);
                ensure!(r.is_ok() == fits, "SliceWriter over {cap} bytes: last write of {hist:?} gives {r:?}, want fits={fits}");
                if fits { model[at + len..at + len + n].copy_from_slice(&data); len += n }
                let op = if round == 2 { 0 } else { c.choose(4) };
                hist.push(1000 + op);
                match op {
                    0 => {}
                    1 => { imp(|| w.clear())?; len = 0 }
                    _ => {
                        let (head, tail) = imp(|| w.split())?;
                        ensure!(head.as_ptr() as usize == base + at && head == &model[at..at + len], "SliceWriter over {cap} bytes after {hist:?}: split gives {head:02x?}, want {:02x?}", &model[at..at + len]);
                        ensure!(tail.len == 0 && tail.buf[..] == model[at + len..end] && (tail.buf.is_empty() || tail.buf.as_ptr() as usize == base + at + len), "SliceWriter over {cap} bytes after {hist:?}: split leaves {} bytes, want {}", tail.buf.len(), end - at - len);
                        if op == 2 { at += len; w = tail } else { end = at + head.len(); w = SliceWriter::new(head) }
                        len = 0;
                    }
                }
                let (l, e, cp, rc) = imp(|| (w.len(), w.is_empty(), w.capacity(), w.rem_capacity()))?;
                ensure!(l == len && e == (len == 0) && cp == end - at && rc == end - at - len, "SliceWriter over {cap} bytes after {hist:?}: len {l} empty {e} capacity {cp} remaining {rc}, want {len} {} {}", end - at, end - at - len);
                ensure!(w.as_ref() == &model[at..at + len] && w.buf[..] == model[at..end], "SliceWriter over {cap} bytes after {hist:?}: content {:02x?}, want {:02x?}", w.as_ref(), &model[at..at + len]);
            }
        }
        c.state(&(cap, hist));
        g.check()
    }),
    space("histories", format!("every history of up to {d} of 13 operations (write, byte, string, format, clear, split keeping either half) on slices of 0..=8 bytes, all accessors read after each"), move |c| {
        let cap = c.num(0, 8);
        let mut g = Guard::new(&vec![0xEE; cap]);
        let base = g.doc().as_ptr() as usize;
        // the model: what every byte of the slice holds, where the writer starts, how much it holds
        let mut model = vec![0xEEu8; cap];
        let (mut at, mut len, mut end) = (0usize, 0usize, cap);
        let mut hist = vec![];
        let mut next = 1u8;
        {
            let mut w = SliceWriter::new(g.doc());
            loop {
                let cx = || format!("SliceWriter over {cap} bytes after {hist:?}");
                let (l, e, cp, rc, view, view2) = imp(|| (w.len(), w.is_empty(), w.capacity(), w.rem_capacity(), w.as_ref().to_vec(), w.as_mut().to_vec()))?;
                ensure!(l == len && w.len == len, "{}: len() = {l}, want {len}", cx());
                ensure!(e == (len == 0), "{}: is_empty() = {e} with {len} bytes", cx());
                ensure!(cp == end - at && w.buf.len() == end - at, "{}: capacity() = {cp}, want {}", cx(), end - at);
                ensure!(rc == end - at - len, "{}: rem_capacity() = {rc}, want {}", cx(), end - at - len);
                ensure!(view == model[at..at + len] && view2 == view, "{}: populated view {view:02x?}, want {:02x?}", cx(), &model[at..at + len]);
                ensure!(w.buf.as_ptr() as usize == base + at, "{}: the buffer starts elsewhere", cx());
                ensure!(w.buf[..] == model[at..end], "{}: buffer holds {:02x?}, want {:02x?}", cx(), &w.buf[..], &model[at..end]);
                if c.fresh() { c.state(&(cap, &hist)); }
                if hist.len() == d { break }
                let op = c.choose(13);
                hist.push(op);
                let data: Option<Vec<u8>> = match op { 0..=4 => Some((0..[0, 1, 2, 3, 5][op]).map(|i| next.wrapping_add(i)).collect()), 5 => Some(vec![next]), 6 => Some("é".into()), 7 => Some(vec![]), 8 => Some("12".into()), _ => None };
                next = next.wrapping_add(16);
                if let Some(data) = data {
                    let fits = data.len() <= end - at - len;
                    let r = imp(|| match op {
                        0..=4 => SerWrite::write(&mut w, &data),
                        5 => w.write_byte(data[0]),
                        6 => SerWrite::write_str(&mut w, "é"),
                        7 => SerWrite::write_str(&mut w, ""),
                        _ => std::fmt::Write::write_fmt(&mut w, format_args!("{}", 12)).map_err(|_| SerError::BufferFull),
                    })?;
                    ensure!(r.is_ok() == fits, "SliceWriter over {cap} bytes: last write of {hist:?} gives {r:?}, want fits={fits}");
                    if fits { model[at + len..at + len + data.len()].copy_from_slice(&data); len += data.len() }
                } else if op == 9 || op == 10 {
                    imp(|| w.clear())?;
                    len = 0;
                } else {
                    let (head, tail) = imp(|| w.split())?;
                    ensure!(head.as_ptr() as usize == base + at && head == &model[at..at + len], "SliceWriter over {cap} bytes after {hist:?}: split gives {head:02x?}, want {:02x?}", &model[at..at + len]);
                    if op == 11 { at += len; len = 0; w = tail }
                    else {
                        ensure!(tail.len == 0 && tail.buf[..] == model[at + len..end] && (tail.buf.is_empty() || tail.buf.as_ptr() as usize == base + at + len), "SliceWriter over {cap} bytes after {hist:?}: split leaves {tail:?}");
                        // the populated half is a plain slice: write over it again
                        end = at + head.len();
                        w = SliceWriter::new(head);
                        len = 0;
                    }
                }
            }
        }
        g.check()
    })]
}

// ------------------------------------------------------------------ S01
fn s01(t: bool) -> Vec<Space> {
    let shapes = cat(t);
    let wides = Arc::new(crate::p_json::wide_shapes());
    let w2 = wides.clone();
    let big: Arc<Vec<(S, V)>> = Arc::new(vec![
        (&Sh::Str, V::Str("a\"b\n".repeat(80))), (&Sh::Bytes, V::Bytes((0..=255).collect())), (&Sh::Disp, V::Str("ab|\"|é|".repeat(30))),
        (&Sh::F64, V::f64(-1.2345678901234567e-300)), (&Sh::Char, V::Char('😀')), (leak(Sh::Map(&Sh::F64, &Sh::Unit)), V::Map(vec![])),
    ]);
    let lvl = if t { 1 } else { 0 };
    fn one(c: &mut Ctx, sh: S, v: &V, m: usize) -> R {
        let disp = has(sh, &|s| matches!(s, Sh::Disp));
        let run = |s: &mut Sink| -> Result<Result<(), String>, Bad> {
            Ok(if m < 4 { jser_sink(ENCS[m], &SV(sh, v), s)?.map_err(|e| kind(&e)) } else { mser_sink(FLS[m - 4], &SV(sh, v), s)?.map_err(|e| kind(&e)) })
        };
        let what = || if m < 4 { format!("{v:?} as {sh:?} ({:?})", ENCS[m]) } else { format!("{v:?} as {sh:?} ({:?})", FLS[m - 4]) };
        let mut full = Sink { log: true, ..Default::default() };
        let whole = run(&mut full)?;
        for k in 0..full.calls {
            let mut s = Sink { fail_at: Some(k), ..Default::default() };
            let r = run(&mut s)?;
            c.outcome("fault reached");
            match &r {
                Ok(()) => fail!("write {k} of {} is refused but serialization of {} succeeds", full.calls, what()),
                Err(e) => ensure!(e == "Writer" || disp && e == "FormatError", "write {k} refused: serialization of {} fails with {e}", what()),
            }
            ensure!(s.after == 0, "{} more writes after write {k} of {} was refused", s.after, what());
            ensure!(s.calls == k + 1 && s.buf == full.buf[..full.sizes[k]], "write {k} refused: {:?} was delivered for {}, want a prefix", show(&s.buf), what());
        }
        if whole.is_err() { return Ok(()) }
        // every byte budget
        for cap in 0..=full.buf.len() {
            let mut g = Guard::new(&vec![0xEE; cap]);
            let (r, n) = {
                let mut w = SliceWriter::new(g.doc());
                let r = imp(|| if m < 4 { jser_to(ENCS[m], &mut w, &SV(sh, v)).map_err(|e| kind(&e)) } else { mser_to(FLS[m - 4], &mut w, &SV(sh, v)).map_err(|e| kind(&e)) })?;
                (r, w.len)
            };
            g.check()?;
            if cap == full.buf.len() { ensure!(r.is_ok() && n == cap, "exactly {cap} bytes of room are not enough for {}: {r:?}", what()) }
            else {
                c.outcome("fault reached");
                ensure!(r.is_err(), "{cap} bytes of room are enough for {} bytes of {}", full.buf.len(), what());
                let e = r.unwrap_err();
                ensure!(e == "Writer" || disp && e == "FormatError", "no room: serialization of {} fails with {e}", what());
            }
            ensure!(n <= cap && g.doc()[..n] == full.buf[..n], "with {cap} bytes of room {:?} was delivered for {}", show(&g.doc()[..n]), what());
        }
        Ok(())
    }
    vec![
        space("catalog", "every write and every byte budget of every catalog value, 4 JSON and 3 MessagePack serializers", move |c| {
            let i = c.choose(shapes.len());
            let v = gen(c, shapes[i], lvl, 2);
            let m = c.choose(7);
            c.state(&(i, &v, m)); c.sample(|| format!("{v:?} method {m}"));
            one(c, shapes[i], &v, m)
        }),
        space("wide", "sequences and maps of 0..=40 items and long leaves", move |c| {
            let i = c.choose(wides.len() + big.len());
            let m = c.choose(7);
            if i < wides.len() { let n = c.num(0, 40); c.state(&(i, n, m)); one(c, wides[i], &wide_value(wides[i], n), m) }
            else { let (sh, v) = &big[i - wides.len()]; c.state(&(i, 0, m)); one(c, sh, v, m) }
        }),
        space("long", "sequences and maps of 41..=48, 63..=65, 127..=129, 255..=257 and 300 items; strings, formatted values, byte strings and object keys of 0..=120 characters with escapes at two positions", move |c| {
            const LENS: [usize; 18] = [41, 42, 43, 44, 45, 46, 47, 48, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300];
            let m = c.choose(7);
            if c.flag() { let i = c.choose(w2.len()); let n = *c.pick(&LENS); c.state(&(i, n, m)); return one(c, w2[i], &wide_value(w2[i], n), m) }
            let n = c.num(0, 120);
            let (p, q) = (n / 3, n / 2);
            let s: String = (0..n).map(|k| if k == p { '\n' } else if k == q { 'é' } else if k + 1 == n { '"' } else { 'x' }).collect();
            let k = c.choose(4);
            c.state(&(k, n, m));
            match k {
                0 => one(c, &Sh::Str, &V::Str(s), m),
                1 => one(c, &Sh::Disp, &V::Str(s.chars().enumerate().flat_map(|(i, x)| if i % 7 == 6 { vec!['|', x] } else { vec![x] }).collect()), m),
                2 => one(c, &Sh::Bytes, &V::Bytes(s.bytes().collect()), m),
                _ => one(c, &Sh::Tup(&[&Sh::Map(&Sh::BStr, &Sh::Bool), &Sh::Unit]), &V::Seq(vec![V::Map(vec![(V::Str(s), V::Bool(true))]), V::Unit]), m),
            }
        }),
    ]
}
use crate::p_json::wide_value;

// ------------------------------------------------------------------ X01
/// deterministic items of one bucket; the same in every configuration
type Bucket = Box<dyn Fn(usize, &mut dyn FnMut(&dyn Fn() -> String, Result<String, Bad>)) + Send + Sync>;
struct Dig { name: &'static str, bound: String, buckets: usize, f: Bucket }
fn jout(sh: S, doc: &[u8], d: Dec) -> Result<String, Bad> {
    Ok(match jdec(sh, doc, d)?.res { Ok(v) => format!("{v:?}"), Err(e) => kind(&e) })
}
fn mout(sh: S, doc: &[u8]) -> Result<String, Bad> {
    let o = mdec(sh, doc)?;
    Ok(match o.res { Ok(v) => format!("{v:?} {}", o.used), Err(e) => kind(&e) })
}
fn digs(t: bool) -> Vec<Dig> {
    let mut v = vec![];
    let shapes = cat(false);
    let s2 = shapes.clone();
    // all values of a shape (small), by driving the generator over its choice tree
    fn values(sh: S, lvl: usize, f: &mut dyn FnMut(V)) {
        let all = std::sync::Mutex::new(vec![]);
        let allr: &'static std::sync::Mutex<Vec<V>> = Box::leak(Box::new(all));
        let sp = space("v", "", move |c| { let x = gen(c, sh, lvl, 2); allr.lock().unwrap().push(x); Ok(()) });
        explore_inline(&sp);
        for x in allr.lock().unwrap().drain(..) { f(x) }
    }
    v.push(Dig { name: "serialize", bound: format!("{} shapes, all small values, 4 JSON and 3 MessagePack serializers", shapes.len()), buckets: shapes.len(), f: Box::new(move |b, f| {
        values(shapes[b], (b < 220) as usize, &mut |x| {
            for e in ENCS { f(&|| format!("{x:?} {e:?}"), jser(e, &SV(shapes[b], &x)).map(|r| format!("{:?}", r.map(|b| show(&b))))) }
            for e in FLS { f(&|| format!("{x:?} {e:?}"), mser(e, &SV(shapes[b], &x)).map(|r| format!("{:?}", r.map(|b| hex(&b))))) }
        });
    }) });
    v.push(Dig { name: "roundtrip-and-cut", bound: "every output of the above decoded whole, truncated and under the wrong type".into(), buckets: s2.len(), f: Box::new(move |b, f| {
        values(s2[b], 0, &mut |x| {
            for (e, d) in [(Enc::Arr, Dec::Nope), (Enc::Hex, Dec::Hex), (Enc::B64, Dec::B64)] {
                let Ok(Ok(o)) = jser(e, &SV(s2[b], &x)) else { continue };
                for cut in 0..=o.len() { f(&|| format!("{} {:?} {d:?}", show(&o[..cut]), s2[b]), jout(s2[b], &o[..cut], d)) }
                for sh in [&Sh::Any as S, &Sh::Ign, &Sh::BStr, &Sh::Bytes, &Sh::F64, s2[(b * 7 + 3) % s2.len()], s2[(b * 31 + 11) % s2.len()]] { f(&|| format!("{} {sh:?} {d:?}", show(&o)), jout(sh, &o, d)) }
            }
            for e in FLS {
                let Ok(Ok(o)) = mser(e, &SV(s2[b], &x)) else { continue };
                for cut in 0..=o.len() { f(&|| format!("{} {:?}", hex(&o[..cut]), s2[b]), mout(s2[b], &o[..cut])) }
                for sh in [&Sh::Any as S, &Sh::Ign, &Sh::BStr, &Sh::Bytes, &Sh::F64, s2[(b * 7 + 3) % s2.len()], s2[(b * 31 + 11) % s2.len()]] { f(&|| format!("{} {sh:?}", hex(&o)), mout(sh, &o)) }
            }
        });
    }) });
    let js = crate::p_json::fuzz_shapes();
    let al: &'static [u8] = b"[]{}:,\"\\u0129.-eEtnaZ= \x01\xc3\xff";
    let n = if t { 4 } else { 3 };
    v.push(Dig { name: "json-bytes", bound: format!("every string of up to {n} of {} structural bytes, {} types, 3 decoders", al.len(), js.len()), buckets: js.len() * al.len(), f: Box::new(move |b, f| {
        let sh = js[b / al.len()];
        let first = al[b % al.len()];
        let mut d = vec![];
        for m in 0..n {
            for code in 0..al.len().pow(m as u32) {
                d.clear(); d.push(first);
                let mut x = code;
                for _ in 0..m { d.push(al[x % al.len()]); x /= al.len() }
                for dec in DECS { f(&|| format!("{} {sh:?} {dec:?}", show(&d)), jout(sh, &d, dec)) }
            }
        }
    }) });
    let toks: &'static [&'static [u8]] = &[b"[", b"]", b"{", b"}", b",", b":", b"\"a\"", b"\"QUI=\"", b"\"4142\"", b"1", b"300", b"-7", b"1.5", b"null", b"true", b" ", b"18446744073709551616"];
    let js2 = crate::p_json::fuzz_shapes();
    let tn = if t { 5 } else { 4 };
    v.push(Dig { name: "json-tokens", bound: format!("every sequence of up to {tn} of {} tokens, {} types, 3 decoders", toks.len(), js2.len()), buckets: js2.len() * toks.len(), f: Box::new(move |b, f| {
        let sh = js2[b / toks.len()];
        for m in 0..tn {
            for code in 0..toks.len().pow(m as u32) {
                let mut d = toks[b % toks.len()].to_vec();
                let mut x = code;
                for _ in 0..m { d.extend(toks[x % toks.len()]); x /= toks.len() }
                for dec in DECS { f(&|| format!("{} {sh:?} {dec:?}", show(&d)), jout(sh, &d, dec)) }
            }
        }
    }) });
    let ms = crate::p_mp::fuzz_shapes();
    let ml: Vec<u8> = crate::p_mp::lead_alphabet();
    v.push(Dig { name: "msgpack-bytes", bound: format!("every lead byte followed by up to {} of {} bytes, {} types", n - 1, ml.len(), ms.len()), buckets: ms.len() * 256, f: Box::new(move |b, f| {
        let sh = ms[b / 256];
        for m in 0..n {
            for code in 0..ml.len().pow(m as u32) {
                let mut d = vec![b as u8];
                let mut x = code;
                for _ in 0..m { d.push(ml[x % ml.len()]); x /= ml.len() }
                f(&|| format!("{} {sh:?}", hex(&d)), mout(sh, &d));
            }
        }
    }) });
    // declared lengths at the borders of 8, 16, 31 and 32 bits
    let mut ends: Vec<u32> = (0..=40).chain([126, 127, 128, 254, 255, 256, 257, 65534, 65535, 65536, 65537]).collect();
    for p in [24, 28, 29, 30, 31] { for k in 0..=20u32 { ends.extend([(1 << p) - k, (1 << p) + k]) } }
    ends.extend((0..=64).map(|k| u32::MAX - k));
    for d in 3..=16u32 { for k in 0..3 { ends.extend([u32::MAX / d - 1 + k]) } }
    ends.sort(); ends.dedup();
    let ends: &'static [u32] = ends.leak();
    let codes: &'static [u8] = &[0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf];
    let es: Vec<S> = vec![&Sh::Ign, &Sh::Any, &Sh::Str, &Sh::BStr, &Sh::Bytes, &Sh::Char, U8S, leak(Sh::Opt(&Sh::Bytes)), leak(Sh::Seq(&Sh::Ign)), leak(Sh::Seq(&Sh::Unit)), leak(Sh::Seq(&Sh::Bytes)), leak(Sh::Map(&Sh::Ign, &Sh::Ign)), leak(Sh::Map(&Sh::BStr, &Sh::Any)),
        leak(Sh::Tup(leakv(vec![&Sh::Ign, &Sh::Any]))), leak(Sh::Tup(leakv(vec![U8S, &Sh::Ign, U8S]))), leak(Sh::Map(U8S, leak(Sh::Tup(leakv(vec![&Sh::Ign, U8S]))))), crate::gen::wrap(7, U8S), crate::gen::wrap(8, &Sh::Bytes), leak(Sh::Seq(crate::gen::wrap(7, &Sh::Ign)))];
    let es: &'static [S] = es.leak();
    v.push(Dig { name: "declared-lengths", bound: format!("{} headers with a length declaring {} numbers to 2^32-1, behind 7 beginnings and before 3 endings, {} types", codes.len(), ends.len(), es.len()), buckets: codes.len() * es.len(), f: Box::new(move |b, f| {
        let (code, sh) = (codes[b / es.len()], es[b % es.len()]);
        for &n in ends {
            let head = match code { 0xc4 | 0xc7 | 0xd9 => vec![n as u8], 0xc5 | 0xc8 | 0xda | 0xdc | 0xde => (n as u16).to_be_bytes().to_vec(), _ => n.to_be_bytes().to_vec() };
            for pre in [&[][..], &[0x91], &[0x92, 1], &[0x93, 7, 0xc4, 3, 1, 2, 3], &[0x81, 1, 0x92], &[0x82, 0xa3, b'x', b'y', b'z'], &[0xdd, 0, 0, 0, 2, 0xc0]] {
                for post in [&[][..], &[1, 2, 3], &[0, 0xc0, 0xc0, 0x91, 0xc0, 0xa1, b'z', 1, 2, 3, 4, 5, 6, 7, 8, 9]] {
                    let mut d = pre.to_vec();
                    d.push(code);
                    d.extend(&head);
                    d.extend(post);
                    f(&|| format!("{} {sh:?}", hex(&d)), mout(sh, &d));
                    f(&|| format!("{} skipped", hex(&d)), imp(|| { let mut e = ser_write_msgpack::de::Deserializer::from_slice(&d); let r = e.eat_message(); format!("{r:?} {:?} {}", e.peek(), e.remaining_len()) }));
                }
            }
        }
    }) });
    let lens: &'static [usize] = &[0, 1, 30, 31, 32, 33, 255, 256, 257, 300, 65535, 65536];
    v.push(Dig { name: "display-text", bound: "display-formatted values of 12 lengths in 6 fragmentations, as value, key and in structs, 7 serializers".into(), buckets: lens.len(), f: Box::new(move |b, f| {
        let n = lens[b];
        for frag in 0..6 {
            let s: String = (0..n).map(|i| if frag > 0 && i % [1, 1, 2, 7, 31, 255][frag] == 0 { "|x" } else { "y" }).collect();
            for (sh, v) in [(&Sh::Disp as S, V::Str(s.clone())), (&Sh::Map(&Sh::Disp, &Sh::Disp), V::Map(vec![(V::Str(s.clone()), V::Str(s.clone()))])), (&Sh::Tup(&[&Sh::Disp, &Sh::Bool]), V::Seq(vec![V::Str(s.clone()), V::Bool(true)]))] {
                for e in ENCS { f(&|| format!("{n} {frag} {sh:?} {e:?}"), jser(e, &SV(sh, &v)).map(|r| format!("{:?}", r.map(|b| h64(&b))))) }
                for e in FLS { f(&|| format!("{n} {frag} {sh:?} {e:?}"), mser(e, &SV(sh, &v)).map(|r| format!("{:?}", r.map(|b| h64(&b))))) }
            }
        }
    }) });
    let ch = crate::p_scale::chains(if t { 48 } else { 16 });
    v.push(Dig { name: "chains", bound: "chains of two alternating containers: serialized in 7 ways, decoded typed, self-describing and ignored".into(), buckets: ch.len(), f: Box::new(move |b, f| {
        let sh = ch[b];
        let x = crate::p_scale::line(sh, b % 3, b % 2);
        for (e, d) in [(Enc::Arr, Dec::Nope), (Enc::Hex, Dec::Hex), (Enc::B64, Dec::B64)] {
            let r = jser(e, &SV(sh, &x));
            if let Ok(Ok(o)) = &r { for w in [sh, &Sh::Any, &Sh::Ign] { for n in [o.len(), o.len() - 1] { f(&|| format!("{} {w:?} {d:?}", show(&o[..n])), jout(w, &o[..n], d)) } } }
            f(&|| format!("{x:?} {e:?}"), r.map(|r| format!("{:?}", r.map(|b| show(&b)))));
        }
        for e in FLS {
            let r = mser(e, &SV(sh, &x));
            if let Ok(Ok(o)) = &r { for w in [sh, &Sh::Any, &Sh::Ign] { for n in [o.len(), o.len() - 1] { f(&|| format!("{} {w:?}", hex(&o[..n])), mout(w, &o[..n])) } } }
            f(&|| format!("{x:?} {e:?}"), r.map(|r| format!("{:?}", r.map(|b| hex(&b)))));
        }
    }) });
    let big: &'static [usize] = &[0, 1, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, 65537, 100000];
    v.push(Dig { name: "sizes", bound: format!("strings, byte strings, sequences and maps of {} sizes: serialized in 7 ways, decoded whole and cut, typed, self-describing and ignored", big.len()), buckets: big.len() * 6, f: Box::new(move |b, f| {
        let n = big[b / 6];
        let (sh, x): (S, V) = match b % 6 {
            0 => (&Sh::BStr, V::Str("x".repeat(n))), 1 => (&Sh::BStr, V::Str((0..n).map(|i| ['a', '\n', 'é', '"', '\u{1}'][i % 5]).collect())), 2 => (&Sh::Bytes, V::Bytes((0..n).map(|i| (i * 7) as u8).collect())),
            3 => (&Sh::Seq(&Sh::Opt(&Sh::Bool)), V::Seq((0..n).map(|i| if i % 3 == 0 { V::None } else { V::Some(Box::new(V::Bool(true))) }).collect())), 4 => (&Sh::Map(&Sh::BStr, &Sh::Unit), V::Map((0..n).map(|i| (V::Str(format!("k{i}")), V::Unit)).collect())),
            _ => (&Sh::Disp, V::Str((0..n).map(|i| ["x", "|", "\"", "é"][i % 4]).collect())),
        };
        let sum = |r: Result<String, Bad>| r.map(|s| if s.len() > 400 { format!("{:x}", h64(&s)) } else { s });
        for (e, d) in [(Enc::Arr, Dec::Nope), (Enc::Hex, Dec::Hex), (Enc::B64, Dec::B64)] {
            let r = jser(e, &SV(sh, &x));
            if let Ok(Ok(o)) = &r { for w in [sh, &Sh::Any, &Sh::Ign] { for n in [o.len(), o.len() - 1, o.len() / 2] { f(&|| format!("{n} of size {} {w:?} {d:?}", o.len()), sum(jout(w, &o[..n], d))) } } }
            f(&|| format!("{sh:?} of {n} {e:?}"), r.map(|r| format!("{:?}", r.map(|b| h64(&b)))));
        }
        for e in FLS {
            let r = mser(e, &SV(sh, &x));
            if let Ok(Ok(o)) = &r { for w in [sh, &Sh::Any, &Sh::Ign] { for n in [o.len(), o.len() - 1, o.len() / 2] { f(&|| format!("{n} of size {} {w:?}", o.len()), sum(mout(w, &o[..n]))) } } }
            f(&|| format!("{sh:?} of {n} {e:?}"), r.map(|r| format!("{:?}", r.map(|b| h64(&b)))));
        }
    }) });
    // text cut into fragments around every single character
    v.push(Dig { name: "display-fragments", bound: "display-formatted values of up to three fragments, one of them every ASCII character or one of 4 others, as value, key and struct field, 7 serializers".into(), buckets: 132, f: Box::new(move |b, f| {
        let ch = if b < 128 { b as u8 as char } else { ['é', '\u{80}', '\u{2028}', '😀'][b - 128] };
        if ch == '|' { return }
        for s in ["@", "@|", "|@", "x|@", "@|x", "@|@", "x|@|\"", "\\|@|u", "x@|y", "x|@y", "ab|c@d|e", "@@", "@|@|@", "é|@"] {
            let s = s.replace('@', &ch.to_string());
            for (sh, v) in [(&Sh::Disp as S, V::s(&s)), (&Sh::Map(&Sh::Disp, &Sh::Disp), V::Map(vec![(V::s(&s), V::s(&s))])), (&Sh::Tup(&[&Sh::Disp, &Sh::Bool]), V::Seq(vec![V::s(&s), V::Bool(true)])), (&Sh::Map(&Sh::Char, &Sh::Str), V::Map(vec![(V::Char(ch), V::s(&s))]))] {
                for e in ENCS { f(&|| format!("{s:?} {sh:?} {e:?}"), jser(e, &SV(sh, &v)).map(|r| format!("{:?}", r.map(|b| show(&b))))) }
                for e in FLS { f(&|| format!("{s:?} {sh:?} {e:?}"), mser(e, &SV(sh, &v)).map(|r| format!("{:?}", r.map(|b| hex(&b))))) }
            }
        }
    }) });
    // every leaf value read as every other leaf type
    let lv: Vec<S> = leaves().into_iter().chain([&Sh::Any as S, &Sh::Ign, leak(Sh::Opt(U8S)), leak(Sh::New(&Sh::Char)), leak(Sh::Map(&Sh::Char, &Sh::Str)), wrap(8, &Sh::Char), wrap(7, &Sh::F32)]).collect();
    v.push(Dig { name: "leaves-as-leaves", bound: format!("many values of {} types read as every one of these types, both formats", lv.len()), buckets: lv.len(), f: Box::new(move |b, f| {
        if matches!(lv[b], Sh::Any | Sh::Ign) { return }
        values(lv[b], 2, &mut |x| {
            for (e, d) in [(Enc::Arr, Dec::Nope), (Enc::Hex, Dec::Hex), (Enc::B64, Dec::B64)] {
                let Ok(Ok(o)) = jser(e, &SV(lv[b], &x)) else { continue };
                for w in &lv { f(&|| format!("{} {w:?} {d:?}", show(&o)), jout(w, &o, d)) }
            }
            for e in FLS {
                let Ok(Ok(o)) = mser(e, &SV(lv[b], &x)) else { continue };
                for w in &lv { f(&|| format!("{} {w:?}", hex(&o)), mout(w, &o)) }
            }
        });
    }) });
    let atoms: &'static [&'static [u8]] = &[b"a", b"0", b"F", b"=", b"\xc3\xa9", b"\xf0\x9f\x98\x80", b"\\n", b"\\u0041", b"\\u00e9", b"\\ud83d\\ude00", b"\\\"", b"\\\\", b"\\ud800", b"\\x", b"\x80", b"\xe2\x82", b"\x01", b"\x7f", b" ", b"-"];
    let lt: Vec<S> = vec![&Sh::Str, &Sh::BStr, &Sh::Char, &Sh::Bytes, &Sh::ByteBuf, &Sh::Any, &Sh::Ign, wrap(8, &Sh::Char), leak(Sh::New(leak(Sh::Opt(&Sh::Char))))];
    let lk: Vec<S> = [&Sh::Char as S, &Sh::BStr, U8S, I32S, &Sh::Bool, &Sh::Any].iter().map(|k| leak(Sh::Map(k, &Sh::Unit)) as S).collect();
    let ln = if t { 4 } else { 3 };
    v.push(Dig { name: "literals", bound: format!("string literals of up to {ln} of {} pieces as values of {} types, as keys of {} types (3 JSON decoders) and as MessagePack strings and byte strings in 3 length forms", atoms.len(), lt.len(), lk.len()), buckets: atoms.len() * atoms.len(), f: Box::new(move |b, f| {
        let n = atoms.len();
        // m = 0: a single piece, m = 1: the two pieces of this bucket, then everything behind them
        for m in 0..ln as usize {
            for code in 0..n.pow(m.saturating_sub(1) as u32) {
                let mut x = if m == 0 { if b >= n { break } else { atoms[b].to_vec() } } else { [atoms[b / n], atoms[b % n]].concat() };
                let mut r = code;
                for _ in 1..m { x.extend_from_slice(atoms[r % n]); r /= n }
                let lit = [&b"\""[..], &x, b"\""].concat();
                let key = [&b"{"[..], &lit, b":null}"].concat();
                for d in DECS {
                    for w in &lt { f(&|| format!("{} {w:?} {d:?}", show(&lit)), jout(w, &lit, d)) }
                    for w in &lk { f(&|| format!("{} {w:?} {d:?}", show(&key)), jout(w, &key, d)) }
                }
                let l = x.len() as u8;
                for h in [vec![0xa0 + l], vec![0xd9, l], vec![0xda, 0, l], vec![0xc4, l], vec![0xc5, 0, l]] {
                    if h[0] == 0xa0 + l && l > 31 { continue }
                    let o = [&h[..], &x].concat();
                    for w in &lt { f(&|| format!("{} {w:?}", hex(&o)), mout(w, &o)) }
                    let o = [&[0x81][..], &h, &x, &[0xc0]].concat();
                    for w in &lk { f(&|| format!("{} {w:?}", hex(&o)), mout(w, &o)) }
                }
            }
        }
    }) });
    v.push(Dig { name: "hints", bound: "sequences and maps announcing any or no length with 0..=17 elements".into(), buckets: 18, f: Box::new(move |b, f| {
        for map in [false, true] { for h in 0..19usize {
            let x = crate::p_json::Hinted { map, hint: h.checked_sub(1), n: b };
            f(&|| format!("{map} {h} {b}"), jser(Enc::Arr, &x).map(|r| format!("{r:?}")));
            for e in FLS { f(&|| format!("{map} {h} {b} {e:?}"), mser(e, &x).map(|r| format!("{r:?}"))) }
        } }
    }) });
    v.push(Dig { name: "numbers", bound: "integers at every boundary and floats of every exponent through both formats".into(), buckets: 64, f: Box::new(move |b, f| {
        for (k, x) in crate::p_json::edges().into_iter().enumerate() {
            if k % 64 != b { continue }
            for sh in &crate::p_json::INTS {
                let txt = x.to_string();
                f(&|| format!("{txt} {sh:?}"), jout(sh, txt.as_bytes(), Dec::Nope));
                let kd = format!("{{\"{txt}\":null}}");
                f(&|| format!("{kd} {sh:?}"), jout(leak_map(sh), kd.as_bytes(), Dec::Nope));
                if crate::p_json::it(sh).has(x) {
                    f(&|| format!("{x} {sh:?}"), jser(Enc::Arr, &SV(sh, &V::Int(x))).map(|r| format!("{r:?}")));
                    f(&|| format!("{x} {sh:?}"), mser(crate::mref::Fl::Idx, &SV(sh, &V::Int(x))).map(|r| format!("{r:?}")));
                }
            }
            f(&|| format!("{x} any"), jout(&Sh::Any, x.to_string().as_bytes(), Dec::Nope));
        }
        for (k, x) in crate::p_json::f64_grid().into_iter().enumerate() {
            if k % 1024 != b { continue }
            f(&|| format!("{x:x}"), jser(Enc::Arr, &SV(&Sh::F64, &V::F64(x))).map(|r| format!("{r:?}")));
            f(&|| format!("{x:x}"), mser(crate::mref::Fl::Idx, &SV(&Sh::F64, &V::F64(x))).map(|r| format!("{r:?}")));
        }
    }) });
    v
}
fn leak_map(sh: &'static Sh) -> S {
    static M: std::sync::OnceLock<Vec<S>> = std::sync::OnceLock::new();
    let m = M.get_or_init(|| crate::p_json::INTS.iter().map(|s| leak(Sh::Map(s, &Sh::Unit)) as S).collect());
    let i = crate::p_json::INTS.iter().position(|s| std::ptr::eq(s, sh)).unwrap();
    m[i]
}
/// the digests on a machine without threads and files, driven from outside (32-bit targets)
#[cfg(target_arch = "wasm32")]
mod w32 {
    use super::*;
    use std::sync::atomic::{AtomicU64, Ordering};
    static DS: std::sync::OnceLock<Vec<Dig>> = std::sync::OnceLock::new();
    /// items finished in the bucket that is run
    static DONE: AtomicU64 = AtomicU64::new(0);
    static TEXT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
    /// 0: quick, 1: thorough, 2: the huge documents alone
    #[no_mangle] pub extern "C" fn w32_digs(what: u32) -> u32 { crate::install_hook(); DS.get_or_init(|| if what == 2 { huge_digs() } else { digs(what != 0) }).len() as u32 }
    #[no_mangle] pub extern "C" fn w32_buckets(i: u32) -> u32 { DS.get().unwrap()[i as usize].buckets as u32 }
    #[no_mangle] pub extern "C" fn w32_done() -> u64 { DONE.load(Ordering::SeqCst) }
    #[no_mangle] pub extern "C" fn w32_run(i: u32, b: u32) -> u64 {
        DONE.store(0, Ordering::SeqCst);
        let (mut h, mut n) = (0u64, 0u64);
        (DS.get().unwrap()[i as usize].f)(b as usize, &mut |_, r| { n += 1; h = h64(&(h, &r.unwrap_or_else(|b| b.msg))); DONE.store(n, Ordering::Relaxed) });
        h64(&(h, n))
    }
    /// what each item of a bucket gives, a line each; as far as it got if it dies
    #[no_mangle] pub extern "C" fn w32_dump(i: u32, b: u32) {
        TEXT.lock().unwrap().clear();
        (DS.get().unwrap()[i as usize].f)(b as usize, &mut |what, r| { let line = format!("{} -> {}\n", what(), r.unwrap_or_else(|b| b.msg)); TEXT.lock().unwrap().push_str(&line) });
    }
    #[no_mangle] pub extern "C" fn w32_text() -> *const u8 { TEXT.lock().unwrap().as_ptr() }
    #[no_mangle] pub extern "C" fn w32_len() -> usize { TEXT.lock().unwrap().len() }
}
/// documents of more bytes than three quarters of the signed 32-bit range: what they give is summed up, not stored
fn huge_digs() -> Vec<Dig> {
    use {ser_write_json::de as j, ser_write_msgpack::de as m};
    const N: usize = 1_431_655_764; // N / 4 * 3 is the largest multiple of 3 below 2^30
    fn gist(b: &[u8]) -> String { format!("{} bytes {:?}..{:?}", b.len(), &b[..4], &b[b.len() - 4..]) }
    let sizes: &'static [usize] = &[N, N + 4, N + 6];
    vec![Dig { name: "huge-documents", bound: format!("strings, base-64, hexadecimal and MessagePack texts of {} sizes around {N} bytes, whole and (base-64) unclosed: what is decoded and what remains", sizes.len()), buckets: sizes.len(), f: Box::new(move |b, f| {
        let mut buf = vec![0u8; N + 16];
        let n = sizes[b];
        for kind in 0..6 { for short in [0, 1] {
            if short == 1 && kind != 1 { continue }
            let r = imp(|| {
                let b = &mut buf[..];
                if kind < 3 {
                    // the text, closed by a quote and followed by a number
                    b.fill(b'A');
                    b[0] = b'"';
                    b[n + 1..n + 4].copy_from_slice(b"\" 7");
                    let d = &mut b[..n + 4 - if short == 1 { 3 } else { 0 }];
                    fn go<'a, D: serde::Deserializer<'a, Error = j::Error>>(d: D, bytes: bool) -> Result<String, j::Error> { use serde::Deserialize; if bytes { <&[u8]>::deserialize(d).map(|x| gist(x)) } else { <&str>::deserialize(d).map(|x| gist(x.as_bytes())) } }
                    return match kind {
                        0 => { let mut e = j::DeserializerNopeByteStr::from_mut_slice(d); let r = go(&mut e, false); format!("{r:?} {} {:?}", e.remaining_len(), e.end()) }
                        1 => { let mut e = j::DeserializerBase64ByteStr::from_mut_slice(d); let r = go(&mut e, true); format!("{r:?} {} {:?}", e.remaining_len(), e.end()) }
                        _ => { let mut e = j::DeserializerHexByteStr::from_mut_slice(d); let r = go(&mut e, true); format!("{r:?} {} {:?}", e.remaining_len(), e.end()) }
                    };
                }
                b.fill(b'A');
                b[0] = [0xdb, 0xc6, 0xc9][kind - 3];
                b[1..5].copy_from_slice(&(n as u32).to_be_bytes());
                let d = &b[..n + 5 + usize::from(kind == 5) + 1 - 2 * short];
                use serde::Deserialize;
                let mut e = m::Deserializer::from_slice(d);
                let r = match kind { 3 => <&str>::deserialize(&mut e).map(|x| gist(x.as_bytes())), 4 => <&[u8]>::deserialize(&mut e).map(|x| gist(x)), _ => serde::de::IgnoredAny::deserialize(&mut e).map(|_| String::new()) };
                format!("{r:?} {}", e.remaining_len())
            });
            f(&|| format!("kind {kind} of {n} bytes, short {short}"), r);
        } }
    }) }]
}
pub fn digest_main(t: bool, bucket: Option<String>, huge: bool) {
    use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
    let ds = if huge { huge_digs() } else { digs(t) };
    if let Some(b) = bucket {
        let (n, i) = b.split_once(':').unwrap();
        let d = ds.iter().find(|d| d.name == n).unwrap();
        (d.f)(i.parse().unwrap(), &mut |what, r| println!("{} -> {}", what(), r.unwrap_or_else(|b| b.msg)));
        return;
    }
    println!("{{\"spaces\":[");
    for (k, d) in ds.iter().enumerate() {
        let out: Vec<AtomicU64> = (0..d.buckets).map(|_| AtomicU64::new(0)).collect();
        let (next, items) = (AtomicUsize::new(0), AtomicU64::new(0));
        let sample = std::sync::Mutex::new(vec![]);
        std::thread::scope(|s| for _ in 0..8 {
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= d.buckets { return }
                let (mut h, mut n) = (0u64, 0u64);
                (d.f)(i, &mut |what, r| {
                    n += 1;
                    let r = r.unwrap_or_else(|b| b.msg);
                    if n == 5 && i % (d.buckets / 3 + 1) == 1 { let mut g = sample.lock().unwrap(); if g.len() < 3 { g.push(format!("{} -> {}", what(), r)) } }
                    h = h64(&(h, &r));
                });
                out[i].store(h64(&(h, n)), Ordering::SeqCst);
                items.fetch_add(n, Ordering::SeqCst);
            }).unwrap();
        });
        let n = items.load(Ordering::SeqCst);
        println!("{}{{\"space\":\"{}\",\"bound\":{:?},\"items\":{n},\"calls\":{n},\"outcomes\":{{}},\"samples\":[{}],\"digests\":[{}]}}", if k > 0 { "," } else { "" }, d.name, d.bound,
            sample.lock().unwrap().iter().map(|s| crate::esc(s)).collect::<Vec<_>>().join(","),
            out.iter().map(|x| format!("\"{:x}\"", x.load(Ordering::SeqCst))).collect::<Vec<_>>().join(","));
    }
    println!("]}}");
}
