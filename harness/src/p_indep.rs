//! X06: encoders and decoders depend on nothing but their own input. Whatever else is encoded or decoded
//! before, in between, from inside a value's own code, on another thread, or is abandoned half-way.
use crate::engine::*;
use crate::gen::*;
use crate::jref::*;
use crate::mref::FLS;
use crate::run::*;
use crate::shape::*;
use crate::ensure;
use ser_write::SerWrite;
use ser_write_json as js;
use ser_write_msgpack as mp;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;

pub fn extra(prop: &str, t: bool) -> Vec<Space> { if prop == "X06" { x06(t) } else { vec![] } }

/// a sink whose every write is an event
#[derive(Default)]
struct EvSink { buf: Vec<u8>, left: Option<usize> }
impl SerWrite for EvSink {
    type Error = SinkErr;
    fn write(&mut self, b: &[u8]) -> Result<(), SinkErr> {
        inj::event();
        if let Some(n) = &mut self.left { if *n == 0 { return Err(SinkErr) } *n -= 1 }
        self.buf.extend_from_slice(b);
        Ok(())
    }
}
enum Op {
    /// encode with one of 7 serializers; refuse the n-th write
    Ser(usize, S, V, Option<usize>),
    /// encode through the functions that return what they wrote
    #[allow(dead_code)]
    Own(usize, S, V),
    Jde(Dec, S, Vec<u8>),
    Mde(S, Vec<u8>),
    Skip(Vec<u8>),
    /// another operation whose value's code panics at an event
    Panics(Box<Op>, u32),
}
impl Op {
    /// everything observable of the operation
    fn run(&self) -> String {
        match self {
            Op::Ser(m, sh, v, left) => {
                let mut s = EvSink { buf: vec![], left: *left };
                let r = imp(|| if *m < 4 { jser_to(ENCS[*m], &mut s, &SV(sh, v)).map_err(|e| format!("{e:?}")) } else { mser_to(FLS[*m - 4], &mut s, &SV(sh, v)).map_err(|e| format!("{e:?}")) });
                format!("{r:?} {}", show(&s.buf))
            }
            #[cfg(feature = "heap")]
            Op::Own(m, sh, v) => {
                let v = SV(sh, v);
                let r = imp(|| match m {
                    0 => js::to_string(&v).map(String::into_bytes).map_err(|e| format!("{e:?}")), 1 => js::to_string_hex_bytes(&v).map(String::into_bytes).map_err(|e| format!("{e:?}")),
                    2 => js::to_string_base64_bytes(&v).map(String::into_bytes).map_err(|e| format!("{e:?}")), 3 => js::to_string_pass_bytes(&v).map(String::into_bytes).map_err(|e| format!("{e:?}")),
                    4 => mp::to_vec_compact(&v).map_err(|e| format!("{e:?}")), 5 => mp::to_vec(&v).map_err(|e| format!("{e:?}")), _ => mp::to_vec_named(&v).map_err(|e| format!("{e:?}")),
                });
                match r { Ok(Ok(b)) => show(&b), r => format!("{r:?}") }
            }
            #[cfg(not(feature = "heap"))]
            Op::Own(m, sh, v) => Op::Ser(*m, sh, v.clone(), None).run(),
            Op::Jde(dec, sh, doc) => match jdec(sh, doc, *dec) { Ok(o) => format!("{:?} {}", o.res, o.lent.iter().map(|l| format!("{}:{} ", l.at, show(&l.bytes))).collect::<String>()), Err(b) => b.msg },
            Op::Mde(sh, doc) => match mdec(sh, doc) { Ok(o) => format!("{:?} {} {}", o.res, o.used, o.lent.iter().map(|l| format!("{}:{} ", l.at, show(&l.bytes))).collect::<String>()), Err(b) => b.msg },
            Op::Skip(doc) => format!("{:?}", imp(|| { let mut d = mp::de::Deserializer::from_slice(doc); let r = d.eat_message(); (r, d.remaining_len(), d.peek()) })),
            Op::Panics(op, at) => {
                inj::plan(*at, Box::new(|| panic!("a value's own code")));
                let r = op.run();
                inj::unplan();
                // how much of what was done before the panic shows depends on the operation only
                r
            }
        }
    }
    /// number of points at which something else can be run during the operation
    fn events(&self) -> u32 { inj::plan(0, Box::new(|| ())); self.run(); inj::unplan() }
    fn brief(&self) -> String {
        match self {
            Op::Ser(m, sh, v, l) => format!("writing {} as {sh:?} in {}{}", crate::mref::brief(v), crate::p_more::name7(*m), l.map_or(String::new(), |n| format!(", write {n} refused"))),
            Op::Own(m, sh, v) => format!("writing {} as {sh:?} in {} to an owned buffer", crate::mref::brief(v), crate::p_more::name7(*m)),
            Op::Jde(dec, sh, d) => format!("reading `{}` as {sh:?} ({dec:?})", show(d)),
            Op::Mde(sh, d) => format!("reading [{}] as {sh:?}", crate::mref::hex(d)),
            Op::Skip(d) => format!("skipping [{}]", crate::mref::hex(d)),
            Op::Panics(op, at) => format!("{} with a panic at its event {at}", op.brief()),
        }
    }
}
fn values() -> Vec<(S, V)> {
    let st = wrap(7, U8S);
    let en = wrap(8, &Sh::Bytes);
    vec![
        (st, V::Struct(vec![Some(V::Int(7)), Some(V::s("q\n\"")), None])),
        (leak(Sh::Tup(&[&Sh::Bytes, &Sh::Disp, &Sh::F64, &Sh::Char])), V::Seq(vec![V::Bytes(vec![1, 0x5c, 0xff]), V::s("x|\\y|é"), V::f64(-0.25), V::Char('😀')])),
        (leak(Sh::Map(&Sh::BStr, leak(Sh::Seq(en)))), V::Map(vec![(V::s("k\u{1}"), V::Seq(vec![V::Var(0, Box::new(V::Unit)), V::Var(1, Box::new(V::Bytes(vec![9; 40])))])), (V::s(""), V::Seq(vec![]))])),
        (leak(Sh::Map(leak(Sh::Int(IT::I64)), leak(Sh::Opt(&Sh::Unit)))), V::Map(vec![(V::Int(-5), V::None), (V::Int(1 << 40), V::None)])),
        (leak(Sh::Seq(leak(Sh::Seq(leak(Sh::Seq(&Sh::Str)))))), V::Seq(vec![V::Seq(vec![V::Seq(vec![V::s("a"), V::s("b")]), V::Seq(vec![])]), V::Seq(vec![])])),
        (leak(Sh::Map(&Sh::Disp, &Sh::Disp)), V::Map(vec![(V::s("a|b"), V::s("|\"|"))])),
    ]
}
fn ops(t: bool) -> Vec<Op> {
    let mut v = vec![];
    let vals = values();
    for m in 0..7 { for (i, (sh, x)) in vals.iter().enumerate() { if t || (i + m) % 2 == 0 || i < 2 { v.push(Op::Ser(m, sh, x.clone(), None)) } } }
    for m in 0..7 { let (sh, x) = &vals[m % vals.len()]; v.push(Op::Own(m, sh, x.clone())); v.push(Op::Ser(m, sh, x.clone(), Some(m + 1))) }
    // refused by the format, after output has begun
    let bad = (leak(Sh::Tup(&[&Sh::Bool, &Sh::Map(&Sh::F64, &Sh::Unit)])) as S, V::Seq(vec![V::Bool(true), V::Map(vec![(V::f64(1.5), V::Unit)])]));
    v.push(Op::Ser(0, bad.0, bad.1.clone(), None));
    v.push(Op::Own(1, bad.0, bad.1));
    let st = wrap(7, U8S);
    let en = wrap(8, &Sh::Bytes);
    for (sh, d) in [
        (st, &br#" {"a":7,"b\"q":"x\u0041\n", "zz":[{"k":"\"]"}], "cc":3}"#[..]), (&Sh::Any, br#"{"a":[1,{"b":null}],"c":"x\ty","d":[[],{}],"e":-1.5e3}"#), (&Sh::Ign, br#"[[[{"a":["x"]}]],"q",12]"#),
        (leak(Sh::Tup(leakv(vec![&Sh::BStr, &Sh::Bytes, en]))), br#"["p\\q","QUI=",{"Ne\\w":"0a"}]"#), (leak(Sh::Seq(&Sh::Bytes)), br#"["0aFf","","AQID"]"#), (leak(Sh::Map(U8S, &Sh::BStr)), br#"{"1":"a","255":"\ud83d\ude00"}"#),
        // malformed, cut, or of another type
        (&Sh::Any, br#"[[[[[["#), (&Sh::Any, br#"{"a":{"b":{"c":["#), (&Sh::Ign, br#"[[[[["x"#), (&Sh::BStr, br#""a\n\ud83d"#), (st, br#"{"a":[1]}"#), (&Sh::Bytes, br#""0aF""#), (en, br#"{"Ne\\w":[1,2,300]}"#), (&Sh::Any, br#"[[1,[2,{"a":]"#),
    ] { for dec in DECS { if t || dec == Dec::Nope || matches!(sh, Sh::Seq(_) | Sh::Tup(_) | Sh::Bytes | Sh::Enum(_)) { v.push(Op::Jde(dec, sh, d.to_vec())) } } }
    for (sh, d) in [
        (st, &[0x84u8, 0, 7, 9, 0x91, 0x81, 1, 0xc4, 1, 2, 1, 0xa3, b'x', b'y', b'z', 0xa2, b'c', b'c', 3][..]), (&Sh::Any, &[0x82, 0xa1, b'a', 0x93, 1, 0xc0, 0x91, 0xca, 0, 0, 0, 0, 0x92, 1, 2, 0xc4, 1, 9]),
        (leak(Sh::Seq(&Sh::Ign)), &[0x93, 0x91, 0x91, 0x91, 0x80, 0xd4, 1, 2, 0xc7, 1, 5, 9]), (leak(Sh::Tup(leakv(vec![&Sh::BStr, &Sh::Bytes, en]))), &[0x93, 0xa2, b'h', b'i', 0xc4, 2, 1, 2, 0x81, 1, 0xc4, 1, 7]),
        (&Sh::Any, &[0x91, 0x91, 0x91, 0x91, 0x91]), (&Sh::Ign, &[0x91, 0x82, 1, 0x93, 1]), (&Sh::Any, &[0x92, 0x91, 0xc1]), (st, &[0x93, 1, 2, 3]), (&Sh::BStr, &[0xa2, 0xff, 0xfe]), (&Sh::Any, &[0xdc, 0, 3, 0x81, 1, 0xd4, 0, 0]),
    ] { v.push(Op::Mde(sh, d.to_vec())); v.push(Op::Skip(d.to_vec())) }
    // abandoned half-way
    let mut k = 0;
    let n = v.len();
    for i in (0..n).step_by(if t { 1 } else { 3 }) {
        let e = v[i].events();
        if e < 2 { continue }
        let at = 1 + k % e;
        k += 5;
        let op = match &v[i] { Op::Ser(m, sh, x, l) => Op::Ser(*m, sh, x.clone(), *l), Op::Own(m, sh, x) => Op::Own(*m, sh, x.clone()), Op::Jde(d, sh, x) => Op::Jde(*d, sh, x.clone()), Op::Mde(sh, x) => Op::Mde(sh, x.clone()), _ => continue };
        v.push(Op::Panics(Box::new(op), at));
    }
    v
}
// ------------------------------------------------------------------ two codecs side by side
/// one value after another through one serializer or deserializer
enum Codec<'a> {
    J0(js::ser::Serializer<EvSink, js::ser::ArrayByteEncoder>), J1(js::ser::Serializer<EvSink, js::ser::HexStrByteEncoder>), J2(js::ser::Serializer<EvSink, js::ser::Base64ByteEncoder>),
    J3(js::ser::Serializer<EvSink, js::ser::PassThroughByteEncoder>), M0(mp::ser::CompactSerializer<EvSink>), M1(mp::ser::StructMapIdxSerializer<EvSink>), M2(mp::ser::StructMapStrSerializer<EvSink>),
    D0(js::de::DeserializerNopeByteStr<'a>), D1(js::de::DeserializerHexByteStr<'a>), D2(js::de::DeserializerBase64ByteStr<'a>), D3(mp::de::Deserializer<'a>),
}
const CODECS: usize = 11;
const STEPS: usize = 4;
impl<'a> Codec<'a> {
    fn new(k: usize, doc: &'a mut [u8]) -> Self {
        let s = EvSink::default();
        match k {
            0 => Codec::J0(js::ser::Serializer::new(s)), 1 => Codec::J1(js::ser::Serializer::new(s)), 2 => Codec::J2(js::ser::Serializer::new(s)), 3 => Codec::J3(js::ser::Serializer::new(s)),
            4 => Codec::M0(mp::ser::CompactSerializer::new(s)), 5 => Codec::M1(mp::ser::StructMapIdxSerializer::new(s)), 6 => Codec::M2(mp::ser::StructMapStrSerializer::new(s)),
            7 => Codec::D0(js::de::Deserializer::from_mut_slice(doc)), 8 => Codec::D1(js::de::Deserializer::from_mut_slice(doc)), 9 => Codec::D2(js::de::Deserializer::from_mut_slice(doc)), _ => Codec::D3(mp::de::Deserializer::from_slice(doc)),
        }
    }
    fn step(&mut self, sh: S, v: &V) -> String {
        macro_rules! s { ($s:expr) => {{ let r = imp(|| SV(sh, v).serialize(&mut *$s).map_err(|e| format!("{e:?}"))); let b = std::mem::take(&mut $s.writer().buf); format!("{r:?} {}", show(&b)) }} }
        macro_rules! d { ($d:expr) => {{ set_shape(sh); let r = imp(|| Dyn::deserialize(&mut *$d).map(|d| d.0)); format!("{r:?} {}", $d.remaining_len()) }} }
        match self {
            Codec::J0(x) => s!(x), Codec::J1(x) => s!(x), Codec::J2(x) => s!(x), Codec::J3(x) => s!(x), Codec::M0(x) => s!(x), Codec::M1(x) => s!(x), Codec::M2(x) => s!(x),
            Codec::D0(x) => d!(x), Codec::D1(x) => d!(x), Codec::D2(x) => d!(x), Codec::D3(x) => d!(x),
        }
    }
}
/// the values of stream `w` and what a decoder of kind `k` is given
fn stream(k: usize, w: usize) -> (Vec<(S, V)>, Vec<u8>) {
    let vals = values();
    let mut items: Vec<(S, V)> = (0..STEPS).map(|i| { let (s, v) = &vals[(w + i * (w + 1)) % 5]; (*s, v.clone()) }).collect();
    // one value that is refused
    if k < 4 && w == 1 { items[1] = (leak(Sh::Tup(&[&Sh::Bool, &Sh::Map(&Sh::F64, &Sh::Unit)])), V::Seq(vec![V::Bool(true), V::Map(vec![(V::f64(1.5), V::Unit)])])) }
    let mut doc = vec![];
    if k >= 7 { for (s, v) in &items { if k < 10 { doc.push(b' '); doc.extend(jser_ok(ENCS[k - 7], s, v).unwrap_or_default()) } else { doc.extend(mser_ok(FLS[w % 3], s, v).unwrap_or_default()) } } }
    // the last value is cut off
    if k >= 7 && w == 2 { let n = doc.len(); doc.truncate(n - 1) }
    (items, doc)
}
fn x06(t: bool) -> Vec<Space> {
    // each operation alone, on a thread of its own
    let ops: Arc<Vec<Op>> = Arc::new(ops(t));
    let alone: Arc<Vec<(String, u32)>> = Arc::new((0..ops.len()).map(|i| { let o = ops.clone(); std::thread::spawn(move || (o[i].run(), o[i].events())).join().unwrap() }).collect());
    let n = ops.len();
    let mut v = vec![];
    let (o, a) = (ops.clone(), alone.clone());
    v.push(space("nested", format!("{n} operations (7 serializers, 4 decoders, skipping; complete, refused, malformed, cut, abandoned by a panic), every other one of them run at every point of each (a value's own code entered or left, a write to the sink), on the same thread or another one: both as when alone"), move |c| {
        let i = c.choose(n);
        let e = a[i].1;
        if e == 0 || matches!(o[i], Op::Panics(..)) { return Ok(()) }
        let at = 1 + c.choose(e as usize) as u32;
        let other = c.flag();
        let mut k = 0;
        for j in 0..n {
            // a thread costs; those start where the points and operations differ
            if other && (i + j + at as usize) % if t { 2 } else { 8 } != 0 { continue }
            let got: Rc<RefCell<Option<String>>> = Rc::default();
            let (g, ops2) = (got.clone(), o.clone());
            inj::plan(at, Box::new(move || *g.borrow_mut() = Some(if other { std::thread::spawn(move || ops2[j].run()).join().unwrap_or_default() } else { ops2[j].run() })));
            let r = o[i].run();
            inj::unplan();
            let inner = got.borrow_mut().take();
            k += 1;
            ensure!(inner.is_some(), "event {at} of {} is not reached the second time", o[i].brief());
            ensure!(r == a[i].0, "{} gives {r} instead of {} when interrupted at its event {at} by {}", o[i].brief(), a[i].0, o[j].brief());
            ensure!(inner.as_ref() == Some(&a[j].0), "{} gives {} instead of {} when run at event {at} of {}", o[j].brief(), inner.unwrap(), a[j].0, o[i].brief());
        }
        c.state(&(i, at, other));
        c.sample(|| format!("{} at event {at}", o[i].brief()));
        c.outcome(if other { "on another thread" } else { "on the same thread" });
        c.bulk(k);
        Ok(())
    }));
    let (o, a) = (ops.clone(), alone.clone());
    v.push(space("sequences", format!("every sequence of {} of the {n} operations: each as when alone", if t { 3 } else { 2 } + cfg!(not(debug_assertions)) as usize), move |c| {
        let mut idx = vec![c.choose(n)];
        for _ in 1..if t { 2 } else { 1 } + cfg!(not(debug_assertions)) as usize { idx.push(c.choose(n)) }
        for j in 0..n {
            idx.push(j);
            for &x in &idx { let r = o[x].run(); ensure!(r == a[x].0, "{} gives {r} instead of {} in the sequence {}", o[x].brief(), a[x].0, idx.iter().map(|x| o[*x].brief()).collect::<Vec<_>>().join("; ")) }
            idx.pop();
        }
        c.state(&idx);
        c.outcome("sequence");
        c.bulk(n as u64);
        Ok(())
    }));
    let (o, a) = (ops.clone(), alone.clone());
    let ns: &'static [usize] = if t { &[1, 8, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 65535, 65536, 65537, 300000] } else { &[1, 16, 32, 64, 127, 128, 129, 255, 256, 257, 1025] };
    v.push(space("repeats", format!("each of the {n} operations n times ({} numbers to {}), then every operation: each as when alone", ns.len(), ns[ns.len() - 1]), move |c| {
        let i = c.choose(n);
        let k = *c.pick(ns);
        for _ in 0..k { let r = o[i].run(); ensure!(r == a[i].0, "{} gives {r} instead of {} within {k} times", o[i].brief(), a[i].0) }
        for j in 0..n { let r = o[j].run(); ensure!(r == a[j].0, "{} gives {r} instead of {} after {k} times {}", o[j].brief(), a[j].0, o[i].brief()) }
        c.state(&(i, k));
        c.outcome("history");
        c.bulk((k + n) as u64);
        Ok(())
    }));
    let parts = if t { 3 } else { 2 };
    v.push(space("side-by-side", format!("{parts} of {CODECS} kinds of serializers and decoders, each kept over {STEPS} values of one of 3 streams (a value refused, a value cut off), every interleaving of their steps: each step as when alone"), move |c| {
        let ks: Vec<(usize, usize)> = (0..parts).map(|p| (c.choose(CODECS), if p < 2 { c.choose(3) } else { 0 })).collect();
        let st: Vec<(Vec<(S, V)>, Vec<u8>)> = ks.iter().map(|(k, w)| stream(*k, *w)).collect();
        let want: Vec<Vec<String>> = ks.iter().zip(&st).map(|((k, _), (items, doc))| { let mut d = doc.clone(); let mut x = Codec::new(*k, &mut d); items.iter().map(|(s, v)| x.step(s, v)).collect() }).collect();
        let mut orders: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..parts * STEPS { orders = orders.into_iter().flat_map(|o| (0..parts).filter_map(|p| (o.iter().filter(|x| **x == p).count() < STEPS).then(|| { let mut q = o.clone(); q.push(p); q })).collect::<Vec<_>>()).collect() }
        for o in &orders {
            let mut docs: Vec<Vec<u8>> = st.iter().map(|s| s.1.clone()).collect();
            let mut xs: Vec<Codec> = docs.iter_mut().zip(&ks).map(|(d, k)| Codec::new(k.0, d)).collect();
            let mut at = vec![0; parts];
            for &p in o {
                let (s, v) = &st[p].0[at[p]];
                let r = xs[p].step(s, v);
                ensure!(r == want[p][at[p]], "step {} of codec {p} (kind {}, stream {}) gives {r} instead of {} in the order {o:?} beside {ks:?}", at[p], ks[p].0, ks[p].1, want[p][at[p]]);
                at[p] += 1;
            }
        }
        c.state(&ks);
        c.sample(|| format!("{ks:?}"));
        c.outcome("interleavings");
        c.bulk(orders.len() as u64);
        Ok(())
    }));
    v
}
