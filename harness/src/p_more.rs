//! Properties across types, calls and entry points: sequential use (S02), errors of the values
//! themselves (S03), schema evolution (X02), equivalence of the public entry points (X03).
use crate::engine::*;
use crate::gen::*;
use crate::jref::{show, Dec, Enc, DECS, ENCS};
use crate::mref::{brief, hex, FLS};
use crate::p_json::{cat, Hinted};
use crate::run::*;
use crate::shape::*;
use crate::{ensure, fail};
use serde::de::DeserializeSeed;
use serde::Serialize;
use ser_write::{SerWrite, SliceWriter};
use ser_write_json as js;
use ser_write_msgpack as mp;
use std::sync::Arc;

pub fn spaces(prop: &str, t: bool) -> Vec<Space> {
    match prop { "S02" => s02(t), "S03" => s03(t), "X02" => x02(t), "X03" => x03(t), _ => vec![] }
}
/// the seven ways to serialize: four JSON encoders, three MessagePack flavours
pub fn ser7(m: usize, v: &(impl Serialize + ?Sized), s: &mut Sink) -> Result<Result<(), String>, Bad> {
    Ok(if m < 4 { jser_sink(ENCS[m], v, s)?.map_err(|e| format!("{e:?}")) } else { mser_sink(FLS[m - 4], v, s)?.map_err(|e| format!("{e:?}")) })
}
pub fn name7(m: usize) -> String { if m < 4 { format!("JSON {:?}", ENCS[m]) } else { format!("MessagePack {:?}", FLS[m - 4]) } }
pub fn text7(m: usize, b: &[u8]) -> String { if m < 4 { format!("`{}`", show(b)) } else { format!("[{}]", hex(b)) } }
/// a decoder matching what `m` produces (pass-through bytes have none)
fn dec7(m: usize, sh: S, doc: &[u8]) -> Result<Result<V, String>, Bad> {
    Ok(if m < 3 { jdec(sh, doc, [Dec::Nope, Dec::Hex, Dec::B64][m])?.res.map_err(|e| format!("{e:?}")) } else { mdec(sh, doc)?.res.map_err(|e| format!("{e:?}")) })
}
pub const SIX: [usize; 6] = [0, 1, 2, 4, 5, 6];
fn custom(kind: &str, msg: &str) -> String { if cfg!(feature = "heap") { format!("{kind}({msg:?})") } else { kind.to_string() } }

// ------------------------------------------------------------------ S02
#[derive(Clone, Debug)]
enum Item { Val(S, V), Hint(Option<usize>, usize, bool), Custom }
impl Serialize for Item {
    fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        match self {
            Item::Val(s, v) => SV(s, v).serialize(z),
            Item::Hint(h, n, m) => Hinted { map: *m, hint: *h, n: *n }.serialize(z),
            Item::Custom => { use serde::ser::{Error, SerializeSeq}; let mut q = z.serialize_seq(Some(3))?; q.serialize_element("x")?; Err(Z::Error::custom("no")) }
        }
    }
}
fn s02(t: bool) -> Vec<Space> {
    let st = wrap(7, U8S);
    let en = wrap(8, &Sh::Bytes);
    let items: Arc<Vec<Item>> = Arc::new(vec![
        Item::Val(&Sh::Bool, V::Bool(true)), Item::Val(&Sh::Str, V::s("a\"\n")), Item::Val(&Sh::Bytes, V::Bytes(vec![0x5c, 0xff])), Item::Val(&Sh::Disp, V::s("x|\\y|")),
        Item::Val(&Sh::Seq(&Sh::Opt(&Sh::Bool)), V::Seq(vec![V::None, V::Some(Box::new(V::Bool(false)))])), Item::Val(&Sh::Seq(&Sh::Unit), V::Seq(vec![])),
        Item::Val(&Sh::Map(&Sh::BStr, &Sh::Seq(&Sh::Unit)), V::Map(vec![(V::s("k"), V::Seq(vec![V::Unit])), (V::s(""), V::Seq(vec![]))])), Item::Val(&Sh::Map(&Sh::BStr, &Sh::Unit), V::Map(vec![])),
        Item::Val(st, V::Struct(vec![Some(V::Int(7)), Some(V::s("q")), None])), Item::Val(en, V::Var(3, Box::new(V::Struct(vec![Some(V::Bytes(vec![1])), Some(V::Bool(true))])))), Item::Val(en, V::Var(4, Box::new(V::Struct(vec![])))),
        Item::Val(&Sh::F64, V::f64(-0.5)),
        // refused by one or both formats, some after output has begun
        Item::Val(&Sh::Tup(&[&Sh::Bool, &Sh::Map(&Sh::F64, &Sh::Unit)]), V::Seq(vec![V::Bool(true), V::Map(vec![(V::f64(1.5), V::Unit)])])),
        Item::Val(&Sh::Map(&Sh::Seq(&Sh::Unit), &Sh::Unit), V::Map(vec![(V::Seq(vec![]), V::Unit)])),
        Item::Hint(None, 2, false), Item::Hint(Some(1), 2, true), Item::Hint(Some(3), 2, false), Item::Custom,
    ]);
    let k = if t { 5 } else { 4 };
    let n = items.len();
    let alone: Arc<Vec<Vec<(bool, Vec<u8>)>>> = Arc::new((0..7).map(|m| items.iter().map(|i| { let mut s = Sink::default(); let ok = ser7(m, i, &mut s).ok().is_some_and(|r| r.is_ok()); (ok, s.buf) }).collect()).collect());
    let (items2, alone2) = (items.clone(), alone.clone());
    vec![space("sequences", format!("every sequence of {k} operations out of: serializing one of {n} values (6 of them refused by a format), writing through the serializer's writer, taking the writer out and wrapping it again; 4 JSON and 3 MessagePack serializers, owned and borrowed writer"), move |c| {
        let m = c.choose(7);
        let by_ref = c.flag();
        let ops: Vec<usize> = (0..k).map(|_| c.choose(n + 2)).collect();
        if c.fresh() { c.state(&(m, by_ref, &ops)); }
        c.sample(|| format!("{} {ops:?}", name7(m)));
        let mut own = Sink::default();
        // runs the operations; the content of the sink and what each value reported
        macro_rules! drive { ($new:expr, $w:expr) => { imp(|| {
            let mut s = $new($w);
            let mut log = vec![];
            for &o in &ops {
                if o < n { log.push((items[o].serialize(&mut s).is_ok(), s.writer_ref().buf.len())) }
                else if o == n { let ok = s.writer().write(b"~|~").is_ok(); log.push((ok, s.writer_ref().buf.len())) }
                else { s = $new(s.into_inner()); log.push((true, s.writer_ref().buf.len())) }
            }
            let w = s.into_inner();
            (w.buf.clone(), log)
        })? } }
        macro_rules! both { ($new:expr) => { if by_ref { drive!($new, &mut own) } else { drive!($new, Sink::default()) } } }
        let (buf, log) = match m {
            0 => both!(js::ser::Serializer::<_, js::ser::ArrayByteEncoder>::new), 1 => both!(js::ser::Serializer::<_, js::ser::HexStrByteEncoder>::new),
            2 => both!(js::ser::Serializer::<_, js::ser::Base64ByteEncoder>::new), 3 => both!(js::ser::Serializer::<_, js::ser::PassThroughByteEncoder>::new),
            4 => both!(mp::ser::CompactSerializer::new), 5 => both!(mp::ser::StructMapIdxSerializer::new), _ => both!(mp::ser::StructMapStrSerializer::new),
        };
        let mut want = vec![];
        for (j, &o) in ops.iter().enumerate() {
            let mut ok = true;
            if o < n { let a = &alone[m][o]; ok = a.0; want.extend_from_slice(&a.1) } else if o == n { want.extend_from_slice(b"~|~") }
            c.outcome(if o >= n { "other" } else if ok { "value" } else { "refused value" });
            ensure!(log[j].0 == ok, "operation {j} of {ops:?} ({}): {:?} {} but {} alone", name7(m), items.get(o), if log[j].0 { "succeeds" } else { "fails" }, if ok { "succeeds" } else { "fails" });
            ensure!(log[j].1 == want.len() && buf.len() >= want.len() && buf[..want.len()] == want[..], "after operation {j} of {ops:?} ({}) the writer holds {}, want {}", name7(m), text7(m, &buf[..log[j].1.min(buf.len())]), text7(m, &want));
        }
        ensure!(buf == want, "after {ops:?} ({}) the writer holds {}, want {}", name7(m), text7(m, &buf), text7(m, &want));
        Ok(())
    }), {
        let (items, alone) = (items2, alone2);
        let ns: &'static [usize] = if t { &[1, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 1000, 1023, 1024, 1025, 4096, 32767, 32768, 65535, 65536, 65537, 70000, 1000000] } else { &[1, 16, 32, 64, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 32768, 65535, 65536, 65537] };
        space("long-histories", format!("one serializer used n times ({} numbers to {}) for one of {n} values (6 of them refused by a format), then once for every value, twice around: each as it serializes alone", ns.len(), ns[ns.len() - 1]), move |c| {
            let m = c.choose(7);
            let i = c.choose(n);
            let reps = *c.pick(ns);
            c.state(&(m, i, reps));
            c.sample(|| format!("{} {:?} {reps} times", name7(m), items[i]));
            let ops: Vec<usize> = std::iter::repeat_n(i, reps).chain(0..n).chain((0..n).rev()).collect();
            macro_rules! drive { ($new:expr) => { imp(|| -> Option<String> {
                let mut s = $new(Sink::default());
                for (x, &o) in ops.iter().enumerate() {
                    let ok = items[o].serialize(&mut s).is_ok();
                    let got = std::mem::take(&mut s.writer().buf);
                    let (wok, want) = &alone[m][o];
                    if ok != *wok || got != *want { return Some(format!("operation {x} ({:?}) {} and writes {}, alone it {} and writes {}", items[o], if ok { "succeeds" } else { "fails" }, text7(m, &got), if *wok { "succeeds" } else { "fails" }, text7(m, want))) }
                }
                None
            })? } }
            let bad = match m {
                0 => drive!(js::ser::Serializer::<_, js::ser::ArrayByteEncoder>::new), 1 => drive!(js::ser::Serializer::<_, js::ser::HexStrByteEncoder>::new),
                2 => drive!(js::ser::Serializer::<_, js::ser::Base64ByteEncoder>::new), 3 => drive!(js::ser::Serializer::<_, js::ser::PassThroughByteEncoder>::new),
                4 => drive!(mp::ser::CompactSerializer::new), 5 => drive!(mp::ser::StructMapIdxSerializer::new), _ => drive!(mp::ser::StructMapStrSerializer::new),
            };
            ensure!(bad.is_none(), "{} ({}, {:?} {reps} times, then each value)", bad.unwrap(), name7(m), items[i]);
            c.bulk(ops.len() as u64);
            c.outcome("history");
            Ok(())
        })
    }]
}

// ------------------------------------------------------------------ S03
fn s03_ser(c: &mut Ctx, sh: S, v: &V, m: usize) -> R {
    let mut full = Sink::default();
    inj::arm(0, false);
    let ok = ser7(m, &SV(sh, v), &mut full);
    let nodes = inj::disarm().0;
    let ok = ok?;
    for node in 1..=nodes { for after in [false, true] {
        let mut s = Sink::default();
        inj::arm(node, after);
        let r = ser7(m, &SV(sh, v), &mut s);
        let (_, fired, later, _) = inj::disarm();
        let cx = || format!("{} as {sh:?} ({}) with an error raised {} its node {node}", brief(v), name7(m), if after { "after" } else { "at" });
        let r = r?;
        if !fired { ensure!(ok.is_err(), "node {node} is not visited the second time: {}", cx()); ensure!(r == ok, "serialization gives {r:?}, then {ok:?}: {}", cx()); continue }
        c.outcome("serialization error raised");
        ensure!(r == Err(custom("SerializeError", &format!("injected#{node}"))), "serialization reports {r:?}: {}", cx());
        ensure!(s.after == 0 && later == 0, "{} more writes and {later} more values after the error: {}", s.after, cx());
        ensure!(full.buf.starts_with(&s.buf), "output {} is not a prefix of {}: {}", text7(m, &s.buf), text7(m, &full.buf), cx());
    } }
    c.bulk(2 * nodes as u64);
    Ok(())
}
/// `cuts`: also damaged texts (cut anywhere, cut and followed by a stray byte): damage after the point
/// where the error is raised must not hide the error
fn s03_de(c: &mut Ctx, sh: S, doc: &[u8], m: usize, cuts: bool) -> R {
    s03_de1(c, sh, doc, m)?;
    if !cuts { return Ok(()) }
    for n in 0..doc.len() {
        s03_de1(c, sh, &doc[..n], m)?;
        let mut d = doc[..=n].to_vec();
        for b in if m < 4 { *b"!]" } else { [0xc1, 0x7f] } { d[n] = b; s03_de1(c, sh, &d, m)?; }
    }
    Ok(())
}
fn s03_de1(c: &mut Ctx, sh: S, doc: &[u8], m: usize) -> R {
    inj::arm(0, false);
    let ok = dec7(m, sh, doc);
    let nodes = inj::disarm().0;
    let ok = ok?;
    for node in 1..=nodes { for after in [false, true] {
        inj::arm(node, after);
        let r = dec7(m, sh, doc);
        let (_, fired, later, _) = inj::disarm();
        let cx = || format!("decoding {} as {sh:?} with an error raised {} node {node}", text7(m, doc), if after { "after" } else { "at" });
        let r = r?;
        if !fired { ensure!(ok.is_err() && r == ok, "decoding gives {r:?}, then {ok:?}: {}", cx()); continue }
        c.outcome("decoding error raised");
        ensure!(r == Err(custom("DeserializeError", &format!("injected#{node}"))), "the error is reported as {r:?}: {}", cx());
        ensure!(later == 0, "{later} more values are decoded after the error: {}", cx());
    } }
    c.bulk(2 * nodes as u64);
    Ok(())
}
pub fn wide_cat(t: bool) -> Arc<Vec<S>> {
    if !t { return cat(true) }
    let mut v = catalog(3, &leaves(), crate::p_json::WRAPS);
    v.extend(keyed());
    Arc::new(v)
}
fn s03(t: bool) -> Vec<Space> {
    let shapes = wide_cat(t);
    let s2 = shapes.clone();
    let deep = crate::p_scale::chains(if t { 12 } else { 7 });
    let docs: Arc<Vec<(S, &'static [u8], bool)>> = Arc::new(vec![
        (&Sh::Any, br#"{"a":[1,{"b":null}],"c":"x","d":[[],{}]}"#, true), (&Sh::Any, br#" [ true , "a\n" , -1.5 , { } ] "#, true),
        (leak(Sh::Map(U8S, &Sh::Any)), br#"{"1":[1],"2":{"x":[2]}}"#, true), (leak(Sh::Map(&Sh::Bool, &Sh::Ign)), br#"{"true":[1],"false":{}}"#, true),
        (wrap(7, &Sh::Any), br#"{"zz":[{}],"cc":3,"a":[1,[2]],"b\"q":"t"}"#, true), (wrap(7, &Sh::Any), br#"[[1,[2]],"t",3]"#, true),
        (wrap(8, &Sh::Any), br#"{"Tu":[[1],2]}"#, true), (wrap(8, &Sh::Any), br#"{"St":[[1],true]}"#, true), (leak(Sh::Map(wrap(8, &Sh::Unit), &Sh::Unit)), br#"{"Un":null}"#, true),
        (&Sh::Any, &[0x82, 0xa1, b'a', 0x93, 1, 0xc0, 0x91, 0xca, 0, 0, 0, 0, 0x92, 1, 2, 0xc4, 1, 9], false), (leak(Sh::Map(&Sh::Any, &Sh::Any)), &[0x82, 0x91, 1, 0x80, 0xdd, 0, 0, 0, 1, 0xc3, 0xdf, 0, 0, 0, 1, 1, 2], false),
        (wrap(7, &Sh::Any), &[0x84, 9, 0x91, 1, 0, 0x92, 1, 2, 2, 3, 0xa3, b'b', b'"', b'q', 0xa1, b't'], false), (wrap(7, &Sh::Any), &[0x93, 0x91, 1, 0xa1, b't', 0xc0], false),
        (wrap(8, &Sh::Any), &[0x81, 2, 0x92, 0x91, 1, 2], false), (wrap(8, &Sh::Any), &[0x81, 0xa2, b'S', b't', 0x82, 0, 0x91, 1, 1, 0xc3], false),
    ]);
    vec![
        space("serialize", format!("{} shapes, all small values, a custom error at and after every node, 4 JSON and 3 MessagePack serializers", shapes.len()), move |c| {
            let i = c.choose(shapes.len());
            let v = gen(c, shapes[i], 0, 2);
            let m = c.choose(7);
            c.state(&(i, &v, m)); c.sample(|| format!("{v:?} {}", name7(m)));
            s03_ser(c, shapes[i], &v, m)
        }),
        space("deserialize", format!("{} shapes, all small values, a custom error at and after every node of decoding the serialized text (whole, and when short also damaged at every byte), 3 JSON and 3 MessagePack forms", s2.len()), move |c| {
            let i = c.choose(s2.len());
            let v = gen(c, s2[i], 0, 2);
            let m = *c.pick(&SIX);
            let mut s = Sink::default();
            ser7(m, &SV(s2[i], &v), &mut s)?.ok();
            c.state(&(i, &v, m)); c.sample(|| text7(m, &s.buf));
            s03_de(c, s2[i], &s.buf, m, s.buf.len() <= if t { 40 } else { 12 })
        }),
        space("documents", "self-describing, ignored and foreign forms of documents, whole and damaged at every byte, a custom error at and after every node, under every chain of two containers", move |c| {
            let (sh, doc, j) = docs[c.choose(docs.len())];
            let ws = c.num(0, 2);
            let (mut sh, mut doc) = (sh, doc.to_vec());
            for _ in 0..ws {
                let k = *c.pick(&[0usize, 1, 2, 5]);
                sh = crate::p_json::memo(sh, 900 + k, |s| wrap(k, s));
                if k == 2 { doc = if j { [b"[", &doc[..], b"]"].concat() } else { [&[0x91][..], &doc].concat() } }
                if k == 5 { doc = if j { [b"{\"k\":", &doc[..], b"}"].concat() } else { [&[0x81, 0xa1, b'k'][..], &doc].concat() } }
            }
            c.state(&(&doc, sh as *const Sh as usize));
            let m = if j { c.choose(3) } else { 4 };
            s03_de(c, sh, &doc, m, true)
        }),
        space("chains", "chains of two alternating containers, a custom error at and after every node, serializing and decoding", move |c| {
            let sh = deep[c.choose(deep.len())];
            let ev = c.choose(3);
            let v = crate::p_scale::line(sh, ev, 1);
            let m = c.choose(7);
            c.state(&(sh as *const Sh as usize, &v, m));
            s03_ser(c, sh, &v, m)?;
            if m == 3 { return Ok(()) }
            let mut s = Sink::default();
            if ser7(m, &SV(sh, &v), &mut s)?.is_err() { return Ok(()) }
            s03_de(c, sh, &s.buf, m, t)
        }),
    ]
}

// ------------------------------------------------------------------ X02
const FIELDS: [&str; 5] = ["a", "b\"q", "cc", "kluč", ""];
fn pools() -> Vec<[S; 5]> {
    vec![
        [U8S, leak(Sh::Opt(&Sh::BStr)), leak(Sh::Seq(wrap(5, leak(Sh::Seq(I32S))))), wrap(8, leak(Sh::Opt(&Sh::F64))), wrap(7, leak(Sh::Tup(leakv(vec![&Sh::Bytes as S, U8S]))))],
        [leak(Sh::Opt(leak(Sh::Seq(U8S)))), &Sh::Bytes, leak(Sh::Opt(wrap(6, &Sh::Char))), leak(Sh::TupS(leakv(vec![&Sh::Bool as S, leak(Sh::Int(IT::I64)), &Sh::BStr]))), leak(Sh::Opt(&Sh::F32))],
        [&Sh::Disp, &Sh::ByteBuf, leak(Sh::Opt(&Sh::Bool)), &Sh::UnitStruct, leak(Sh::Opt(wrap(8, wrap(7, &Sh::Char))))],
    ]
}
/// three values of a shape: first, middle and last of the small ones
fn three(sh: S) -> Vec<V> {
    let all: &'static std::sync::Mutex<Vec<V>> = Box::leak(Box::new(std::sync::Mutex::new(vec![])));
    explore_inline(&space("v", "", move |c| { let x = gen(c, sh, 0, 2); all.lock().unwrap().push(x); Ok(()) }));
    let v = all.lock().unwrap();
    vec![v[v.len() - 1].clone(), v[v.len() / 2].clone(), v[0].clone()]
}
/// ordered selections of up to `k` of 5 fields
fn selections(k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..k {
        last = last.iter().flat_map(|s: &Vec<usize>| (0..5).filter(|i| !s.contains(i)).map(|i| [&s[..], &[i]].concat()).collect::<Vec<_>>()).collect();
        out.extend(last.iter().cloned());
    }
    out
}
const CTX: usize = 7;
/// the record in a context; `inside` tells what the record's content is (struct) and how to place it
fn place(k: usize, names: &'static [&'static str], shapes: &'static [S]) -> S {
    let st: S = leak(Sh::Struct(leak(SD { name: "R", fields: names, shapes })));
    match k {
        0 => st,
        1 => leak(Sh::Seq(st)),
        2 => leak(Sh::Map(&Sh::BStr, st)),
        3 => leak(Sh::Tup(leakv(vec![leak(Sh::Enum(leak(ED { name: "E", names: &["Z", "R"], vars: leakv(vec![Var::Unit, Var::Struct(names, shapes)]) }))) as S, U8S]))),
        4 => leak(Sh::Enum(leak(ED { name: "E", names: &["R", "Z"], vars: leakv(vec![Var::New(st), Var::Unit]) }))),
        5 => leak(Sh::TupS(leakv(vec![&Sh::BStr as S, st, U8S]))),
        _ => leak(Sh::Opt(leak(Sh::New(st)))),
    }
}
fn place_value(k: usize, v: V, w: V) -> V {
    match k {
        0 => v,
        1 => V::Seq(vec![v, w]),
        2 => V::Map(vec![(V::s("k"), v), (V::s("l"), w)]),
        3 => V::Seq(vec![V::Var(1, Box::new(v)), V::Int(9)]),
        4 => V::Var(0, Box::new(v)),
        5 => V::Seq(vec![V::s("h"), v, V::Int(9)]),
        _ => V::Some(Box::new(V::New(Box::new(v)))),
    }
}
fn evolve(c: &mut Ctx, m: usize, wsh: S, rsh: S, wv: &V, want: Option<&V>) -> R {
    let mut s = Sink::default();
    if let Err(e) = ser7(m, &SV(wsh, wv), &mut s)? { fail!("serializing {} as {wsh:?} failed: {e}", brief(wv)) }
    let got = dec7(m, rsh, &s.buf)?;
    let cx = || format!("{} written as {wsh:?} in {} and read as {rsh:?}", text7(m, &s.buf), name7(m));
    match want {
        Some(w) => { c.outcome("read"); let w = canon(rsh, w, m < 4); ensure!(matches!(&got, Ok(g) if veq(&w, g, m < 4)), "{} gives {got:?}, want {w:?}", cx()) }
        None => { c.outcome("refused"); ensure!(matches!(&got, Err(e) if e.starts_with("DeserializeError")), "{} gives {got:?}, want the reader's own error", cx()) }
    }
    Ok(())
}
fn x02(t: bool) -> Vec<Space> {
    struct P { shapes: [S; 5], vals: Vec<Vec<V>> }
    let ps: Arc<Vec<P>> = Arc::new(pools().into_iter().map(|p| P { shapes: p, vals: p.iter().map(|s| three(s)).collect() }).collect());
    let kmax = if t { 4 } else { 3 };
    let sel = Arc::new(selections(kmax));
    // types[pool][selection][context]
    let types: Arc<Vec<Vec<Vec<S>>>> = Arc::new(ps.iter().map(|p| sel.iter().map(|s| {
        let (names, shapes) = (leakv(s.iter().map(|i| FIELDS[*i]).collect()), leakv(s.iter().map(|i| p.shapes[*i]).collect()));
        (0..CTX).map(|k| place(k, names, shapes)).collect()
    }).collect()).collect());
    let (ps2, sel2) = (ps.clone(), sel.clone());
    let content = |p: &P, s: &[usize], j: usize| V::Struct(s.iter().map(|i| Some(p.vals[*i][(j + i) % 3].clone())).collect());
    // what a reader with fields `r` makes of a record written with fields `w`
    let project = |p: &P, w: &[usize], r: &[usize], j: usize| -> Option<V> {
        r.iter().map(|i| if w.contains(i) { Some(Some(p.vals[*i][(j + i) % 3].clone())) } else if matches!(p.shapes[*i], Sh::Opt(_)) { Some(Some(V::None)) } else { None }).collect::<Option<Vec<_>>>().map(V::Struct)
    };
    let mut v = vec![space("named", format!("every ordered selection of up to {kmax} of 5 fields as the writer's type times every such selection as the reader's, 3 pools of field types, 3 value sets, {CTX} contexts, 3 JSON and the named MessagePack form"), move |c| {
        let pi = c.choose(ps2.len());
        let (wi, ri) = (c.choose(sel2.len()), c.choose(sel2.len()));
        let k = c.choose(CTX);
        let j = c.choose(3);
        let m = *c.pick(&[0usize, 1, 2, 6]);
        if c.fresh() { c.state(&(pi, wi, ri, k, j, m)); }
        c.sample(|| format!("{:?} -> {:?} context {k} {}", sel2[wi], sel2[ri], name7(m)));
        let (p, w, r) = (&ps2[pi], &sel2[wi], &sel2[ri]);
        let want = match (project(p, w, r, j), project(p, w, r, j + 1)) { (Some(a), Some(b)) => Some(place_value(k, a, b)), _ => None };
        evolve(c, m, types[pi][wi][k], types[pi][ri][k], &place_value(k, content(p, w, j), content(p, w, j + 1)), want.as_ref())
    })];
    // index flavour: fields appended or dropped at the end, also across header widths
    let sizes: &'static [usize] = if t { &[0, 1, 2, 3, 4, 5, 14, 15, 16, 17, 31, 32, 33, 127, 128, 129, 130, 255, 256, 257, 300] } else { &[0, 1, 2, 3, 4, 5, 15, 16, 17, 127, 128, 129, 255, 256, 257] };
    let ps3 = ps.clone();
    let wide: Arc<Vec<Vec<Vec<S>>>> = Arc::new(ps.iter().map(|p| sizes.iter().map(|&n| {
        let (names, shapes) = (leakv((0..n).map(|i| &*Box::leak(format!("f{i}").into_boxed_str())).collect()), leakv((0..n).map(|i| p.shapes[i % 5]).collect()));
        (0..CTX).map(|k| place(k, names, shapes)).collect()
    }).collect()).collect());
    v.push(space("appended", format!("records of n fields read as records of m fields for n, m in {sizes:?}, 3 pools, 3 value sets, {CTX} contexts, 3 JSON, index and named MessagePack forms"), move |c| {
        let pi = c.choose(ps3.len());
        let (wi, ri) = (c.choose(sizes.len()), c.choose(sizes.len()));
        let k = c.choose(CTX);
        let j = c.choose(3);
        let m = *c.pick(&[0usize, 1, 2, 5, 6]);
        if c.fresh() { c.state(&(pi, wi, ri, k, j, m)); }
        c.sample(|| format!("{} -> {} fields, context {k} {}", sizes[wi], sizes[ri], name7(m)));
        let p = &ps3[pi];
        let rec = |n: usize, have: usize, j: usize| -> Option<V> { (0..n).map(|i| if i < have { Some(Some(p.vals[i % 5][(j + i) % 3].clone())) } else if matches!(p.shapes[i % 5], Sh::Opt(_)) { Some(Some(V::None)) } else { None }).collect::<Option<Vec<_>>>().map(V::Struct) };
        let (wn, rn) = (sizes[wi], sizes[ri]);
        let w = place_value(k, rec(wn, wn, j).unwrap(), rec(wn, wn, j + 1).unwrap());
        let want = match (rec(rn, wn, j), rec(rn, wn, j + 1)) { (Some(a), Some(b)) => Some(place_value(k, a, b)), _ => None };
        evolve(c, m, wide[pi][wi][k], wide[pi][ri][k], &w, want.as_ref())
    }));
    // enums
    let vs = ["Un", "Ne\\w", "Tu", "St", "Ze"];
    let order = Arc::new(selections(3));
    fn en(s: &[usize], vs: &[&'static str; 5]) -> &'static ED {
        let var = |i: usize| match i { 0 => Var::Unit, 1 => Var::New(&Sh::Bytes), 2 => Var::Tup(&[U8S, &Sh::BStr]), 3 => Var::Struct(&["x", "yé"], &[&Sh::Opt(&Sh::Bool), &Sh::Char]), _ => Var::Struct(&[], &[]) };
        leak(ED { name: "E", names: leakv(s.iter().map(|i| vs[*i]).collect()), vars: leakv(s.iter().map(|i| var(*i)).collect()) })
    }
    fn eplace(k: usize, d: &'static ED) -> S {
        let e: S = leak(Sh::Enum(d));
        match k { 0 => e, 1 => leak(Sh::Seq(e)), 2 => leak(Sh::Map(&Sh::BStr, e)), 3 => leak(Sh::Tup(leakv(vec![e, U8S]))), 4 => leak(Sh::Opt(e)), _ => wrap(7, e) }
    }
    fn eplace_value(k: usize, v: V) -> V {
        match k { 0 => v, 1 => V::Seq(vec![v.clone(), v]), 2 => V::Map(vec![(V::s("k"), v.clone()), (V::s("l"), v)]), 3 => V::Seq(vec![v, V::Int(9)]), 4 => V::Some(Box::new(v)), _ => V::Struct(vec![Some(v), Some(V::s("s")), Some(V::None)]) }
    }
    let content = |i: usize| match i { 0 => V::Unit, 1 => V::Bytes(vec![0x22, 0xff]), 2 => V::Seq(vec![V::Int(5), V::s("\\")]), 3 => V::Struct(vec![Some(V::Some(Box::new(V::Bool(false)))), Some(V::Char('"'))]), _ => V::Struct(vec![]) };
    let ets: Arc<Vec<Vec<S>>> = Arc::new(order.iter().map(|s| { let d = en(s, &vs); (0..6).map(|k| eplace(k, d)).collect() }).collect());
    let pre: Arc<Vec<Vec<S>>> = Arc::new((0..=5).map(|n| { let d = en(&[0, 1, 2, 3, 4][..n], &vs); (0..6).map(|k| eplace(k, d)).collect() }).collect());
    v.push(space("variants", "enums with every ordered selection of up to 3 of 5 variants as writer and as reader, every variant written, 6 contexts, 3 JSON and the named MessagePack form", move |c| {
        let (wi, ri) = (c.choose(order.len()), c.choose(order.len()));
        if order[wi].is_empty() { return Ok(()) }
        let x = c.choose(order[wi].len());
        let k = c.choose(6);
        let m = *c.pick(&[0usize, 1, 2, 6]);
        if c.fresh() { c.state(&(wi, ri, x, k, m)); }
        let i = order[wi][x];
        let want = order[ri].iter().position(|y| *y == i).map(|y| eplace_value(k, V::Var(y, Box::new(content(i)))));
        evolve(c, m, ets[wi][k], ets[ri][k], &eplace_value(k, V::Var(x, Box::new(content(i)))), want.as_ref())
    }));
    v.push(space("appended-variants", "enums of n variants read as enums of m variants, every variant written, 6 contexts, all 6 forms", move |c| {
        let (wn, rn) = (c.num(1, 5), c.num(0, 5));
        let x = c.choose(wn);
        let k = c.choose(6);
        let m = *c.pick(&SIX);
        if c.fresh() { c.state(&(wn, rn, x, k, m)); }
        let v = eplace_value(k, V::Var(x, Box::new(content(x))));
        evolve(c, m, pre[wn][k], pre[rn][k], &v, if x < rn { Some(&v) } else { None })
    }));
    // names that resemble something else: numbers, literals, each other
    let mut odd: Vec<&'static str> = vec!["0", "1", "2", "00", "-1", "1e0", "true", "null", "", " ", "a", "A", "a ", " a", "a\0", "\"", "\\", "\\u0061", "é", "e\u{301}", "[", "}", "\u{feff}a", "type"];
    for n in [8usize, 15, 16, 31, 32, 64, 255, 256] { for e in ["", "x", "y"] { odd.push(Box::leak(format!("{}{e}", "p".repeat(n)).into_boxed_str())) } }
    for n in [15usize, 31, 255] { odd.push(Box::leak(format!("q{}", "p".repeat(n)).into_boxed_str())) }
    let short = 24;
    let odd: &'static [&'static str] = leakv(odd);
    let opt: S = leak(Sh::Opt(U8S));
    let no = odd.len();
    // [form][i * no + j]: records of fields i and j, enums of variants i and j
    let both = |f: &dyn Fn(&'static [&'static str]) -> S| -> Vec<S> { (0..no * no).map(|x| f(leakv(if x / no == x % no { vec![odd[x % no]] } else { vec![odd[x / no], odd[x % no]] }))).collect() };
    let two = |s: S, n: &[&str]| -> &'static [S] { leakv(vec![s; n.len()]) };
    let recs = Arc::new(both(&|n| leak(Sh::Seq(leak(Sh::Struct(leak(SD { name: "R", fields: n, shapes: two(opt, n) })))))));
    let ens = Arc::new(both(&|n| leak(Sh::Seq(leak(Sh::Enum(leak(ED { name: "E", names: n, vars: leakv(n.iter().map(|_| Var::Unit).collect()) })))))));
    let cont = Arc::new(both(&|n| leak(Sh::Seq(leak(Sh::Enum(leak(ED { name: "E", names: n, vars: leakv(n.iter().map(|_| Var::New(U8S)).collect()) })))))));
    v.push(space("odd-names", format!("records of every two, and enums of every one, of {no} names that resemble numbers, literals or each other, read by records and enums of every two of them (of the first {short} and of the rest), JSON and the named MessagePack form"), move |c| {
        let g = c.flag();
        let name = |c: &mut Ctx| if g { c.choose(short) } else { short + c.choose(no - short) };
        let (w0, w1, r0, r1) = (name(c), name(c), name(c), name(c));
        if c.fresh() { c.state(&(w0, w1, r0, r1)); }
        let r = r0 * no + r1;
        let (w, names) = (if w0 == w1 { vec![w0] } else { vec![w0, w1] }, if r0 == r1 { vec![r0] } else { vec![r0, r1] });
        let item = |i: usize, z: i128| V::Struct(w.iter().enumerate().map(|(k, _)| Some(V::Some(Box::new(V::Int((i * 10 + k) as i128 + z))))).collect());
        let back = |i: usize, z: i128| V::Struct(names.iter().map(|n| Some(match w.iter().position(|x| x == n) { Some(k) => V::Some(Box::new(V::Int((i * 10 + k) as i128 + z))), None => V::None })).collect());
        for m in [0usize, 6] {
            evolve(c, m, recs[w0 * no + w1], recs[r], &V::Seq(vec![item(0, 1), item(1, 1)]), Some(&V::Seq(vec![back(0, 1), back(1, 1)])))?;
            if w0 != w1 { continue }
            let x = names.iter().position(|n| *n == w0);
            let of = |i: usize, v: V| V::Seq(vec![V::Var(i, Box::new(v.clone())), V::Var(i, Box::new(v))]);
            evolve(c, m, ens[w0 * no + w0], ens[r], &of(0, V::Unit), x.map(|i| of(i, V::Unit)).as_ref())?;
            evolve(c, m, cont[w0 * no + w0], cont[r], &of(0, V::Int(5)), x.map(|i| of(i, V::Int(5))).as_ref())?;
        }
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------ X03
#[derive(Clone, Copy)]
struct Own;
impl js::ser::ByteEncoder for Own {
    fn serialize_bytes<'a, W: SerWrite>(ser: &'a mut js::ser::Serializer<W, Self>, v: &[u8]) -> js::ser::Result<(), W::Error>
        where &'a mut js::ser::Serializer<W, Self>: serde::Serializer<Ok = (), Error = js::ser::Error<W::Error>>
    {
        // even lengths through the writer, odd ones through the serializer's own helper
        if v.len() % 2 == 0 { ser.writer().write(b"<")?; for b in v { ser.writer().write_byte(b'a' + b % 26)? } ser.writer().write_str(">")?; Ok(()) } else { ser.serialize_bytes_as_hex_str(v) }
    }
}
/// what `Own` must produce: the array form with every byte array replaced
fn own_text(v: &[u8]) -> Vec<u8> {
    if v.len() % 2 == 0 { let mut o = vec![b'<']; o.extend(v.iter().map(|b| b'a' + b % 26)); o.push(b'>'); o }
    else { v.iter().map(|b| format!("{b:02X}")).collect::<String>().into_bytes() }
}
fn x03_ser(sh: S, v: &V) -> R {
    let x = SV(sh, v);
    let disp = has(sh, &|s| matches!(s, Sh::Disp));
    for m in 0..7 {
        let mut s = Sink::default();
        inj::arm(0, false);
        let r = ser7(m, &x, &mut s);
        let mask = inj::disarm().3;
        let r = r?;
        ensure!(mask == if m < 4 { 2 } else { 1 }, "{}: is_human_readable is {} somewhere in {v:?} as {sh:?}", name7(m), if mask == 3 { "inconsistent" } else { "wrong" });
        let want = r.map(|_| s.buf).map_err(|e| e.split('(').next().unwrap().to_string());
        let cx = || format!("of {} as {sh:?} ({})", brief(v), name7(m));
        // the serializer types by hand
        macro_rules! hand { ($ser:expr) => { imp(|| { let mut b = Sink::default(); let r = x.serialize(&mut $ser(&mut b)); r.map(|_| b.buf).map_err(|e| kind(&e)) })? } }
        use js::ser as j;
        let h = match m { 0 => hand!(j::Serializer::<_, j::ArrayByteEncoder>::new), 1 => hand!(j::Serializer::<_, j::HexStrByteEncoder>::new), 2 => hand!(j::Serializer::<_, j::Base64ByteEncoder>::new), 3 => hand!(j::Serializer::<_, j::PassThroughByteEncoder>::new),
            4 => hand!(mp::ser::CompactSerializer::new), 5 => hand!(mp::ser::StructMapIdxSerializer::new), _ => hand!(mp::ser::StructMapStrSerializer::new) };
        ensure!(h == want, "the serializer type gives {h:?} instead of {want:?} {}", cx());
        if m < 4 {
            macro_rules! gener { ($b:ty) => { imp(|| { let mut b = Sink::default(); let r = js::to_writer_with_encoder::<$b, _, _>(&mut b, &x); r.map(|_| b.buf).map_err(|e| kind(&e)) })? } }
            let g = match m { 0 => gener!(j::ArrayByteEncoder), 1 => gener!(j::HexStrByteEncoder), 2 => gener!(j::Base64ByteEncoder), _ => gener!(j::PassThroughByteEncoder) };
            ensure!(g == want, "to_writer_with_encoder gives {g:?} instead of {want:?} {}", cx());
        }
        #[cfg(feature = "heap")]
        {
            let t: Result<Vec<u8>, String> = imp(|| match m {
                0 => js::to_string(&x).map(|s| s.into_bytes()).map_err(|e| kind(&e)), 1 => js::to_string_hex_bytes(&x).map(|s| s.into_bytes()).map_err(|e| kind(&e)),
                2 => js::to_string_base64_bytes(&x).map(|s| s.into_bytes()).map_err(|e| kind(&e)), 3 => js::to_string_pass_bytes(&x).map(|s| s.into_bytes()).map_err(|e| kind(&e)),
                4 => mp::to_vec_compact(&x).map_err(|e| kind(&e)), 5 => mp::to_vec(&x).map_err(|e| kind(&e)), _ => mp::to_vec_named(&x).map_err(|e| kind(&e)),
            })?;
            let w = match &want { Ok(b) if m == 3 && std::str::from_utf8(b).is_err() => Err("Utf8Encode".to_string()), w => w.clone() };
            ensure!(t == w, "to_string/to_vec gives {t:?} instead of {w:?} {}", cx());
            if let Ok(b) = &t { if m < 4 { ensure!(std::str::from_utf8(b).is_ok(), "the returned String is not UTF-8 {}", cx()) } }
        }
        macro_rules! into { ($w:expr) => { if m < 4 { jser_to(ENCS[m], $w, &x).map_err(|e| kind(&e)) } else { mser_to(FLS[m - 4], $w, &x).map_err(|e| kind(&e)) } } }
        #[cfg(feature = "heap")]
        {
            let mut d: std::collections::VecDeque<u8> = [1, 2, 3].into_iter().collect();
            d.rotate_left(2); d.truncate(1);
            let r = imp(|| into!(&mut d))?;
            let d: Vec<u8> = d.into_iter().collect();
            ensure!(r.is_ok() == want.is_ok() && d[0] == 3 && want.as_ref().map_or(true, |w| d[1..] == w[..]), "serializing into a VecDeque gives {r:?} and {} {}", text7(m, &d), cx());
        }
        if let Ok(w) = &want {
            for (cap, ok) in [(w.len(), true), (w.len() + 1, true), (w.len().saturating_sub(1), w.is_empty())] {
                let mut g = Guard::new(&vec![0xEE; cap]);
                let (r, n) = { let mut sw = SliceWriter::new(g.doc()); let mut rw = &mut sw; let r = imp(|| into!(&mut rw))?; (r, sw.len) };
                g.check()?;
                ensure!(if ok { r.is_ok() } else { r == Err("Writer".into()) || disp && r == Err("FormatError".into()) }, "serializing into {cap} bytes gives {r:?} {}", cx());
                ensure!(!ok || n == w.len() && g.doc()[..n] == w[..], "serializing into {cap} bytes leaves {} {}", text7(m, &g.doc()[..n]), cx());
            }
        }
    }
    // a byte encoder of the caller
    let own = imp(|| { let mut s = Sink::default(); let r = js::to_writer_with_encoder::<Own, _, _>(&mut s, &x); r.map(|_| s.buf).map_err(|e| kind(&e)) })?;
    let expect = jser(Enc::Pass, &SV(sh, &map_b(v)))?;
    ensure!(own == expect, "a custom byte encoder gives {:?} instead of {:?} for {v:?} as {sh:?}", own.map(|b| show(&b)), expect.map(|b| show(&b)));
    Ok(())
}
fn map_b(v: &V) -> V {
    match v {
        V::Bytes(b) => V::Bytes(own_text(b)),
        V::Some(x) => V::Some(Box::new(map_b(x))), V::New(x) => V::New(Box::new(map_b(x))), V::Var(i, x) => V::Var(*i, Box::new(map_b(x))),
        V::Seq(x) => V::Seq(x.iter().map(map_b).collect()), V::Map(m) => V::Map(m.iter().map(|(a, b)| (a.clone(), map_b(b))).collect()),
        V::Struct(f) => V::Struct(f.iter().map(|x| x.as_ref().map(map_b)).collect()),
        v => v.clone(),
    }
}
/// every public way to decode a document agrees, and says the same about human readability
fn x03_de(sh: S, doc: &[u8], m: usize) -> R {
    let cx = || format!("decoding {} as {sh:?} ({})", text7(m, doc), name7(m));
    if m < 3 {
        let d = DECS[m];
        inj::arm(0, false);
        let base = jdec(sh, doc, d);
        let mask = inj::disarm().3;
        let base = base?.res;
        ensure!(mask == 2, "is_human_readable is {} {}", if mask == 3 { "inconsistent" } else { "wrong" }, cx());
        use js::de as j;
        macro_rules! gener { ($p:ty) => { jdec_with(sh, doc, d, |b| js::from_mut_slice_with_decoder::<$p, Dyn>(b).map(|d| d.0))?.res } }
        let g = match d { Dec::Nope => gener!(j::StringByteNopeDecoder), Dec::Hex => gener!(j::StringByteHexDecoder), Dec::B64 => gener!(j::StringByteBase64Decoder) };
        ensure!(g == base, "from_mut_slice_with_decoder gives {g:?} instead of {base:?} {}", cx());
        macro_rules! hand { ($ty:ident) => { jdec_with(sh, doc, d, |b| { let mut de = j::$ty::from_mut_slice(b); let x: Dyn = serde::Deserialize::deserialize(&mut de)?; de.end()?; Ok(x.0) })?.res } }
        let h = match d { Dec::Nope => hand!(DeserializerNopeByteStr), Dec::Hex => hand!(DeserializerHexByteStr), Dec::B64 => hand!(DeserializerBase64ByteStr) };
        ensure!(h == base, "the deserializer type gives {h:?} instead of {base:?} {}", cx());
    } else {
        inj::arm(0, false);
        let base = mdec(sh, doc);
        let mask = inj::disarm().3;
        let base = base?;
        let (used, base) = (base.used, base.res);
        ensure!(mask == 1, "is_human_readable is {} {}", if mask == 3 { "inconsistent" } else { "wrong" }, cx());
        set_shape(sh);
        let t = imp(|| mp::from_slice_split_tail::<Dyn>(doc).map(|(d, t)| (d.0, doc.len() - t.len(), t.as_ptr() as usize)))?;
        match (&base, &t) {
            (Ok(v), Ok((w, n, at))) => ensure!(v == w && *n == used && *at == doc.as_ptr() as usize + used, "from_slice_split_tail gives {w:?} and a tail from {n}, from_slice {v:?} and {used} {}", cx()),
            (Err(a), Err(b)) => ensure!(a == b, "from_slice_split_tail fails with {b:?}, from_slice with {a:?} {}", cx()),
            _ => fail!("from_slice_split_tail gives {t:?}, from_slice {base:?} {}", cx()),
        }
        let h = imp(|| { let rec = Rec::default(); let mut de = mp::de::Deserializer::from_slice(doc); let x = Sd(sh, &rec).deserialize(&mut de)?; Ok::<_, mp::de::Error>((x, de.end()?)) })?;
        ensure!(match (&base, &h) { (Ok(v), Ok((w, n))) => v == w && used + *n == doc.len(), (Err(a), Err(b)) => a == b, _ => false }, "the deserializer type gives {h:?}, from_slice {base:?} and {used} {}", cx());
    }
    Ok(())
}
fn x03(t: bool) -> Vec<Space> {
    let shapes = wide_cat(t);
    let s2 = shapes.clone();
    let utf: &'static [u8] = &[b'a', 0x7f, 0x80, 0xbf, 0xc0, 0xc2, 0xc3, 0xdf, 0xe0, 0xa0, 0xe2, 0xed, 0xef, 0xf0, 0x90, 0xf4, 0x8f, 0xf5, 0xff];
    let mut v = vec![
        space("serializing", format!("{} shapes, all small values: every serializing function, type and 5 kinds of sink, a custom byte encoder, is_human_readable at every node", shapes.len()), move |c| {
            let i = c.choose(shapes.len());
            let v = gen(c, shapes[i], (i < 220) as usize, 2);
            c.state(&(i, &v)); c.sample(|| format!("{v:?}"));
            c.bulk(45);
            x03_ser(shapes[i], &v)
        }),
        space("decoding", format!("{} shapes, all small values: whole, every truncation and two wrong types through every decoding function and type, is_human_readable at every node", s2.len()), move |c| {
            let i = c.choose(s2.len());
            let v = gen(c, s2[i], 0, 2);
            let m = *c.pick(&SIX);
            let mut s = Sink::default();
            if ser7(m, &SV(s2[i], &v), &mut s)?.is_err() { return Ok(()) }
            c.state(&(i, &v, m)); c.sample(|| text7(m, &s.buf));
            for cut in 0..=s.buf.len() { x03_de(s2[i], &s.buf[..cut], m)? }
            c.bulk(s.buf.len() as u64);
            for w in [&Sh::Any as S, &Sh::Ign, s2[(i * 13 + 5) % s2.len()]] { x03_de(w, &s.buf, m)? }
            let mut more = s.buf.clone();
            for tail in [&b" "[..], b"x", b"\x01\x02", b"]"] { more.truncate(s.buf.len()); more.extend_from_slice(tail); x03_de(s2[i], &more, m)? }
            Ok(())
        }),
    ];
    #[cfg(feature = "heap")]
    v.push(space("pass-through text", "every byte string of up to 2 bytes and every string of 3 and 4 of 19 bytes at the borders of UTF-8, alone, in a sequence and as a struct field: a String is returned exactly when it is UTF-8", move |c| {
        let n = c.num(0, 4);
        let b: Vec<u8> = if n <= 2 { (0..n).map(|_| c.choose(256) as u8).collect() } else { (0..n).map(|_| *c.pick(utf)).collect() };
        let k = c.choose(3);
        if c.fresh() { c.state(&(&b, k)); }
        let x = V::Bytes(b.clone());
        let (sh, v): (S, V) = match k { 0 => (&Sh::Bytes, x), 1 => (&Sh::Seq(&Sh::Bytes), V::Seq(vec![x.clone(), x])), _ => (&Sh::Tup(&[&Sh::BStr, &Sh::Map(&Sh::BStr, &Sh::Bytes)]), V::Seq(vec![V::s("é"), V::Map(vec![(V::s("é"), x)])])) };
        let r = imp(|| js::to_string_pass_bytes(&SV(sh, &v)).map_err(|e| kind(&e)))?;
        let raw = match jser(Enc::Pass, &SV(sh, &v))? { Ok(r) => r, Err(e) => fail!("serializing {v:?} failed: {e}") };
        match String::from_utf8(raw) {
            Ok(s) => { c.outcome("UTF-8"); ensure!(r.as_deref() == Ok(&s), "to_string_pass_bytes of {v:?} gives {r:?}, want {s:?}") }
            Err(_) => { c.outcome("not UTF-8"); ensure!(r.as_ref().err().is_some_and(|e| e == "Utf8Encode"), "to_string_pass_bytes of {v:?} gives {:?}, want Utf8Encode", r.map(|s| s.into_bytes())) }
        }
        Ok(())
    }));
    v
}
