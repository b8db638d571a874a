//! Properties of the interface as a whole: sequential decoding of JSON (J16), independence from
//! dynamic memory (X04), the documented meaning of errors (E01).
use crate::engine::*;
use crate::gen::*;
use crate::jref::{self, show, Dec, DECS, E};
use crate::mref::brief;
use crate::run::*;
use crate::shape::*;
use crate::{ensure, fail, mem};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use ser_write::SliceWriter;
use ser_write_json as js;
use ser_write_msgpack as mp;
use std::fmt;
use std::sync::Arc;

pub fn spaces(prop: &str, t: bool) -> Vec<Space> {
    match prop { "J16" => j16(t), "X04" => x04(t), "X05" => x05(t), "J06" => partial(true), "M03" => partial(false), "J03" => wide_ser(true), "M01" => wide_ser(false), "J08" => wide_de(true), "M04" => wide_de(false), _ => vec![] }
}

// ------------------------------------------------------------------ J16
/// Decode `shapes` one after another from one deserializer and compare with the reference reading
/// the same text; borrowed values of every item are checked at the end.
pub fn stream(c: &mut Ctx, doc: &[u8], shapes: &[S], dec: Dec) -> R {
    let mut g = Guard::new(doc);
    let n = doc.len();
    macro_rules! drive { ($ty:ident) => { imp(|| {
        let rec = Rec::default();
        let mut de = js::de::$ty::from_mut_slice(g.doc());
        let mut log: Vec<(Result<V, js::de::Error>, usize, bool)> = vec![];
        for sh in shapes {
            let r = Sd(sh, &rec).deserialize(&mut de);
            let stop = r.is_err();
            let left = de.remaining_len();
            // what is not parsed yet must still read as it was given
            let same = stop || left > n || match de.input_mut() { Ok(rest) => *rest == doc[n - left..], Err(_) => left == 0 };
            log.push((r, left, same));
            if stop { break }
        }
        let end = if log.len() == shapes.len() && log.last().is_none_or(|l| l.0.is_ok()) { Some(de.end()) } else { None };
        put_lent(&rec);
        (log, end)
    }) } }
    let cx = || format!("decoding `{}` as {shapes:?} one after another ({dec:?})", show(doc));
    let (log, end) = match dec { Dec::Nope => drive!(DeserializerNopeByteStr), Dec::Hex => drive!(DeserializerHexByteStr), Dec::B64 => drive!(DeserializerBase64ByteStr) }.map_err(|b| Bad { msg: format!("{} {}", b.msg, cx()), key: b.key })?;
    g.check().map_err(|b| Bad { msg: format!("{} {}", b.msg, cx()), key: b.key })?;
    let lent = g.lent().map_err(|b| Bad { msg: format!("{} {}", b.msg, cx()), key: b.key })?;
    let mut r = jref::Ref { b: doc, i: 0, dec, f32any: cfg!(feature = "f32"), lenient: false, lits: vec![] };
    let mut nlit = 0;
    for (i, (got, left, same)) in log.iter().enumerate() {
        ensure!(*same, "decoding value {i} modified the input after it {}", cx());
        let want = r.val(shapes[i]);
        match (want, got) {
            (Ok(w), Ok(v)) => {
                c.outcome("value");
                ensure!(veq(&w, v, false), "value {i} is {v:?}, want {w:?} {}", cx());
                ensure!(n - left == r.i, "value {i} ends at {} instead of {} {}", n - left, r.i, cx());
                nlit = r.lits.len();
            }
            (Err(E::Dc), _) => { c.outcome("unspecified"); return Ok(()) }
            (Ok(w), Err(e)) => { ensure!(r.lenient, "value {i} rejected with {e:?}, want {w:?} {}", cx()); return Ok(()) }
            (Err(e), Ok(v)) => fail!("value {i} accepted as {v:?}, must be rejected ({e:?}) {}", cx()),
            (Err(e), Err(got)) => {
                c.outcome("refused value");
                if e == E::Eof && doc[r.i..].iter().all(|b| b" \t\r\n".contains(b)) { ensure!(*got == js::de::Error::UnexpectedEof, "nothing is left for value {i}, which reports {got:?} {}", cx()) }
                ensure!(*left <= n, "remaining length grew {}", cx());
            }
        }
    }
    if let Some(e) = end {
        let blank = doc[r.i..].iter().all(|b| b" \t\r\n".contains(b));
        ensure!(if blank { e == Ok(()) } else { e == Err(js::de::Error::TrailingCharacters) }, "end() after the values gives {e:?} with `{}` left {}", show(&doc[r.i..]), cx());
    }
    // what was lent out while values were complete sits at its own literal
    if !r.lenient {
        ensure!(lent.len() >= nlit, "{} borrowed values, want {nlit} {}", lent.len(), cx());
        for (l, (a, b)) in lent.iter().zip(&r.lits[..nlit]) { ensure!(l.bytes.is_empty() || (l.at > *a && l.at + l.bytes.len() < *b), "borrowed value at {} is not at its literal {a}..{b} {}", l.at, cx()) }
    }
    Ok(())
}
fn j16(t: bool) -> Vec<Space> {
    let st = wrap(7, &Sh::BStr);
    let en = wrap(8, &Sh::Bytes);
    // text of an item, shapes it is read as
    let items: Vec<(&'static str, Vec<S>)> = vec![
        (r#""a\n\u00e9""#, vec![&Sh::BStr, &Sh::Ign, &Sh::Any, &Sh::Bytes, U8S]),
        (r#""""#, vec![&Sh::Str, &Sh::Char]),
        (r#""AB\\""#, vec![&Sh::BStr, &Sh::Bytes, &Sh::Ign]),
        (r#""0aFF""#, vec![&Sh::Bytes, &Sh::ByteBuf]),
        (r#""QUI=""#, vec![&Sh::Bytes, &Sh::Any]),
        ("[1, 20,255]", vec![&Sh::Bytes, &Sh::Seq(U8S), &Sh::Ign, &Sh::Tup(&[U8S, U8S])]),
        ("[]", vec![&Sh::Bytes, &Sh::Seq(&Sh::BStr), &Sh::Any]),
        ("12", vec![U8S, &Sh::F64, &Sh::Any, &Sh::Ign, &Sh::Bool]),
        ("-7", vec![I32S, &Sh::F32, &Sh::Opt(I32S), U8S]),
        ("2.5e1", vec![&Sh::F64, &Sh::Any, &Sh::Ign, I32S]),
        ("true", vec![&Sh::Bool, &Sh::Any, &Sh::Unit]),
        ("null", vec![&Sh::Unit, &Sh::Opt(&Sh::BStr), &Sh::F32, &Sh::Ign]),
        (r#"{"a":"x\"y", "cc" :3 ,"zz":["\"]"]}"#, vec![st, &Sh::Any, &Sh::Ign, &Sh::Map(&Sh::BStr, &Sh::Any)]),
        (r#"["q\t",""]"#, vec![&Sh::Seq(&Sh::BStr), st, &Sh::Tup(&[&Sh::BStr, &Sh::BStr])]),
        (r#"{"7":["\u0041"]}"#, vec![&Sh::Map(U8S, &Sh::Seq(&Sh::BStr)), &Sh::Map(&Sh::BStr, &Sh::Ign)]),
        (r#"{"Ne\\w":[9,8]}"#, vec![en, &Sh::Any]),
        (r#""Un""#, vec![en, &Sh::BStr]),
        (r#"{"St":{"yé":false,"x":[1]} }"#, vec![en, &Sh::Ign]),
        ("", vec![&Sh::Unit, &Sh::Any]),
        ("]", vec![&Sh::Ign, &Sh::Seq(&Sh::Unit)]),
        (r#""open"#, vec![&Sh::BStr, &Sh::Ign]),
    ];
    let flat: Vec<(&'static str, S)> = items.iter().flat_map(|(t, s)| s.iter().map(move |s| (*t, *s))).collect();
    let first: Vec<(&'static str, S)> = items.iter().map(|(t, s)| (*t, s[0])).collect();
    let seps: &'static [&'static str] = &["", " ", "\n\t", ","];
    let mk = move |c: &mut Ctx, tab: &[(&'static str, S)], k: usize, nsep: usize| -> R {
        let dec = *c.pick(&DECS);
        let mut doc = vec![];
        let mut shapes = vec![];
        let mut ids = vec![];
        for i in 0..k {
            let x = c.choose(tab.len());
            let s = if i == 0 { c.choose(2) } else { c.choose(nsep) };
            doc.extend_from_slice(seps[s].as_bytes());
            doc.extend_from_slice(tab[x].0.as_bytes());
            shapes.push(tab[x].1);
            ids.push((x, s));
        }
        doc.extend_from_slice([&b""[..], b" ", b" x"][c.choose(if k < 3 { 3 } else { 2 })]);
        if c.fresh() { c.state(&(&doc, &ids, dec)); }
        c.sample(|| format!("`{}` as {shapes:?}", show(&doc)));
        stream(c, &doc, &shapes, dec)
    };
    let (f2, f3) = (Arc::new(flat), Arc::new(first));
    let (a, b) = (f2.clone(), f3.clone());
    let mut v = vec![
        space("pairs", format!("every pair out of {} typed items (21 texts, 3 of them incomplete), 4 separators, 3 ends, 3 decoders", f2.len()), move |c| mk(c, &a, 2, 4)),
        space("triples", format!("every sequence of 3 of {} typed items, 3 separators, 2 ends, 3 decoders", f3.len()), move |c| mk(c, &b, 3, 3)),
    ];
    if t {
        let (a, b) = (f2, f3);
        v.push(space("triples-of-all", format!("every sequence of 3 of {} typed items, 2 separators, 2 ends, 3 decoders", a.len()), move |c| mk(c, &a, 3, 2)));
        v.push(space("quadruples", format!("every sequence of 4 of {} typed items, 2 separators, 2 ends, 3 decoders", b.len()), move |c| mk(c, &b, 4, 2)));
    }
    v
}

// ------------------------------------------------------------------ X04
/// Reads a value of the shape without building anything.
#[derive(Clone, Copy)]
struct Drain(S);
#[derive(Clone, Copy)]
struct Names(&'static [&'static str]);
impl<'de> DeserializeSeed<'de> for Names {
    type Value = usize;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> { d.deserialize_identifier(self) }
}
impl<'de> Visitor<'de> for Names {
    type Value = usize;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("identifier") }
    fn visit_u64<E>(self, n: u64) -> Result<usize, E> { Ok(n as usize) }
    fn visit_str<E>(self, s: &str) -> Result<usize, E> { Ok(self.0.iter().position(|n| *n == s).unwrap_or(usize::MAX)) }
}
impl<'de> DeserializeSeed<'de> for Drain {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        match self.0 {
            Sh::Unit => d.deserialize_unit(self), Sh::UnitStruct => d.deserialize_unit_struct("U", self), Sh::Bool => d.deserialize_bool(self),
            Sh::Int(t) => match t {
                IT::I8 => d.deserialize_i8(self), IT::I16 => d.deserialize_i16(self), IT::I32 => d.deserialize_i32(self), IT::I64 => d.deserialize_i64(self),
                IT::U8 => d.deserialize_u8(self), IT::U16 => d.deserialize_u16(self), IT::U32 => d.deserialize_u32(self), IT::U64 => d.deserialize_u64(self),
            },
            Sh::F32 => d.deserialize_f32(self), Sh::F64 => d.deserialize_f64(self), Sh::Char => d.deserialize_char(self),
            Sh::Str | Sh::Disp => d.deserialize_string(self), Sh::BStr => d.deserialize_str(self), Sh::Bytes => d.deserialize_bytes(self), Sh::ByteBuf => d.deserialize_byte_buf(self),
            Sh::Opt(_) => d.deserialize_option(self), Sh::New(_) => d.deserialize_newtype_struct("N", self), Sh::Seq(_) => d.deserialize_seq(self),
            Sh::Tup(s) => d.deserialize_tuple(s.len(), self), Sh::TupS(s) => d.deserialize_tuple_struct("T", s.len(), self), Sh::Map(..) => d.deserialize_map(self),
            Sh::Struct(x) => d.deserialize_struct(x.name, x.fields, self), Sh::Enum(x) => d.deserialize_enum(x.name, x.names, self),
            Sh::Any => d.deserialize_any(self), Sh::Ign => d.deserialize_ignored_any(self),
        }
    }
}
fn short<E: de::Error>() -> E { E::custom("short") }
impl<'de> Visitor<'de> for Drain {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("something else") }
    fn visit_bool<E>(self, _: bool) -> Result<(), E> { Ok(()) }
    fn visit_i64<E>(self, _: i64) -> Result<(), E> { Ok(()) }
    fn visit_u64<E>(self, _: u64) -> Result<(), E> { Ok(()) }
    fn visit_f64<E>(self, _: f64) -> Result<(), E> { Ok(()) }
    fn visit_char<E>(self, _: char) -> Result<(), E> { Ok(()) }
    fn visit_str<E>(self, _: &str) -> Result<(), E> { Ok(()) }
    fn visit_bytes<E>(self, _: &[u8]) -> Result<(), E> { Ok(()) }
    fn visit_none<E>(self) -> Result<(), E> { Ok(()) }
    fn visit_unit<E>(self) -> Result<(), E> { Ok(()) }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> { Drain(if let Sh::Opt(s) = self.0 { s } else { &Sh::Any }).deserialize(d) }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> { Drain(if let Sh::New(s) = self.0 { s } else { &Sh::Any }).deserialize(d) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        let some: &[S] = match self.0 { Sh::Tup(s) | Sh::TupS(s) => s, Sh::Struct(d) => d.shapes, Sh::Seq(s) => { while a.next_element_seed(Drain(s))?.is_some() {} return Ok(()) } _ => { while a.next_element_seed(Drain(&Sh::Any))?.is_some() {} return Ok(()) } };
        for s in some { if a.next_element_seed(Drain(s))?.is_none() { return Err(short()) } }
        Ok(())
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        match self.0 {
            Sh::Struct(d) => while let Some(i) = a.next_key_seed(Names(d.fields))? { match d.shapes.get(i) { Some(s) => a.next_value_seed(Drain(s))?, None => { a.next_value::<IgnoredAny>()?; } } },
            Sh::Map(k, s) => while a.next_key_seed(Drain(k))?.is_some() { a.next_value_seed(Drain(s))? },
            _ => while a.next_key_seed(Drain(&Sh::Any))?.is_some() { a.next_value_seed(Drain(&Sh::Any))? },
        }
        Ok(())
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        let Sh::Enum(d) = self.0 else { return Err(short()) };
        let (i, acc) = a.variant_seed(Names(d.names))?;
        match d.vars.get(i) {
            None => Err(short()),
            Some(Var::Unit) => acc.unit_variant(),
            Some(Var::New(s)) => acc.newtype_variant_seed(Drain(s)),
            Some(Var::Tup(ss)) => acc.tuple_variant(ss.len(), DrainAll(&[], ss)),
            Some(Var::Struct(n, ss)) => acc.struct_variant(n, DrainAll(n, ss)),
        }
    }
}
struct DrainAll(&'static [&'static str], &'static [S]);
impl<'de> Visitor<'de> for DrainAll {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("variant content") }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        for s in self.1 { if a.next_element_seed(Drain(s))?.is_none() { return Err(short()) } }
        Ok(())
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        while let Some(i) = a.next_key_seed(Names(self.0))? { match self.1.get(i) { Some(s) => a.next_value_seed(Drain(s))?, None => { a.next_value::<IgnoredAny>()?; } } }
        Ok(())
    }
}
fn x04(t: bool) -> Vec<Space> {
    let shapes = crate::p_more::wide_cat(t);
    let s2 = shapes.clone();
    let what = "no allocation request reaches the global allocator";
    vec![
        space("serializing", format!("{} shapes, all small values, 7 serializers, into a slice of the exact length, one byte short, and empty: {what}", shapes.len()), move |c| {
            let i = c.choose(shapes.len());
            let sh = shapes[i];
            let v = gen(c, sh, 1, 2);
            c.state(&(i, &v)); c.sample(|| format!("{v:?}"));
            let disp = has(sh, &|s| matches!(s, Sh::Disp));
            for m in 0..7 {
                let mut s = Sink::default();
                let ok = crate::p_more::ser7(m, &SV(sh, &v), &mut s)?.is_ok();
                let n = s.buf.len();
                // heap builds of the MessagePack serializer format display values into temporary text
                let text = cfg!(feature = "heap") && m >= 4 && disp;
                for cap in [n, n.saturating_sub(1), 0] {
                    let mut b = vec![0u8; cap];
                    let mut w = SliceWriter::new(&mut b);
                    let (r, reqs, bytes, _) = mem::measure(|| imp_quiet(|| if m < 4 { jser_to(jref::ENCS[m], &mut w, &SV(sh, &v)).is_ok() } else { mser_to(crate::mref::FLS[m - 4], &mut w, &SV(sh, &v)).is_ok() }));
                    c.bulk(1);
                    let Ok(r) = r else { fail!("panic serializing {} as {sh:?} ({})", brief(&v), crate::p_more::name7(m)) };
                    ensure!(r == (ok && cap == n), "serializing into {cap} bytes {} {} as {sh:?} ({})", if r { "succeeds:" } else { "fails:" }, brief(&v), crate::p_more::name7(m));
                    if r { c.outcome("written") } else { c.outcome("refused") }
                    if !text { ensure!(reqs == 0, "serializing into a slice of {cap} bytes makes {reqs} allocation requests ({bytes} bytes): {} as {sh:?} ({})", brief(&v), crate::p_more::name7(m)) }
                }
            }
            Ok(())
        }),
        space("decoding", format!("{} shapes, all small values, 6 forms: whole, every truncation, as any, as ignored and as two other types: {what} unless the target's own error message does", s2.len()), move |c| {
            let i = c.choose(s2.len());
            let v = gen(c, s2[i], 0, 2);
            let m = *c.pick(&crate::p_more::SIX);
            let mut s = Sink::default();
            if crate::p_more::ser7(m, &SV(s2[i], &v), &mut s)?.is_err() { return Ok(()) }
            c.state(&(i, &v, m)); c.sample(|| crate::p_more::text7(m, &s.buf));
            let mut todo: Vec<(S, usize)> = (0..=s.buf.len()).map(|k| (s2[i], k)).collect();
            for w in [&Sh::Any as S, &Sh::Ign, s2[(i * 13 + 5) % s2.len()], s2[(i * 7 + 3) % s2.len()]] { todo.push((w, s.buf.len())) }
            let mut b = s.buf.clone();
            for (sh, k) in todo {
                b.copy_from_slice(&s.buf);
                let (r, reqs, bytes, _) = mem::measure(|| imp_quiet(|| if m < 3 { jdrain(sh, &mut b[..k], DECS[m]) } else { mdrain(sh, &b[..k]) }));
                c.bulk(1);
                let doc = || format!("{} as {sh:?} ({})", crate::p_more::text7(m, &s.buf[..k]), crate::p_more::name7(m));
                match r {
                    Err(()) => fail!("panic decoding {}", doc()),
                    // a message made by the target (or by serde for it) is the target's
                    Ok(Some(true)) if cfg!(feature = "heap") => c.outcome("target's error"),
                    Ok(r) => { c.outcome(if r.is_none() { "value" } else { "error" }); ensure!(reqs == 0, "decoding makes {reqs} allocation requests ({bytes} bytes): {}", doc()) }
                }
                if k == s.buf.len() && std::ptr::eq(sh, s2[i]) && !has(sh, &|s| matches!(s, Sh::Disp)) { ensure!(matches!(r, Ok(None)), "decoding fails: {}", doc()) }
            }
            Ok(())
        }),
    ]
}
/// like imp, but without formatting anything
fn imp_quiet<T>(f: impl FnOnce() -> T) -> Result<T, ()> { imp(f).map_err(|_| ()) }
/// None: decoded; Some(true): the error is one the target raised
pub fn jdrain(sh: S, b: &mut [u8], d: Dec) -> Option<bool> {
    use js::de::*;
    macro_rules! go { ($ty:ident) => { { let mut de = $ty::from_mut_slice(b); let r = Drain(sh).deserialize(&mut de); r.and_then(|_| de.end()) } } }
    let r = match d { Dec::Nope => go!(DeserializerNopeByteStr), Dec::Hex => go!(DeserializerHexByteStr), Dec::B64 => go!(DeserializerBase64ByteStr) };
    #[cfg(feature = "heap")]
    { r.err().map(|e| matches!(e, Error::DeserializeError(_))) }
    #[cfg(not(feature = "heap"))]
    { r.err().map(|e| matches!(e, Error::DeserializeError)) }
}
pub fn mdrain(sh: S, b: &[u8]) -> Option<bool> {
    let mut de = mp::de::Deserializer::from_slice(b);
    let r = Drain(sh).deserialize(&mut de);
    #[cfg(feature = "heap")]
    { r.err().map(|e| matches!(e, mp::de::Error::DeserializeError(_))) }
    #[cfg(not(feature = "heap"))]
    { r.err().map(|e| matches!(e, mp::de::Error::DeserializeError)) }
}

// ------------------------------------------------------------------ X05
/// a place a value can stand in: text before and after, the type around it, bytes that mean something there
struct Cx { pre: &'static [u8], post: &'static [u8], wrap: fn(S) -> S, excl: &'static [u8] }
fn jctxs() -> Vec<Cx> {
    let w = |pre: &'static str, post: &'static str, excl: &'static [u8], wrap: fn(S) -> S| Cx { pre: pre.as_bytes(), post: post.as_bytes(), wrap, excl };
    vec![
        w("", "", b"", |s| s),
        w(" \n", "\t", b"", |s| s),
        w("", "", b"n", |s| wrap(0, s)),
        w("", "", b"", |s| wrap(1, s)),
        w("[", "]", b",]", |s| wrap(2, s)),
        w("[ ", ",7]", b",]", |s| wrap(3, s)),
        w("[7 ,", ",true]", b"]", |s| wrap(4, s)),
        w("{\"k\":", "}", b"", |s| wrap(5, s)),
        w("{\"1\":null , \"-2\" : ", " }", b"n", |s| leak(Sh::Map(I32S, leak(Sh::Opt(s))))),
        w("{\"zz\":[{}],\"b\\\"q\":\"\",\"a\":", "}", b"", |s| wrap(7, s)),
        w("[", ",\"\",1]", b",]", |s| wrap(7, s)),
        w("{\"Ne\\\\w\": ", "}", b"", |s| wrap(8, s)),
        w("{\"Tu\":[", ",1]}", b",]", |s| wrap(8, s)),
        w("{\"St\":{\"x\":", ",\"yé\":true}}", b"", |s| wrap(8, s)),
        w("{\"V\":", "}", b"", content_of),
    ]
}
/// the enum whose only variant has the value as its content (tuples and structs as those of the variant itself)
fn content_of(s: S) -> S {
    let var = match s { Sh::Tup(v) | Sh::TupS(v) => Var::Tup(v), Sh::Struct(d) => Var::Struct(d.fields, d.shapes), s => Var::New(s) };
    leak(Sh::Enum(leak(ED { name: "E", names: &["V"], vars: leakv(vec![var]) })))
}
fn mctxs() -> Vec<Cx> {
    let w = |pre: &'static [u8], excl: &'static [u8], wrap: fn(S) -> S| Cx { pre, post: b"", wrap, excl };
    vec![
        w(b"", b"", |s| s),
        w(b"", b"\xc0", |s| wrap(0, s)),
        w(b"", b"", |s| wrap(1, s)),
        w(b"\x91", b"", |s| wrap(2, s)),
        w(b"\xdd\0\0\0\x02", b"", |s| wrap(3, s)),
        w(b"\xdc\0\x03\x07", b"", |s| wrap(4, s)),
        w(b"\x81\xa1k", b"", |s| wrap(5, s)),
        w(b"\xde\0\x01\xd1\xff\x00", b"", |s| wrap(6, s)),
        w(b"\x93", b"", |s| wrap(7, s)),
        w(b"\x82\xa2zz\x91\x80\xa1a", b"", |s| wrap(7, s)),
        w(b"\x83\x02\xc0\x00", b"", |s| wrap(7, s)),
        w(b"\x81\x01", b"", |s| wrap(8, s)),
        w(b"\x81\xa2Tu\x92", b"", |s| wrap(8, s)),
        w(b"\x81\xa2St\x82\x00", b"", |s| wrap(8, s)),
        w(b"\x81\x00", b"", content_of),
    ]
}
impl Cx {
    fn doc(&self, x: &[u8]) -> Vec<u8> { [self.pre, x, self.post].concat() }
}
/// contexts of depth 0 to 2 and the targets inside them
struct Grid { cx: Vec<Cx>, tg: Vec<S>, one: Vec<Vec<S>>, two: Vec<Vec<Vec<S>>> }
fn grid(cx: Vec<Cx>, tg: Vec<S>) -> Arc<Grid> {
    let one = tg.iter().map(|t| cx.iter().map(|c| (c.wrap)(t)).collect::<Vec<_>>()).collect::<Vec<_>>();
    let two = one.iter().map(|o| cx.iter().map(|c| o.iter().map(|s| (c.wrap)(s)).collect()).collect()).collect();
    Arc::new(Grid { cx, tg, one, two })
}
impl Grid {
    /// choose outer and inner context for target `t`; None when byte `b` already means something there
    fn place(&self, c: &mut Ctx, t: usize, first: Option<u8>) -> Option<(S, usize, usize)> {
        let (o, i) = (c.choose(self.cx.len()), c.choose(self.cx.len()));
        if let Some(b) = first {
            if self.cx[i].excl.contains(&b) { return None }
            // an inner context that adds nothing leaves the byte in the outer one
            if self.cx[i].pre.iter().all(|b| b.is_ascii_whitespace()) && self.cx[o].excl.contains(&b) { return None }
        }
        Some((self.two[t][o][i], o, i))
    }
    fn doc(&self, o: usize, i: usize, x: &[u8]) -> Vec<u8> { self.cx[o].doc(&self.cx[i].doc(x)) }
}
fn jwants(sh: S, doc: &[u8], dec: Dec, want: &str) -> R {
    let out = jdec(sh, doc, dec)?;
    match out.res {
        Err(e) if kind(&e) == want => Ok(()),
        Err(e) => fail!("reports {e:?} instead of {want}: decoding `{}` as {sh:?} ({dec:?})", show(doc)),
        Ok(v) => fail!("accepts {v:?} instead of reporting {want}: decoding `{}` as {sh:?} ({dec:?})", show(doc)),
    }
}
fn mwants(sh: S, doc: &[u8], want: &str) -> R {
    let out = mdec(sh, doc)?;
    match out.res {
        Err(e) if kind(&e) == want => Ok(()),
        Err(e) => fail!("reports {e:?} instead of {want}: decoding [{}] as {sh:?}", crate::mref::hex(doc)),
        Ok(v) => fail!("accepts {} instead of reporting {want}: decoding [{}] as {sh:?}", brief(&v), crate::mref::hex(doc)),
    }
}
/// error for a value of this type that starts with byte `b`; None if it may start like that
fn jfirst(sh: S, b: u8) -> Option<&'static str> {
    let (starts, e): (&[u8], _) = match sh {
        Sh::Unit | Sh::UnitStruct => (b"n", "ExpectedNull"),
        Sh::Bool => (b"tf", "UnexpectedChar"),
        Sh::Int(t) if !t.signed() && b == b'-' => (b"", "InvalidNumber"),
        Sh::Int(_) => (b"0123456789-", "InvalidType"),
        Sh::F32 | Sh::F64 => (b"n0123456789+-.eE", "InvalidNumber"),
        Sh::Char | Sh::Str | Sh::BStr | Sh::Disp => (b"\"", "ExpectedString"),
        Sh::Bytes | Sh::ByteBuf => (b"\"[", "UnexpectedChar"),
        Sh::Opt(s) => return if b == b'n' { None } else { jfirst(s, b) },
        Sh::New(s) => return jfirst(s, b),
        Sh::Seq(_) | Sh::Tup(_) | Sh::TupS(_) => (b"[", "ExpectedArray"),
        Sh::Map(..) => (b"{", "ExpectedObject"),
        Sh::Struct(_) => (b"{[", "ExpectedStruct"),
        Sh::Enum(_) => (b"{\"", "ExpectedEnumValue"),
        Sh::Any | Sh::Ign => (b"ntf\"0123456789-[{", "UnexpectedChar"),
    };
    if starts.contains(&b) { None } else { Some(e) }
}
fn mfirst(sh: S, b: u8) -> Option<&'static str> {
    let int = b <= 0x7f || b >= 0xe0 || (0xcc..=0xd3).contains(&b);
    let strs = (0xa0..=0xbf).contains(&b) || (0xd9..=0xdb).contains(&b);
    let (arr, map) = ((0x90..=0x9f).contains(&b) || b == 0xdc || b == 0xdd, (0x80..=0x8f).contains(&b) || b == 0xde || b == 0xdf);
    let ext = (0xc7..=0xc9).contains(&b) || (0xd4..=0xd8).contains(&b);
    let (ok, e) = match sh {
        Sh::Unit | Sh::UnitStruct => (b == 0xc0, "ExpectedNil"),
        Sh::Bool => (b == 0xc2 || b == 0xc3, "InvalidType"),
        Sh::Int(_) => (int, "ExpectedInteger"),
        Sh::F32 | Sh::F64 => (int || b == 0xca || b == 0xcb || b == 0xc0, "ExpectedNumber"),
        Sh::Char | Sh::Str | Sh::BStr | Sh::Disp => (strs, "ExpectedString"),
        Sh::Bytes | Sh::ByteBuf => ((0xc4..=0xc6).contains(&b), "ExpectedBin"),
        Sh::Opt(s) => return if b == 0xc0 { None } else { mfirst(s, b) },
        Sh::New(s) => return mfirst(s, b),
        Sh::Seq(_) | Sh::Tup(_) | Sh::TupS(_) => (arr, "ExpectedArray"),
        Sh::Map(..) => (map, "ExpectedMap"),
        Sh::Struct(_) => (arr || map, "ExpectedStruct"),
        Sh::Enum(_) => (b <= 0x7f || (0xcc..=0xcf).contains(&b) || strs || b == 0x81 || b == 0xde || b == 0xdf, "ExpectedIdentifier"),
        Sh::Any => if ext { (false, "UnsupportedExt") } else { (b != 0xc1, "ReservedCode") },
        Sh::Ign => (b != 0xc1, "ReservedCode"),
    };
    if ok { None } else { Some(e) }
}
fn targets() -> Vec<S> {
    let mut v = leaves();
    v.extend([&Sh::Any as S, &Sh::Ign, &Sh::Seq(&Sh::Bool), &Sh::Tup(&[&Sh::Bool]), &Sh::TupS(&[&Sh::Bool, &Sh::Unit]), &Sh::Map(&Sh::BStr, &Sh::Bool)]);
    v.extend([wrap(7, &Sh::Bool), wrap(8, &Sh::Bool), wrap(0, &Sh::Str), wrap(1, &Sh::F32), wrap(0, wrap(1, &Sh::Seq(&Sh::Bool)))]);
    v
}
/// complete texts that end with their own last byte, and the types they are of
fn closed() -> Vec<(&'static str, S)> {
    vec![("null", &Sh::Unit), ("true", &Sh::Bool), ("\"s\\\"\"", &Sh::BStr), ("\"c\"", &Sh::Char), ("[]", &Sh::Seq(U8S)), ("[1]", &Sh::Bytes), ("{ }", &Sh::Map(&Sh::BStr, U8S)),
        ("[2 ,\"\",null]", wrap(7, U8S)), ("\"Un\"", wrap(8, U8S)), ("{\"Ze\":{}}", wrap(8, U8S)), ("{\"k\":[0,{\"\":1e3}]}", &Sh::Any), ("[[\"]\"],-1 ]", &Sh::Ign)]
}
fn not(b: u8, ok: &[u8]) -> bool { !ok.contains(&b) && !b" \t\r\n".contains(&b) }
const BLANKS: [&str; 2] = ["", " \r\n"];
fn x05(t: bool) -> Vec<Space> {
    let jg = grid(jctxs(), targets());
    let mg = grid(mctxs(), targets());
    let nc = jg.cx.len();
    let (j1, j2, j3, j4) = (jg.clone(), jg.clone(), jg.clone(), jg.clone());
    let (m1, m2) = (mg.clone(), mg.clone());
    let cl = Arc::new(closed());
    // shapes the punctuation is tested in, per closed text: sequence, complete tuple, map value, struct field, variant content, itself
    struct Around { seq: S, tup1: S, tup2: S, map: S, st: S, var: S }
    let around: Arc<Vec<Around>> = Arc::new(cl.iter().map(|(_, s)| Around { seq: leak(Sh::Seq(s)), tup1: leak(Sh::Tup(leakv(vec![*s]))), tup2: leak(Sh::TupS(leakv(vec![*s, *s]))), map: leak(Sh::Map(&Sh::BStr, s)), st: wrap(7, s), var: wrap(8, s) }).collect());
    let mut v = vec![
        space("json-first-byte", format!("{} target types in {} contexts (all pairs of 15), every first byte that cannot begin such a value: the error names what was expected", jg.tg.len(), nc * nc), move |c| {
            let t = c.choose(j1.tg.len());
            let b = c.choose(256) as u8;
            let Some(want) = jfirst(j1.tg[t], b) else { return Ok(()) };
            if b" \t\r\n".contains(&b) { return Ok(()) }
            let Some((sh, o, i)) = j1.place(c, t, Some(b)) else { return Ok(()) };
            let doc = j1.doc(o, i, &[b, b'x']);
            c.state(&(t, b, o, i)); c.outcome(want); c.sample(|| format!("`{}` as {sh:?}: {want}", show(&doc)));
            jwants(sh, &doc, Dec::Nope, want)
        }),
        space("json-punctuation", "12 closed values inside a sequence, tuples, a map, a struct and a variant, every byte that is not allowed after them or before the first, with and without blanks", move |c| {
            let k = c.choose(cl.len());
            let (x, sh) = cl[k];
            let a = &around[k];
            let place = c.choose(19);
            let sp = *c.pick(&BLANKS);
            let b = c.choose(256) as u8;
            let dec = Dec::Nope;
            let st2 = |s: &str| { let mut v = s.as_bytes().to_vec(); v.push(b); v.extend_from_slice(b" 1 ]}"); v };
            let (doc, shape, want): (Vec<u8>, S, &'static str) = match place {
                0 if not(b, b"") => (st2(&format!("{x}{sp}")), sh, "TrailingCharacters"),
                1 if not(b, b",]") => (st2(&format!("[{sp}{x}{sp}")), a.seq, "ExpectedArrayCommaOrEnd"),
                2 if not(b, b",]") => (st2(&format!("[{x},{sp}{x}{sp}")), a.seq, "ExpectedArrayCommaOrEnd"),
                3 if not(b, b"]") => (st2(&format!("[{sp}{x}{sp}")), a.tup1, "ExpectedArrayEnd"),
                4 if not(b, b",]") => (st2(&format!("[{x}{sp}")), a.tup2, "ExpectedArrayCommaOrEnd"),
                5 if not(b, b"]") => (st2(&format!("[{x}{sp},{x}{sp}")), a.tup2, "ExpectedArrayEnd"),
                6 if b == b']' => (st2(&format!("[{sp}{x}{sp},{sp}")), a.seq, "TrailingArrayComma"),
                7 if b == b',' => (st2(&format!("[{sp}")), a.seq, "LeadingArrayComma"),
                8 if not(b, b",}") => (st2(&format!("{{\"k\":{x}{sp}")), a.map, "ExpectedObjectCommaOrEnd"),
                9 if not(b, b":") => (st2(&format!("{{\"k\"{sp}")), a.map, "ExpectedColon"),
                10 if not(b, b"\",}") => (st2(&format!("{{{sp}")), a.map, "KeyMustBeAString"),
                11 if not(b, b"\"}") => (st2(&format!("{{\"k\":{x},{sp}")), a.map, "KeyMustBeAString"),
                12 if b == b'}' => (st2(&format!("{{\"k\":{sp}{x}{sp},{sp}")), a.map, "TrailingObjectComma"),
                13 if b == b',' => (st2(&format!("{{{sp}")), a.map, "LeadingObjectComma"),
                14 if not(b, b",}") => (st2(&format!("{{\"a\":{x}{sp}")), a.st, "ExpectedObjectCommaOrEnd"),
                15 if not(b, b":") => (st2(&format!("{{\"zz\"{sp}")), a.st, "ExpectedColon"),
                16 if not(b, b",}") => (st2(&format!("{{\"zz\":{x}{sp}")), a.st, "ExpectedObjectCommaOrEnd"),
                17 if not(b, b":") => (st2(&format!("{{{sp}\"Ne\\\\w\"{sp}")), a.var, "ExpectedColon"),
                18 if not(b, b"}") => (st2(&format!("{{\"Ne\\\\w\":{x}{sp}")), a.var, "ExpectedEnumObjectEnd"),
                _ => return Ok(()),
            };
            c.state(&doc); c.outcome(want); c.sample(|| format!("`{}` as {shape:?}: {want}", show(&doc)));
            jwants(shape, &doc, dec, want)?;
            // the same text is refused for the same reason when the type does not matter
            if matches!(place, 0 | 1 | 2 | 6 | 7 | 8 | 9 | 10 | 11 | 12 | 13) { jwants(&Sh::Any, &doc, dec, want)?; jwants(&Sh::Ign, &doc, dec, want)? }
            Ok(())
        }),
        space("json-tokens", format!("true, false and null with any one byte wrong or the end too early, 8 target types in {} contexts", nc * nc), {
            let tg: Vec<S> = vec![&Sh::Unit, &Sh::UnitStruct, &Sh::Bool, leak(Sh::Opt(U8S)), &Sh::F64, &Sh::F32, &Sh::Any, &Sh::Ign];
            let g = grid(jctxs(), tg);
            move |c| {
                let t = c.choose(g.tg.len());
                let tok: &[u8] = *c.pick(&[&b"null"[..], b"true", b"false"]);
                match g.tg[t] { Sh::Bool => if tok[0] == b'n' { return Ok(()) }, Sh::Any | Sh::Ign => {} _ => if tok[0] != b'n' { return Ok(()) } }
                let k = c.num(1, tok.len() - 1);
                let b = c.choose(256) as u8;
                if b == tok[k] { return Ok(()) }
                let (sh, o, i) = g.place(c, t, None).unwrap();
                // an optional around it reads null itself
                let mut x = tok.to_vec();
                x[k] = b;
                let doc = g.doc(o, i, &x);
                c.state(&(t, &doc, o, i)); c.outcome("ExpectedToken");
                jwants(sh, &doc, Dec::Nope, "ExpectedToken")
            }
        }),
        space("json-strings", format!("string literals with a control character, an unknown escape, a bad \\u escape, a lone surrogate or broken UTF-8 at every position: 8 targets, keys and variant names, in {} contexts (all contexts of depth 1 in the quick tier)", nc), {
            let tg: Vec<S> = vec![&Sh::Str, &Sh::BStr, &Sh::Char, &Sh::Any, &Sh::Bytes, &Sh::Ign, leak(Sh::Map(&Sh::Str, U8S)), wrap(8, U8S), wrap(7, U8S), leak(Sh::Map(&Sh::Any, U8S))];
            let g = grid(jctxs(), tg);
            move |c| {
                let ti = c.choose(g.tg.len());
                let sh = g.tg[ti];
                let key = ti == 6 || ti == 8 || ti == 9;
                let raw = matches!(sh, Sh::Bytes | Sh::Ign);
                let what = c.choose(6);
                let (bad, want): (Vec<u8>, _) = match what {
                    0 => (vec![c.choose(32) as u8], "StringControlChar"),
                    1 => { let e = c.choose(256) as u8; if b"\"\\/bfnrtu".contains(&e) || matches!(sh, Sh::Ign) { return Ok(()) } (vec![b'\\', e], "InvalidEscapeSequence") }
                    2 => { let p = c.choose(4); let e = c.choose(256) as u8; if e.is_ascii_hexdigit() || matches!(sh, Sh::Ign) || e < 0x20 || e == b'"' || e == b'\\' { return Ok(()) } let mut u = b"\\u00e9".to_vec(); u[2 + p] = e; (u, "InvalidEscapeSequence") }
                    3 => { if matches!(sh, Sh::Ign) { return Ok(()) } (c.pick(&[&b"\\ud800"[..], b"\\uDFFF", b"\\udbff\\u0041", b"\\ud83d\\n", b"\\uD83D\\ud83d", b"\\udc00\\ud800"]).to_vec(), "InvalidUnicodeCodePoint") }
                    4 => { if raw { return Ok(()) } (c.pick(&[&b"\x80"[..], b"\xc3", b"\xc0\xaf", b"\xe2\x82", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xff", b"\xf0\x9f\x98"]).to_vec(), "InvalidUnicodeCodePoint") }
                    // more or fewer than one character
                    _ => { if !matches!(sh, Sh::Char) { return Ok(()) } (c.pick(&[&b""[..], b"ab", "éé".as_bytes(), b"\\n\\n", b"\\u0041\\u0042"]).to_vec(), "InvalidLength") }
                };
                let before: &str = if what == 5 { "" } else { *c.pick(&["", "a", "\\\"x", "é\\u0041"]) };
                let after: &str = if what == 5 { "" } else { *c.pick(&["", "zzzzzzzzzzzz\\\\"]) };
                let lit = [&b"\""[..], before.as_bytes(), &bad, after.as_bytes(), b"\""].concat();
                let x = if key { [&b"{"[..], &lit, b":1}"].concat() } else { lit };
                let i = c.choose(g.cx.len());
                let s1 = g.one[ti][i];
                let doc = g.cx[i].doc(&x);
                c.state(&(ti, &doc, i)); c.outcome(want); c.sample(|| format!("`{}` as {s1:?}: {want}", show(&doc)));
                jwants(s1, &doc, Dec::Nope, want)
            }
        }),
        space("json-numbers", format!("integers just and far outside each of the 8 types, as values in {} contexts and as keys; variants of the wrong form", nc * nc), {
            let g = grid(jctxs(), ITS.iter().map(|t| leak(Sh::Int(*t)) as S).collect());
            let keys: Vec<S> = ITS.iter().map(|t| leak(Sh::Map(leak(Sh::Int(*t)), &Sh::Unit)) as S).collect();
            move |c| {
                let t = c.choose(8);
                let (lo, hi) = (ITS[t].min(), ITS[t].max());
                let mut n: Vec<String> = vec![(hi + 1).to_string(), (hi + 10).to_string(), (hi * 10).to_string(), (hi * 10 + 9).to_string(), "9".repeat(39), "1".repeat(60), format!("{}0", hi + 1)];
                if lo < 0 { n.extend([(lo - 1).to_string(), (lo - 10).to_string(), (lo * 10).to_string(), format!("-{}", "9".repeat(39)), format!("{lo}9")]) } else { n.extend(["-1".to_string(), "-0".to_string()]) }
                let k = c.choose(n.len());
                let key = c.flag();
                if key {
                    c.state(&(t, k)); c.outcome("InvalidNumber");
                    jwants(keys[t], format!("{{\"{}\":null}}", n[k]).as_bytes(), Dec::Nope, "InvalidNumber")
                } else {
                    let (sh, o, i) = g.place(c, t, None).unwrap();
                    c.state(&(t, k, o, i)); c.outcome("InvalidNumber");
                    jwants(sh, &g.doc(o, i, n[k].as_bytes()), Dec::Nope, "InvalidNumber")
                }
            }
        }),
        space("variants", format!("unit form for a variant with content and the reverse, both formats, in {} contexts", nc * nc), {
            let g = (grid(jctxs(), vec![wrap(8, U8S)]), grid(mctxs(), vec![wrap(8, U8S)]));
            move |c| {
                let json = c.flag();
                let k = c.choose(5);
                let g = if json { &g.0 } else { &g.1 };
                let (sh, o, i) = g.place(c, 0, None).unwrap();
                c.outcome("InvalidType");
                if json {
                    let x = ["{\"Un\":null}", "\"Ne\\\\w\"", "\"Tu\"", "\"St\"", "\"Ze\""][k];
                    c.state(&(json, k, o, i));
                    jwants(sh, &g.doc(o, i, x.as_bytes()), Dec::Nope, "InvalidType")
                } else {
                    let f = c.choose(3);
                    let x: Vec<u8> = match (k, f) { (0, 0) => b"\x81\x00\xc0".to_vec(), (0, 1) => b"\xde\0\x01\xa2Un\xc0".to_vec(), (0, _) => b"\xdf\0\0\0\x01\xcc\x00\xc0".to_vec(), (k, 0) => vec![k as u8], (k, 1) => vec![0xcd, 0, k as u8], (k, _) => { let n = ["", "Ne\\w", "Tu", "St", "Ze"][k]; [&[0xa0 + n.len() as u8][..], n.as_bytes()].concat() } };
                    c.state(&(json, k, o, i, f));
                    mwants(sh, &g.doc(o, i, &x), "InvalidType")
                }
            }
        }),
        space("msgpack-first-byte", format!("{} target types in {} contexts (all pairs of 15), every first byte that cannot begin such a value", mg.tg.len(), nc * nc), move |c| {
            let t = c.choose(m1.tg.len());
            let b = c.choose(256) as u8;
            let Some(want) = mfirst(m1.tg[t], b) else { return Ok(()) };
            let Some((sh, o, i)) = m1.place(c, t, Some(b)) else { return Ok(()) };
            let doc = m1.doc(o, i, &[b, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
            c.state(&(t, b, o, i)); c.outcome(want); c.sample(|| format!("[{}] as {sh:?}: {want}", crate::mref::hex(&doc)));
            mwants(sh, &doc, want)
        }),
        space("msgpack-numbers", format!("every integer form holding values just and far outside each of the 8 types, in {} contexts", nc * nc), {
            let g = grid(mctxs(), ITS.iter().map(|t| leak(Sh::Int(*t)) as S).collect());
            let forms = int_forms();
            move |c| {
                let t = c.choose(8);
                let (b, n) = &forms[c.choose(forms.len())];
                if ITS[t].has(*n) { return Ok(()) }
                let (sh, o, i) = g.place(c, t, None).unwrap();
                c.state(&(t, b, o, i)); c.outcome("InvalidInteger");
                mwants(sh, &g.doc(o, i, b), "InvalidInteger")
            }
        }),
        space("msgpack-lengths", format!("arrays and maps longer than their target in every length form, character strings of 0 and 2 characters, broken UTF-8, enum maps of other lengths, in {} contexts", nc * nc), {
            let tg: Vec<S> = vec![&Sh::Tup(&[&Sh::Bool]), &Sh::TupS(&[&Sh::Bool, &Sh::Unit]), wrap(7, &Sh::Bool), &Sh::Tup(&[]), wrap(8, &Sh::Bool), &Sh::Char, &Sh::Str, &Sh::BStr, &Sh::Any];
            let g = grid(mctxs(), tg);
            move |c| {
                let t = c.choose(g.tg.len());
                let form = c.choose(3);
                let hd = |n: usize, fix: u8, l16: u8| -> Vec<u8> { match form { 0 => vec![fix + n as u8], 1 => vec![l16, (n >> 8) as u8, n as u8], _ => vec![l16 + 1, 0, 0, (n >> 8) as u8, n as u8] } };
                let strs = |s: &[u8]| -> Vec<u8> { let n = s.len(); [match form { 0 => vec![0xa0 + n as u8], 1 => vec![0xd9, n as u8], _ => vec![0xda, 0, n as u8] }, s.to_vec()].concat() };
                let extra = c.num(1, 3);
                let (x, want): (Vec<u8>, &'static str) = match t {
                    0 => ([hd(1 + extra, 0x90, 0xdc), vec![0xc3; 6]].concat(), "TrailingElements"),
                    1 => ([hd(2 + extra, 0x90, 0xdc), vec![0xc3, 0xc0], vec![0xc0; 4]].concat(), "TrailingElements"),
                    2 => ([hd(3 + extra, 0x90, 0xdc), vec![0xc3, 0xa0, 0xc0], vec![0xc0; 4]].concat(), "TrailingElements"),
                    3 => ([hd(extra, 0x90, 0xdc), vec![0xc0; 4]].concat(), "TrailingElements"),
                    4 => {
                        // content of a tuple variant too long, or a map that is not one variant
                        if extra == 1 { ([vec![0x81, 0x02], hd(3, 0x90, 0xdc), vec![0xc3, 1, 1]].concat(), "TrailingElements") }
                        else { ([hd([0, 2][extra - 2], 0x80, 0xde), vec![0x01, 0xc3, 0x01, 0xc3]].concat(), "ExpectedIdentifier") }
                    }
                    5 => (strs([&b""[..], b"ab", "éé".as_bytes()][extra - 1]), "InvalidLength"),
                    _ => (strs([&b"\xff"[..], b"a\xe2\x82", b"\xed\xa0\x80z"][extra - 1]), "InvalidUnicodeCodePoint"),
                };
                let (sh, o, i) = g.place(c, t, None).unwrap();
                c.state(&(t, &x, o, i)); c.outcome(want); c.sample(|| format!("[{}] as {sh:?}: {want}", crate::mref::hex(&x)));
                mwants(sh, &g.doc(o, i, &x), want)
            }
        }),
        space("end-of-input", format!("nothing at all where a value is needed: every target in {} contexts, both formats", nc * nc), move |c| {
            let json = c.flag();
            let g = if json { &j2 } else { &m2 };
            let t = c.choose(g.tg.len());
            let (sh, o, i) = g.place(c, t, None).unwrap();
            let doc = [g.cx[o].pre, g.cx[i].pre].concat();
            c.state(&(json, t, o, i)); c.outcome("UnexpectedEof");
            if json { for d in DECS { jwants(sh, &doc, d, "UnexpectedEof")? } Ok(()) } else { mwants(sh, &doc, "UnexpectedEof") }
        }),
        space("json-bytes", format!("byte arrays and byte strings with one byte wrong, 3 decoders, in {} contexts", nc), move |c| {
            let dec = *c.pick(&DECS);
            let b = c.choose(256) as u8;
            let (x, want): (Vec<u8>, &'static str) = match c.choose(7) {
                0 if not(b, b",]0123456789") => ([&b"[12"[..], &[b], b"1]"].concat(), "UnexpectedChar"),
                1 if not(b, b",]") => ([&b"[1 "[..], &[b], b"1]"].concat(), "UnexpectedChar"),
                2 if not(b, b"0123456789-]") => ([&b"["[..], &[b], b"1]"].concat(), "InvalidType"),
                3 => (b"[1,-1]".to_vec(), "InvalidNumber"),
                4 => ([&b"[1,"[..], (256 + b as usize * 3).to_string().as_bytes(), b"]"].concat(), "InvalidNumber"),
                5 if dec == Dec::Hex && !b.is_ascii_hexdigit() && b != b'"' => { let x: [&[u8]; 3] = if c.flag() { [b"\"0A", &[b], b"0\""] } else { [b"\"0A0", &[b], b"\""] }; (x.concat(), "UnexpectedChar") }
                6 if dec == Dec::B64 && !(b.is_ascii_alphanumeric() || b"+/=\"".contains(&b)) => { let k = c.choose(5); let mut x = b"\"QUJD\"".to_vec(); x.insert(1 + k, b); (x, "UnexpectedChar") }
                _ => return Ok(()),
            };
            let t = j3.tg.iter().position(|s| matches!(s, Sh::Bytes)).unwrap() + c.choose(2);
            let i = c.choose(j3.cx.len());
            c.state(&(dec, &x, i, t)); c.outcome(want); c.sample(|| show(&x));
            jwants(j3.one[t][i], &j3.cx[i].doc(&x), dec, want)
        }),
    ];
    if t {
        v.push(space("json-first-byte-deep", "as json-first-byte, with a third context around", move |c| {
            let ti = c.choose(j4.tg.len());
            let b = c.choose(256) as u8;
            let Some(want) = jfirst(j4.tg[ti], b) else { return Ok(()) };
            if b" \t\r\n".contains(&b) { return Ok(()) }
            let Some((sh, o, i)) = j4.place(c, ti, Some(b)) else { return Ok(()) };
            // a sequence of two: the first is complete, the second is wrong
            if !matches!(j4.tg[ti], Sh::Unit | Sh::Bool) || j4.cx[o].pre.is_empty() || j4.cx[i].pre.is_empty() { return Ok(()) }
            let good: &[u8] = if matches!(j4.tg[ti], Sh::Unit) { b"null" } else { b"true" };
            let doc = [&b"["[..], &j4.doc(o, i, good), b" ,", &j4.doc(o, i, &[b, b'x']), b"]"].concat();
            c.state(&(ti, b, o, i)); c.outcome(want);
            jwants(leak(Sh::Seq(sh)), &doc, Dec::Nope, want)
        }));
    }
    v
}
/// every integer encoding of values at the borders of all types
fn int_forms() -> Vec<(Vec<u8>, i128)> {
    let mut v: Vec<(Vec<u8>, i128)> = vec![];
    for b in (0..=0x7fu8).chain(0xe0..=0xff) { v.push((vec![b], b as i8 as i128)) }
    for n in 0..=255u8 { v.push((vec![0xcc, n], n as i128)); v.push((vec![0xd0, n], n as i8 as i128)) }
    let near: Vec<i128> = [0i128, 7, 8, 15, 16, 31, 32, 63, 64].iter().flat_map(|k| [-(1i128 << k) - 1, -(1i128 << k), -(1i128 << k) + 1, (1i128 << k) - 1, 1i128 << k, (1i128 << k) + 1]).collect();
    for n in near {
        if n >= 0 && n < 1 << 16 { v.push(([&[0xcd][..], &(n as u16).to_be_bytes()].concat(), n)) }
        if n >= 0 && n < 1 << 32 { v.push(([&[0xce][..], &(n as u32).to_be_bytes()].concat(), n)) }
        if n >= 0 && n < 1 << 64 { v.push(([&[0xcf][..], &(n as u64).to_be_bytes()].concat(), n)) }
        if (i16::MIN as i128..=i16::MAX as i128).contains(&n) { v.push(([&[0xd1][..], &(n as i16).to_be_bytes()].concat(), n)) }
        if (i32::MIN as i128..=i32::MAX as i128).contains(&n) { v.push(([&[0xd2][..], &(n as i32).to_be_bytes()].concat(), n)) }
        if (i64::MIN as i128..=i64::MAX as i128).contains(&n) { v.push(([&[0xd3][..], &(n as i64).to_be_bytes()].concat(), n)) }
    }
    v
}

// ------------------------------------------------------------------ visitors that stop early, or ask again
/// Takes up to `take` entries, then asks `again` more times after the container said it ended.
#[derive(Clone, Copy)]
struct Part { map: bool, take: usize, again: usize, inner: S }
impl<'de> DeserializeSeed<'de> for Part {
    type Value = (usize, bool);
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(usize, bool), D::Error> { if self.map { d.deserialize_map(self) } else { d.deserialize_seq(self) } }
}
impl<'de> Visitor<'de> for Part {
    /// entries read; did an entry appear after the end
    type Value = (usize, bool);
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("entries") }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(usize, bool), A::Error> {
        let mut n = 0;
        while n < self.take {
            if a.next_element_seed(Drain(self.inner))?.is_none() {
                for _ in 0..self.again { if a.next_element_seed(Drain(self.inner))?.is_some() { return Ok((n, true)) } }
                break
            }
            n += 1
        }
        Ok((n, false))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(usize, bool), A::Error> {
        let mut n = 0;
        while n < self.take {
            if a.next_key_seed(Drain(&Sh::Any))?.is_none() {
                for _ in 0..self.again { if a.next_key_seed(Drain(&Sh::Any))?.is_some() { return Ok((n, true)) } }
                break
            }
            a.next_value_seed(Drain(self.inner))?;
            n += 1
        }
        Ok((n, false))
    }
}
/// a container holding the part between two other values
struct Mid(Part, bool);
impl<'de> DeserializeSeed<'de> for Mid {
    type Value = (usize, bool);
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(usize, bool), D::Error> { if self.1 { d.deserialize_seq(self) } else { self.0.deserialize(d) } }
}
impl<'de> Visitor<'de> for Mid {
    type Value = (usize, bool);
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("three elements") }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(usize, bool), A::Error> {
        if a.next_element::<u8>()? != Some(7) { return Err(short()) }
        let Some(r) = a.next_element_seed(self.0)? else { return Err(short()) };
        if a.next_element::<u8>()? != Some(9) || a.next_element::<u8>()?.is_some() { return Err(short()) }
        Ok(r)
    }
}
fn partial(json: bool) -> Vec<Space> {
    vec![space("partial-visitors", "sequences and maps of 0 to 20 entries of 5 kinds, read by a visitor that takes 0 to 22 of them and asks up to 3 more times after the end, alone and between other elements: an error exactly when something is left", move |c| {
        let map = c.flag();
        let mid = c.flag();
        let n = c.num(0, 20);
        let take = c.num(0, 22);
        let again = if take > n { c.num(0, 3) } else { 0 };
        let kind_ = c.choose(5);
        let inner: S = [&Sh::Bool as S, &Sh::BStr, &Sh::Seq(&Sh::Unit), &Sh::Any, &Sh::Ign][kind_];
        let (jt, mt): (&str, &[u8]) = [("true", &[0xc3u8][..]), ("\"a\\n]\"", b"\xa3a]}"), ("[null]", b"\x91\xc0"), ("{\"\":1}", b"\x81\xa0\x01"), ("[{},2]", b"\x92\x80\x02")][kind_];
        let part = Part { map, take, again, inner };
        let mut doc = vec![];
        if json {
            if mid { doc.extend_from_slice(b"[7,") }
            doc.push(if map { b'{' } else { b'[' });
            for i in 0..n { if i > 0 { doc.push(b',') } if map { doc.extend_from_slice(format!("\"{i}\":").as_bytes()) } doc.extend_from_slice(jt.as_bytes()) }
            doc.push(if map { b'}' } else { b']' });
            if mid { doc.extend_from_slice(b",9]") }
        } else {
            if mid { doc.extend_from_slice(b"\x93\x07") }
            if n < 16 { doc.push(if map { 0x80 } else { 0x90 } + n as u8) } else { doc.extend_from_slice(&[if map { 0xde } else { 0xdc }, 0, n as u8]) }
            for i in 0..n { if map { doc.push(i as u8) } doc.extend_from_slice(mt) }
            if mid { doc.push(9) }
        }
        c.state(&(map, mid, n, take, again, kind_));
        c.sample(|| if json { format!("`{}`, {take} of {n}", show(&doc)) } else { format!("[{}], {take} of {n}", crate::mref::hex(&doc)) });
        let r: Result<(usize, bool), String> = if json {
            let mut b = doc.clone();
            imp(|| { let mut de = js::de::DeserializerNopeByteStr::from_mut_slice(&mut b); let r = Mid(part, mid).deserialize(&mut de)?; de.end()?; Ok::<_, js::de::Error>(r) })?.map_err(|e| kind(&e))
        } else {
            imp(|| { let mut de = mp::de::Deserializer::from_slice(&doc); let r = Mid(part, mid).deserialize(&mut de)?; if de.end()? != 0 { return Err(mp::de::Error::TrailingElements) } Ok::<_, mp::de::Error>(r) })?.map_err(|e| kind(&e))
        };
        let want = if take >= n { Ok((n, false)) } else { Err(match (json, map) { (true, false) => "ExpectedArrayEnd", (true, true) => "ExpectedObjectEnd", _ => "TrailingElements" }.to_string()) };
        c.outcome(if want.is_ok() { "all read" } else { "something left" });
        ensure!(r == want, "reading {take} of {n} entries ({inner:?}) gives {r:?}, want {want:?} ({})", if json { format!("`{}`", show(&doc)) } else { format!("[{}]", crate::mref::hex(&doc)) });
        Ok(())
    })]
}
// ------------------------------------------------------------------ 128-bit integers
struct Wide(i128, bool);
impl serde::Serialize for Wide { fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { if self.1 { z.serialize_i128(self.0) } else { z.serialize_u128(self.0 as u128) } } }
fn wide_vals() -> Vec<i128> { (0..128).flat_map(|k| { let p = (1u128 << k) as i128; [p.wrapping_sub(1), p, p.wrapping_add(1), p.wrapping_neg()] }).collect() }
fn wide_ser(json: bool) -> Vec<Space> {
    let vals = wide_vals();
    vec![space("128-bit", "512 128-bit integers, signed and unsigned, alone and in a sequence: written exactly or refused, never as another number", move |c| {
        let n = *c.pick(&vals);
        let signed = c.flag();
        let seq = c.flag();
        c.state(&(n, signed, seq));
        let x = Wide(n, signed);
        let text = if signed { n.to_string() } else { (n as u128).to_string() };
        let (r, want): (Result<Vec<u8>, String>, Option<Vec<u8>>) = if json {
            (if seq { jser(jref::Enc::Arr, &[x])? } else { jser(jref::Enc::Arr, &x)? }, Some(if seq { format!("[{text}]") } else { text }.into_bytes()))
        } else { (if seq { mser(crate::mref::Fl::Compact, &[x])? } else { mser(crate::mref::Fl::Compact, &x)? }, None) };
        match r {
            Err(_) => { c.outcome("refused"); Ok(()) }
            Ok(b) if want.as_ref() == Some(&b) => { c.outcome("exact"); Ok(()) }
            // MessagePack has no such number: anything written must decode to it
            Ok(b) if !json && n >= 0 && n <= u64::MAX as i128 && !seq && mdec(&Sh::Int(IT::U64), &b)?.res == Ok(V::Int(n)) => { c.outcome("exact"); Ok(()) }
            Ok(b) => fail!("the 128-bit integer {n} is written as {:02x?} ({})", b, String::from_utf8_lossy(&b)),
        }
    })]
}
struct WideV;
impl<'de> Visitor<'de> for WideV {
    type Value = i128;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("128-bit integer") }
    fn visit_i128<E>(self, n: i128) -> Result<i128, E> { Ok(n) }
    fn visit_u128<E>(self, n: u128) -> Result<i128, E> { Ok(n as i128) }
    fn visit_i64<E>(self, n: i64) -> Result<i128, E> { Ok(n as i128) }
    fn visit_u64<E>(self, n: u64) -> Result<i128, E> { Ok(n as i128) }
}
struct WideSeed(bool);
impl<'de> DeserializeSeed<'de> for WideSeed {
    type Value = i128;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<i128, D::Error> { if self.0 { d.deserialize_i128(WideV) } else { d.deserialize_u128(WideV) } }
}
fn wide_de(json: bool) -> Vec<Space> {
    let vals = wide_vals();
    vec![space("128-bit", "512 integers of up to 128 bits read as 128-bit targets: the exact value or an error", move |c| {
        let n = *c.pick(&vals);
        let signed = c.flag();
        c.state(&(n, signed));
        let text = if signed { n.to_string() } else { (n as u128).to_string() };
        let r = if json { let mut b = text.clone().into_bytes(); imp(|| { let mut de = js::de::DeserializerNopeByteStr::from_mut_slice(&mut b); WideSeed(signed).deserialize(&mut de).ok() })? }
        else {
            let b: Vec<u8> = if n >= 0 && n <= u64::MAX as i128 { [&[0xcf][..], &(n as u64).to_be_bytes()].concat() } else if n < 0 && n >= i64::MIN as i128 { [&[0xd3][..], &(n as i64).to_be_bytes()].concat() } else { return Ok(()) };
            imp(|| { let mut de = mp::de::Deserializer::from_slice(&b); WideSeed(signed).deserialize(&mut de).ok() })?
        };
        match r { None => { c.outcome("refused"); Ok(()) } Some(x) if x == n => { c.outcome("exact"); Ok(()) } Some(x) => fail!("{text} decodes as the 128-bit integer {x}") }
    })]
}
