//! Growth: documents of many sizes per kind, where the work done must keep in proportion to the length,
//! contents of every length without memory, messages of every length, runs of backslashes of every length,
//! and every small document read as every small type.
use crate::engine::*;
use crate::gen::*;
use crate::jref::*;
use crate::mem;
use crate::mref::{hex, FLS};
use crate::p_api::{jdrain, mdrain};
use crate::p_big::sizes;
use crate::p_json::*;
use crate::p_more::{name7, ser7, SIX};
use crate::p_mp;
use crate::run::*;
use crate::shape::*;
use crate::ensure;
use ser_write::SliceWriter;
use ser_write_msgpack as mp;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;

pub fn extra(prop: &str, t: bool) -> Vec<Space> {
    match prop {
        "J12" => vec![json_growth(t)],
        "M07" => vec![mp_growth(t)],
        "X04" => vec![long_quiet(t)],
        "S03" => vec![messages(t)],
        "J07" => vec![runs(false, t)],
        "J10" => vec![runs(true, t)],
        "J06" => vec![cross(true, t)],
        "M03" => vec![cross(false, t)],
        _ => vec![],
    }
}

// ------------------------------------------------------------------ work in proportion to length
/// number of units, and the processor time it may take at the most: far above what work in proportion
/// to the length needs, far below what work growing with its square does
fn steps(t: bool) -> Vec<(usize, f64)> {
    if cfg!(debug_assertions) { return vec![(1 << 16, 2.0), (1 << 18, 8.0)] }
    let mut v = vec![(1 << 16, 0.5), (1 << 18, 1.5), (1 << 20, 5.0)];
    if t { v.push((1 << 22, 20.0)) }
    v
}
/// a document of many units: text before, unit, what separates units, text after
type Fam = (&'static str, &'static str, &'static str, &'static str);
const JFAM: &[Fam] = &[
    ("[", "[]", ",", "]"), ("[", "{}", ",", "]"), ("[", "\"\"", ",", "]"), ("[", "\"a\"", ", ", "]"), ("[", "\"\\n\"", ",", "]"), ("[", "\"\\u00e9\"", ",", "]"), ("[", "1", ",", "]"), ("[", "-1.5e3", ",", "]"), ("[", "null", " ,", "]"), ("[", "true", ",", "]"), ("[", "[[1],{\"a\":[]}]", ",", "]"),
    ("{", "\"k\":1", ",", "}"), ("{", "\"\":\"\"", ",", "}"), ("{", "\"1\":[]", ",", "}"), ("{", "\"\\n\":{\"x\":null}", ", ", "}"), ("{\"zz\":[", "{\"a\":\"b\"}", ",", "],\"b\":[1],\"a\":\"\",\"c\":true}"), ("{\"b\":[", "7", ",", "],\"a\":\"\",\"c\":true}"),
    ("\"", "a", "", "\""), ("\"", "é", "", "\""), ("\"", "😀", "", "\""), ("\"", "\\n", "", "\""), ("\"", "\\\"", "", "\""), ("\"", "\\\\", "", "\""), ("\"", "\\u0041", "", "\""), ("\"", "\\u00e9", "", "\""), ("\"", "\\ud83d\\ude00", "", "\""), ("\"a", "b\\t", "", "\""), ("\"", "a", "", "\"x"),
    ("\"", "QUJD", "", "\""), ("\"", "0a", "", "\""), ("\"", "0A\\\"", "", "\""), ("\"", "a", "", ""), ("\"", "\\\\", "", ""), ("\"", "\\u0041", "", "\\u00"),
    ("[\"", "\\\\", "", "\",\"b\"]"), ("[\"", "x", "", "\",\"\\n\",1]"), ("{\"", "\\n", "", "\":1}"), ("{\"", "a", "", "\":[]}"),
    ("", " ", "", "1"), ("[", "\n", "", "]"), ("[1", "\t", "", ",2]"), ("{\"a\"", " ", "", ":1}"), ("\"x\"", " ", "", ""), ("[", "1, ", "\r", "2]"),
    ("", "1", "", ""), ("0.", "1", "", ""), ("-", "9", "", ".5"), ("1e", "0", "", "1"), ("1e", "9", "", ""), ("0.", "0", "", "1e5"), ("[", "1e400", ",", "]"), ("[", "12345678901234567890123", ",", "]"),
    ("[", "1", ",", ""), ("[", ",", "", ""), ("[", "255", ",", ",256]"), ("{\"a\":", "\"b\" ", "", "}"),
];
fn jshapes() -> Vec<(S, Dec)> {
    let s = |x: Sh| leak(x) as S;
    let mut v: Vec<(S, Dec)> = fuzz_shapes().into_iter().chain([s(Sh::Seq(&Sh::Any)), s(Sh::Seq(&Sh::Ign)), s(Sh::Seq(&Sh::Bytes)), s(Sh::Seq(U8S)), s(Sh::Seq(&Sh::F64)), s(Sh::Seq(&Sh::Seq(&Sh::Unit))), s(Sh::Seq(&Sh::Unit)), s(Sh::Map(&Sh::BStr, &Sh::Ign)), s(Sh::Map(U8S, &Sh::Ign)), &Sh::Str, &Sh::ByteBuf]).map(|x| (x, Dec::Nope)).collect();
    for d in [Dec::Hex, Dec::B64] { for x in [&Sh::Bytes as S, leak(Sh::Seq(&Sh::Bytes)), &Sh::Any] { v.push((x, d)) } }
    v
}
fn build(f: &Fam, n: usize) -> Vec<u8> {
    let mut d = Vec::with_capacity(n * (f.1.len() + f.2.len()) + 64);
    d.extend_from_slice(f.0.as_bytes());
    for i in 0..n { if i > 0 { d.extend_from_slice(f.2.as_bytes()) } d.extend_from_slice(f.1.as_bytes()) }
    d.extend_from_slice(f.3.as_bytes());
    d
}
fn json_growth(t: bool) -> Space {
    let shapes = jshapes();
    let st = steps(t);
    space("growth", format!("documents of {} kinds with up to {} units (values, members, characters, escapes, blanks, digits), whole, unfinished and wrong at the end, as {} types and byte decoders: the processor time stays in proportion to the length", JFAM.len(), st.last().unwrap().0, shapes.len()), move |c| {
        let f = &JFAM[c.choose(JFAM.len())];
        let (sh, dec) = shapes[c.choose(shapes.len())];
        c.state(&(f, sh as *const Sh as usize, dec as usize));
        for (n, most) in &st {
            let mut doc = build(f, *n);
            let len = doc.len();
            let t0 = p_mp::cpu();
            let r = imp(|| jdrain(sh, &mut doc, dec))?;
            let dt = p_mp::cpu() - t0;
            c.bulk(1);
            ensure!(dt < *most, "decoding {n} times `{}` after `{}` ({len} bytes) as {sh:?} ({dec:?}) takes {dt:.2} s of processor time", f.1, f.0);
            // what is refused at once tells nothing more when it is longer
            if r.is_some() && dt < 1e-5 { c.outcome("refused"); break }
            c.outcome(if r.is_some() { "refused at the end" } else { "decoded" });
        }
        Ok(())
    })
}
type MFam = (&'static [u8], &'static [u8], &'static [u8]);
/// text before (`N` stands for the number of units in a 32-bit length, `L` for their bytes), unit, text after
const MFAM: &[MFam] = &[
    (b"\xddN", b"\x90", b""), (b"\xddN", b"\x80", b""), (b"\xddN", b"\xa0", b""), (b"\xddN", b"\xc4\0", b""), (b"\xddN", b"\x01", b""), (b"\xddN", b"\xc0", b""), (b"\xddN", b"\xc3", b""), (b"\xddN", b"\xa1a", b""), (b"\xddN", b"\xca\0\0\0\0", b""), (b"\xddN", b"\xdd\0\0\0\x01\x91\x80", b""), (b"\xddN", b"\xd9\x01a", b""), (b"\xddN", b"\xd4\x01\0", b""), (b"\xddN", b"\xd3\0\0\0\0\0\0\0\x01", b""),
    (b"\xdfN", b"\x01\x01", b""), (b"\xdfN", b"\xa1k\xc0", b""), (b"\xdfN", b"\xa0\xa0", b""), (b"\xdfN", b"\x01\x90", b""), (b"\xdfN", b"\xa1z\x81\x01\x92\x01\x02", b""), (b"\x84\xa1z\xddN", b"\x81\xa0\xa0", b"\x00\xa0\x01\x91\x01\x02\xc3"), (b"\x83\x01\xddN", b"\x07", b"\x00\xa0\x02\xc3"),
    (b"\xdbL", b"a", b""), (b"\xdbL", b"\xc3\xa9", b""), (b"\xdbL", b"\xf0\x9f\x98\x80", b""), (b"\xdbL", b"a", b"\xff"), (b"\xc6L", b"\xff", b""), (b"\xc9L\x01", b"\0", b""), (b"\x92\xdbL", b"a", b"\xa1b"), (b"\x81\xdbL", b"a", b"\x01"), (b"\x81\xc6L", b"a", b"\x01"), (b"\xdbL", b"\xff", b""),
    (b"\xddN\x01", b"\xa0", b"\xc1"), (b"\xdd\xff\xff\xff\xff", b"\xa0", b""), (b"\xdf\xff\xff\xff\xff", b"\xa0", b""), (b"\xdd\xff\xff\xff\xff", b"\x80", b""), (b"\x01", b"\x01", b""), (b"\xc0", b"\xa0", b""),
];
/// containers one inside another, for skipping only
const MNEST: &[MFam] = &[(b"", b"\x91", b"\xc0"), (b"", b"\x81\x01", b"\xc0"), (b"", b"\x81\xa0", b"\xc0"), (b"", b"\x92\x01", b""), (b"", b"\xdd\0\0\0\x01", b"\xa1x"), (b"", b"\x82\x01\x02\x03", b""), (b"", b"\xdf\xff\xff\xff\xff\xc0", b""), (b"", b"\x9f", b"")];
fn mbuild(f: &MFam, n: usize) -> Vec<u8> {
    let mut d = Vec::with_capacity(n * f.1.len() + 64);
    for (i, x) in f.0.iter().enumerate() {
        match x {
            b'N' if i > 0 && f.0[i - 1] >= 0xdd => d.extend_from_slice(&(n as u32).to_be_bytes()),
            b'L' if i > 0 && f.0[i - 1] >= 0xc6 => d.extend_from_slice(&((n * f.1.len()) as u32).to_be_bytes()),
            x => d.push(*x),
        }
    }
    for _ in 0..n { d.extend_from_slice(f.1) }
    d.extend_from_slice(f.2);
    d
}
fn mp_growth(t: bool) -> Space {
    let s = |x: Sh| leak(x) as S;
    let shapes: Vec<S> = p_mp::fuzz_shapes().into_iter().chain([s(Sh::Seq(&Sh::Any)), s(Sh::Seq(&Sh::Ign)), s(Sh::Seq(&Sh::Bytes)), s(Sh::Seq(U8S)), s(Sh::Seq(&Sh::F64)), s(Sh::Seq(&Sh::Seq(&Sh::Unit))), s(Sh::Seq(&Sh::Unit)), s(Sh::Map(&Sh::BStr, &Sh::Ign)), s(Sh::Map(U8S, &Sh::Ign)), s(Sh::Map(&Sh::Ign, &Sh::Ign)), &Sh::Str, &Sh::ByteBuf]).collect();
    let st = steps(t);
    space("growth", format!("messages of {} kinds with up to {} units (values, entries, characters, bytes, levels of nesting when skipped), whole, unfinished and wrong at the end, as {} types and skipped: the processor time stays in proportion to the length", MFAM.len() + MNEST.len(), st.last().unwrap().0, shapes.len()), move |c| {
        let i = c.choose(MFAM.len() + MNEST.len());
        let (f, k) = if i < MFAM.len() { (&MFAM[i], c.choose(shapes.len() + 1)) } else { (&MNEST[i - MFAM.len()], c.choose(2) * (shapes.len() + 1) ) };
        c.state(&(i, k));
        for (n, most) in &st {
            let doc = mbuild(f, *n);
            let t0 = p_mp::cpu();
            let bad = imp(|| if i >= MFAM.len() && k > 0 { mdrain(&Sh::Ign, &doc).is_some() } else if i >= MFAM.len() || k == shapes.len() { let mut d = mp::de::Deserializer::from_slice(&doc); d.eat_message().is_err() } else { mdrain(shapes[k], &doc).is_some() })?;
            let dt = p_mp::cpu() - t0;
            c.bulk(1);
            ensure!(dt < *most, "{n} times [{}] after [{}] takes {dt:.2} s of processor time as {}", hex(f.1), hex(f.0), if k < shapes.len() { format!("{:?}", shapes[k]) } else { "skipped".into() });
            if bad && dt < 1e-5 { c.outcome("refused"); break }
            c.outcome(if bad { "refused at the end" } else { "decoded" });
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ no memory, whatever the length
fn long_quiet(t: bool) -> Space {
    let ls = [(0..=8).collect(), sizes(4, if t { 17 } else { 16 })].concat();
    const TEXTS: &[&str] = &["a", "\"", "\\", "\n", "\u{1}", "é", "😀", "\0", "a\"", "/"];
    let sizes_text = format!("{} lengths up to {}", ls.len(), ls.iter().max().unwrap());
    space("long", format!("texts of 10 kinds, display values in pieces, byte strings, sequences and maps of {sizes_text}: 7 serializers into a slice of the exact length and one byte short, and decoding as itself, as any, as ignored and as 6 other types, whole, cut in half and one byte short: no allocation request reaches the global allocator"), move |c| {
        let n = *c.pick(&ls);
        let kind = c.choose(2 * TEXTS.len() + p_mp::NLONG);
        let (sh, v): (S, V) = if kind < TEXTS.len() {
            let s = V::Str(TEXTS[kind].repeat(n / TEXTS[kind].len() + (kind % 2)));
            (&Sh::Map(&Sh::BStr, &Sh::BStr), V::Map(vec![(s.clone(), s)]))
        } else if kind < 2 * TEXTS.len() {
            let s = TEXTS[kind - TEXTS.len()];
            // pieces of growing length: 1, 2, 4 ..
            let (mut o, mut left, mut k) = (String::new(), n / s.len(), 1);
            while left > 0 { let m = k.min(left); o.push_str(&s.repeat(m)); o.push('|'); left -= m; k *= 2 }
            (&Sh::Disp, V::s(&o))
        } else { p_mp::long_value(kind - 2 * TEXTS.len(), n) };
        c.state(&(kind, n));
        for m in 0..7 {
            let mut s = Sink::default();
            let ok = ser7(m, &SV(sh, &v), &mut s)?.is_ok();
            let len = s.buf.len();
            let text = cfg!(feature = "heap") && m >= 4 && matches!(sh, Sh::Disp);
            let cx = || format!("{kind} of length {n} ({})", name7(m));
            for cap in [len, len.saturating_sub(1)] {
                let mut b = vec![0u8; cap];
                let mut w = SliceWriter::new(&mut b);
                let (r, reqs, bytes, _) = mem::measure(|| imp(|| if m < 4 { jser_to(ENCS[m], &mut w, &SV(sh, &v)).is_ok() } else { mser_to(FLS[m - 4], &mut w, &SV(sh, &v)).is_ok() }));
                c.bulk(1);
                ensure!(r? == (ok && cap == len), "serializing into {cap} bytes of {len} has the wrong outcome: {}", cx());
                if !text { ensure!(reqs == 0, "serializing into a slice of {cap} bytes makes {reqs} allocation requests ({bytes} bytes): {}", cx()) }
            }
            if !ok || !SIX.contains(&m) { continue }
            let mut b = s.buf.clone();
            for (k, sh2) in [sh, &Sh::Any, &Sh::Ign, &Sh::BStr, &Sh::Bytes, &Sh::Char, U8S, &Sh::Opt(&Sh::Bool), &Sh::Seq(&Sh::F64)].into_iter().enumerate() {
                for cut in [len, len.saturating_sub(1), len / 2] {
                    b.copy_from_slice(&s.buf);
                    let (r, reqs, bytes, _) = mem::measure(|| imp(|| if m < 3 { jdrain(sh2, &mut b[..cut], DECS[m]) } else { mdrain(sh2, &b[..cut]) }));
                    c.bulk(1);
                    let r = r?;
                    if cfg!(feature = "heap") && r == Some(true) { continue }
                    if k == 0 && cut == len && !text { ensure!(r.is_none(), "decoding fails: {}", cx()) }
                    ensure!(reqs == 0, "decoding {cut} of {len} bytes as {sh2:?} makes {reqs} allocation requests ({bytes} bytes): {}", cx());
                }
            }
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ messages
thread_local! { static MSG: RefCell<(String, usize)> = const { RefCell::new((String::new(), 0)) }; }
/// raises an error with the chosen message, made in one of three ways
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct Boom;
fn raise<E>(f: impl FnOnce(&dyn std::fmt::Display) -> E) -> E {
    MSG.with(|m| {
        let (s, way) = &*m.borrow();
        match way {
            0 => f(&s.as_str()),
            1 => { let k = (0..=s.len() / 2).rev().find(|k| s.is_char_boundary(*k)).unwrap(); f(&format_args!("{}{}", &s[..k], &s[k..])) }
            _ => { struct P<'a>(&'a str); impl std::fmt::Display for P<'_> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { use std::fmt::Write; for c in self.0.chars() { f.write_char(c)? } Ok(()) } } f(&P(s)) }
        }
    })
}
impl Serialize for Boom { fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> { Err(raise(|m| serde::ser::Error::custom(m))) } }
impl<'de> Deserialize<'de> for Boom { fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> { Err(raise(|m| serde::de::Error::custom(m))) } }
#[derive(Serialize, Deserialize)]
struct BoomS { a: u8, b: Boom }
#[derive(Serialize, Deserialize)]
enum BoomE { N(Boom), T(u8, Boom), S { a: u8, b: Boom } }
fn messages(t: bool) -> Space {
    let ls: Vec<usize> = (0..=300).chain(sizes(9, if t { 17 } else { 13 })).collect();
    let unit: &'static [&'static str] = &["x", "é", "😀", "\"", "\n", "{}", "%s"];
    space("messages", format!("custom errors with messages of {} lengths up to {} of 7 kinds of text, made in 3 ways, from 9 places, serializing to 7 forms and decoding from 2: the error carries exactly the message where there is a heap, and is the bare custom error where there is none", ls.len(), ls.iter().max().unwrap()), move |c| {
        let n = *c.pick(&ls);
        let u = *c.pick(unit);
        let msg: String = u.repeat(n / u.len());
        if msg.len() != n && n % 2 == 0 { return Ok(()) }
        c.state(&(n, u));
        for way in 0..3 {
            MSG.with(|m| *m.borrow_mut() = (msg.clone(), way));
            let want = |k: &str| if cfg!(feature = "heap") { format!("{k}({msg:?})") } else { k.to_string() };
            macro_rules! ser { ($($v:expr),*) => { $({
                let v = $v;
                for m in 0..7 {
                    let r = ser7(m, &v, &mut Sink::default())?;
                    ensure!(r == Err(want("SerializeError")), "{} while serializing {} in {}: a message of {n} bytes arrives as {r:?}", stringify!($v), u, name7(m));
                    c.bulk(1);
                }
            })* } }
            ser!(Boom, Some(Boom), vec![Boom], (1u8, Boom), BTreeMap::from([(1u8, Boom)]), BTreeMap::from([(Boom, 1u8)]), BoomS { a: 1, b: Boom }, BoomE::N(Boom), BoomE::T(1, Boom), BoomE::S { a: 1, b: Boom });
            macro_rules! de { ($($ty:ty, $j:expr, $m:expr);*) => { $({
                let mut j = $j.to_vec();
                let r = imp(|| ser_write_json::from_mut_slice::<$ty>(&mut j).map(|_| ()))?.map_err(|e| format!("{e:?}"));
                ensure!(r == Err(want("DeserializeError")), "decoding `{}` as {}: a message of {n} bytes arrives as {r:?}", show($j), stringify!($ty));
                let r = imp(|| mp::from_slice::<$ty>($m).map(|_| ()))?.map_err(|e| format!("{e:?}"));
                ensure!(r == Err(want("DeserializeError")), "decoding [{}] as {}: a message of {n} bytes arrives as {r:?}", hex($m), stringify!($ty));
                c.bulk(2);
            })* } }
            de!(Boom, b"1", b"\x01"; Option<Boom>, b"1", b"\x01"; Vec<Boom>, b"[1]", b"\x91\x01"; (u8, Boom), b"[1,2]", b"\x92\x01\x02"; BTreeMap<u8, Boom>, b"{\"1\":2}", b"\x81\x01\x02"; BTreeMap<Boom, u8>, b"{\"1\":2}", b"\x81\x01\x02"; BoomS, b"{\"a\":1,\"b\":2}", b"\x82\xa1a\x01\xa1b\x02"; BoomS, b"[1,2]", b"\x92\x01\x02"; BoomE, b"{\"N\":1}", b"\x81\x00\x01"; BoomE, b"{\"T\":[1,2]}", b"\x81\x01\x92\x01\x02"; BoomE, b"{\"S\":{\"a\":1,\"b\":2}}", b"\x81\xa1S\x82\x00\x01\x01\x02");
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ runs of backslashes
fn runs(skip: bool, t: bool) -> Space {
    let ls: Vec<usize> = (0..=300).chain(sizes(9, if t { 17 } else { 14 })).collect();
    let atoms: &'static [&'static str] = &["\\", "\\\\a", "\\\"", "\\n\\", "a\\", "\\u005c"];
    let tails: &'static [&'static str] = &["\"", "\\\"", "a\"", "\\\\\"", "\"x", "n\"", ""];
    space("long-runs", format!("strings of {} lengths up to {} of backslashes and of 5 pieces with them, after 0 to 8 characters of text and before each of {} endings, alone and followed by another value, {}", ls.len(), ls.iter().max().unwrap(), tails.len(), if skip { "ignored" } else { "as text, key, bytes, untyped and ignored" }), move |c| {
        let n = *c.pick(&ls);
        let a = *c.pick(atoms);
        let k = if n <= 300 { c.choose(9) } else { c.choose(2) * 7 };
        c.state(&(n, a, k));
        for tail in tails {
            let lit = [b"\"", "abcdefgh"[..k].as_bytes(), a.repeat(n / a.len() + 1).as_bytes()[..n].as_ref(), tail.as_bytes()].concat();
            let seq = [b"[", &lit[..], b",\"\\\\\"]"].concat();
            let map = [b"{\"q\":", &lit[..], b",\"a\":3}"].concat();
            let key = [b"{", &lit[..], b":\"\\n\"}"].concat();
            let todo: Vec<(S, &[u8], Dec)> = if skip { vec![(&Sh::Ign, &lit, Dec::Nope), (&Sh::Tup(&[&Sh::Ign, &Sh::BStr]), &seq, Dec::Hex), (&Sh::Struct(SKIPS), &map, Dec::B64), (&Sh::Ign, &map, Dec::Nope), (&Sh::Ign, &key, Dec::Nope)] }
                else { vec![(&Sh::BStr, &lit, Dec::Nope), (&Sh::Seq(&Sh::BStr), &seq, Dec::Nope), (&Sh::Seq(&Sh::Bytes), &seq, Dec::Nope), (&Sh::Any, &seq, Dec::Hex), (&Sh::Map(&Sh::BStr, &Sh::BStr), &key, Dec::B64), (&Sh::Map(&Sh::BStr, &Sh::Any), &map, Dec::Nope)] };
            c.bulk(todo.len() as u64);
            for (sh, d, dec) in todo { jjudge(sh, d, dec)?; }
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ every small document as every small type
fn small_types(deep: bool) -> Vec<S> {
    let s = |x: Sh| leak(x) as S;
    let base: Vec<S> = if deep { vec![&Sh::Unit, &Sh::Bool, U8S, &Sh::F64, &Sh::Char, &Sh::BStr, &Sh::Bytes, &Sh::Any, &Sh::Ign] } else { leaves().into_iter().chain([&Sh::Any as S, &Sh::Ign]).collect() };
    let around = |x: S| -> Vec<S> {
        let mut v: Vec<S> = (0..9).map(|k| wrap(k, x)).collect();
        v.extend([s(Sh::Tup(leakv(vec![x]))), s(Sh::TupS(leakv(vec![x]))), s(Sh::Tup(leakv(vec![x, x]))), s(Sh::Struct(leak(SD { name: "S", fields: &["a"], shapes: leakv(vec![x]) }))), s(Sh::Enum(leak(ED { name: "E", names: &["a", "b", "c", "d"], vars: leakv(vec![Var::Tup(leakv(vec![x])), Var::New(x), Var::Struct(&["a"], leakv(vec![x])), Var::Unit]) })))]);
        v
    };
    let mut v = base.clone();
    v.extend([wrap(9, &Sh::Unit), s(Sh::TupS(&[])), s(Sh::Struct(&SD { name: "S", fields: &[], shapes: &[] })), s(Sh::Enum(&ED { name: "E", names: &[], vars: &[] })), s(Sh::Enum(&ED { name: "E", names: &["a", "b"], vars: &[Var::Tup(&[]), Var::Struct(&[], &[])] }))]);
    for x in &base { let l = around(x); if deep { for y in &l { v.extend(around(y)) } } v.extend(l) }
    v
}
fn cross(json: bool, t: bool) -> Space {
    let types = [small_types(false), small_types(true)].concat();
    // what those types are written as
    let docs: &'static std::sync::Mutex<std::collections::BTreeSet<Vec<u8>>> = leak(Default::default());
    let lim = if t { 24 } else { 14 };
    {
        let types = types.clone();
        explore_inline(&space("v", "", move |c| {
            let sh = types[c.choose(types.len())];
            if has(sh, &|s| matches!(s, Sh::Any | Sh::Ign) || matches!(s, Sh::Enum(d) if d.vars.is_empty())) { return Ok(()) }
            let v = gen(c, sh, 0, 2);
            let mut put = |d: Vec<u8>| if d.len() <= lim { docs.lock().unwrap().insert(d); };
            if json { for e in [Enc::Arr, Enc::Hex] { put(jser_ok(e, sh, &v)?) } } else { for f in FLS { if let Ok(d) = mser(f, &SV(sh, &v))? { put(d) } } }
            Ok(())
        }));
    }
    let docs: Vec<Vec<u8>> = docs.lock().unwrap().iter().cloned().collect();
    space("cross", format!("each of the {} different texts of up to {lim} bytes that values of {} small types (one- and no-element tuples, structs and variants included) are written as, read as each of those types, also with one thing more and one byte less", docs.len(), types.len()), move |c| {
        let sh = types[c.choose(types.len())];
        let r = chunked(c, docs.len(), 4096);
        c.state(&(sh as *const Sh as usize, r.start));
        for d in &docs[r.clone()] {
            let s = if json { jjudge(sh, d, DECS[d.len() % 3])? } else { mjudge(sh, d)? };
            c.outcome(match s { Seen::Accept => "accepted", Seen::Reject => "rejected", Seen::Eof => "incomplete", Seen::Free => "unspecified" });
            let cut = &d[..d.len() - 1];
            if json { jjudge(sh, cut, Dec::Nope)?; jjudge(sh, &[&d[..], b"1"].concat(), Dec::Nope)?; } else { mjudge(sh, cut)?; mjudge(sh, &[&d[..], b"\x01"].concat())?; }
        }
        c.bulk(r.len() as u64 * 3);
        Ok(())
    })
}
