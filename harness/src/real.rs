//! The same guarantees on real serde-derived types: binds the dynamic universe of `shape.rs` to
//! what serde_derive and serde's own implementations actually call.
#![allow(dead_code, unused_variables, unused_imports)]
use crate::engine::*;
use crate::jref::{show, Dec, Enc};
use crate::mref::{self, hex, Fl, FLS};
use crate::run::*;
use crate::shape::*;
use crate::{ensure, fail};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use ser_write_json as js;
use ser_write_msgpack as mp;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::fmt::Debug;
use std::num::{NonZeroI16, NonZeroU8, Wrapping};

// ------------------------------------------------------------------ value generation
pub trait G: Sized { fn g(c: &mut Ctx) -> Self; }
macro_rules! vals { ($($t:ty: [$($v:expr),* $(,)?]);* $(;)?) => { $(impl G for $t { fn g(c: &mut Ctx) -> Self { let v: Vec<$t> = vec![$($v),*]; let i = c.choose(v.len()); v.into_iter().nth(i).unwrap() } })* } }
vals! {
    (): [()]; bool: [true, false];
    u8: [0, 255]; i8: [-128, 5]; u16: [7, 65535]; i16: [-300, 127]; u32: [200, u32::MAX]; i32: [i32::MIN, -1]; u64: [u64::MAX, 0]; i64: [i64::MIN, 255]; usize: [3, usize::MAX]; isize: [isize::MIN, 70000];
    f32: [1.5, -3e-7]; f64: [0.1, 1e300];
    char: ['x', '"', '😀']; String: [String::new(), "a\"\\\né".into(), "null".into()];
    Wrapping<u8>: [Wrapping(200)]; NonZeroU8: [NonZeroU8::new(1).unwrap(), NonZeroU8::MAX]; NonZeroI16: [NonZeroI16::MIN];
    std::time::Duration: [std::time::Duration::new(5, 999_999_999)];
    std::net::Ipv4Addr: ["10.0.255.1".parse().unwrap(), "1.2.3.4".parse().unwrap()]; std::net::Ipv6Addr: ["fe80::1".parse().unwrap()]; std::net::SocketAddr: ["1.2.3.4:80".parse().unwrap(), "[::1]:65535".parse().unwrap()]; std::net::IpAddr: ["::1".parse().unwrap(), "1.2.3.4".parse().unwrap()];
}
impl<T: G> G for Option<T> { fn g(c: &mut Ctx) -> Self { c.flag().then(|| T::g(c)) } }
impl<T: G> G for Box<T> { fn g(c: &mut Ctx) -> Self { Box::new(T::g(c)) } }
impl<T: G> G for Vec<T> { fn g(c: &mut Ctx) -> Self { let n = c.choose(3); (0..n).map(|_| T::g(c)).collect() } }
impl<T: G> G for VecDeque<T> { fn g(c: &mut Ctx) -> Self { Vec::g(c).into() } }
impl<K: G + Ord, T: G> G for BTreeMap<K, T> { fn g(c: &mut Ctx) -> Self { let n = c.choose(3); (0..n).map(|_| (K::g(c), T::g(c))).collect() } }
impl<T: G + Ord> G for BTreeSet<T> { fn g(c: &mut Ctx) -> Self { Vec::g(c).into_iter().collect() } }
impl<T: G, const N: usize> G for [T; N] { fn g(c: &mut Ctx) -> Self { std::array::from_fn(|_| T::g(c)) } }
impl<A: G> G for (A,) { fn g(c: &mut Ctx) -> Self { (A::g(c),) } }
impl<A: G, B: G> G for (A, B) { fn g(c: &mut Ctx) -> Self { (A::g(c), B::g(c)) } }
impl<A: G, B: G, C: G> G for (A, B, C) { fn g(c: &mut Ctx) -> Self { (A::g(c), B::g(c), C::g(c)) } }
impl<A: G, B: G> G for Result<A, B> { fn g(c: &mut Ctx) -> Self { if c.flag() { Ok(A::g(c)) } else { Err(B::g(c)) } } }
impl<A: G> G for std::ops::Range<A> { fn g(c: &mut Ctx) -> Self { A::g(c)..A::g(c) } }
impl<A: G> G for std::ops::Bound<A> { fn g(c: &mut Ctx) -> Self { match c.choose(3) { 0 => std::ops::Bound::Unbounded, 1 => std::ops::Bound::Included(A::g(c)), _ => std::ops::Bound::Excluded(A::g(c)) } } }
impl<T> G for std::marker::PhantomData<T> { fn g(_: &mut Ctx) -> Self { std::marker::PhantomData } }
impl G for Box<str> { fn g(c: &mut Ctx) -> Self { String::g(c).into() } }
impl G for Cow<'static, str> { fn g(c: &mut Ctx) -> Self { Cow::Owned(String::g(c)) } }

macro_rules! types {
    ($($(#[$m:meta])* struct $n:ident { $($(#[$fm:meta])* $f:ident: $t:ty),* $(,)? })*) => { $(
        #[derive(Serialize, Deserialize, Debug, PartialEq, Clone)] $(#[$m])* pub struct $n { $($(#[$fm])* $f: $t),* }
        impl G for $n { fn g(c: &mut Ctx) -> Self { $n { $($f: <$t>::g(c)),* } } }
    )* }
}
macro_rules! enums {
    ($($(#[$m:meta])* enum $n:ident { $($(#[$vm:meta])* $v:ident $(($($t:ty),*))? $({$($f:ident: $ft:ty),*})?),* $(,)? })*) => { $(
        #[derive(Serialize, Deserialize, Debug, PartialEq, Clone)] $(#[$m])* pub enum $n { $($(#[$vm])* $v $(($($t),*))? $({$($f: $ft),*})?),* }
        impl G for $n { #[allow(unused_assignments, unused_mut)] fn g(c: &mut Ctx) -> Self {
            let total = [$(stringify!($v)),*].len(); let k = c.choose(total); let mut i = 0;
            $( if k == i { return $n::$v $(($(<$t>::g(c)),*))? $({$($f: <$ft>::g(c)),*})? } i += 1; )* unreachable!() } }
    )* }
}
types! {
    struct Inner { x: i16, y: Option<bool> }
    struct Plain { id: u32, name: String, tags: Vec<u8>, nested: Inner, opt: Option<i8> }
    struct Attr { #[serde(rename = "B \"C\"")] b: u8, #[serde(skip_serializing_if = "Option::is_none", default)] o: Option<u8>, #[serde(default)] d: u16, #[serde(alias = "zed")] z: bool, #[serde(skip_serializing_if = "Vec::is_empty", default)] last: Vec<u8> }
    struct Tree { v: u8, #[serde(skip_serializing_if = "Option::is_none", default)] kid: Option<Box<Leafy>>, many: Vec<Leafy> }
    struct Leafy { n: u8 }
    struct Unsized0 { }
    #[serde(transparent)] struct Transp { inner: Inner }
    struct Keys { a: BTreeMap<u8, bool>, b: BTreeMap<String, Inner>, c: BTreeMap<KeyE, u8> }
    struct Keys2 { d: BTreeMap<char, u8>, e: BTreeMap<i64, ()>, f: BTreeMap<KeyN, u8> }
    #[serde(deny_unknown_fields)] struct Deny { a: u8, #[serde(default)] b: u8 }
    struct Flat { a: u8, #[serde(flatten)] rest: Inner }
    struct FlatMap { a: u8, #[serde(flatten)] rest: BTreeMap<String, u16> }
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Copy)] pub enum KeyE { A, #[serde(rename = "b\n")] B }
impl G for KeyE { fn g(c: &mut Ctx) -> Self { if c.flag() { KeyE::A } else { KeyE::B } } }
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Copy)] pub struct KeyN(u16);
impl G for KeyN { fn g(c: &mut Ctx) -> Self { KeyN(u16::g(c)) } }
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Copy)] pub struct KeyA(std::net::Ipv6Addr);
impl G for KeyA { fn g(c: &mut Ctx) -> Self { KeyA(G::g(c)) } }
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)] pub struct Unit0;
impl G for Unit0 { fn g(_: &mut Ctx) -> Self { Unit0 } }
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)] pub struct Tup3(u8, String, Option<Inner>);
impl G for Tup3 { fn g(c: &mut Ctx) -> Self { Tup3(u8::g(c), String::g(c), Option::g(c)) } }
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)] pub struct NewT(Vec<Inner>);
impl G for NewT { fn g(c: &mut Ctx) -> Self { NewT(Vec::g(c)) } }
types! {
    struct Addr { a: std::net::Ipv4Addr, b: Option<std::net::IpAddr>, c: (std::net::Ipv6Addr, std::net::SocketAddr) }
}
enums! {
    enum AddrE { N(std::net::Ipv4Addr), T(u8, std::net::SocketAddr), S { a: std::net::IpAddr } }
    enum Ext { Un, Ne(Inner), Tu(u8, String), St { p: u8, q: Option<String> }, #[serde(rename = "re\"n")] Ren, Un1(()), Opt(Option<u8>), Nested(Box<Ext2>) }
    enum Ext2 { A, B(u8), C { x: bool } }
    #[serde(tag = "type")] enum Int { Un, Ne(Inner), St { p: u8, q: Option<bool> } }
    #[serde(tag = "t", content = "c")] enum Adj { Un, Ne(Inner), Tu(u8, bool), St { p: u8 } }
    #[serde(untagged)] enum Unt { B(bool), N(u8), Neg(NonZeroI16), S(String), Pair(u8, bool), St { p: u8 }, L(Vec<String>) }
}
/// a dynamic value that uses deserialize_any for everything
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(untagged)]
pub enum Val { Nul(()), B(bool), I(i64), U(u64), F(f64), S(String), L(Vec<Val>), M(BTreeMap<String, Val>) }
thread_local! { static DEPTH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
impl G for Val {
    fn g(c: &mut Ctx) -> Self {
        let d = DEPTH.with(|d| d.get());
        let k = c.choose(if d >= 2 { 6 } else { 8 });
        DEPTH.with(|x| x.set(d + 1));
        let v = match k { 0 => Val::Nul(()), 1 => Val::B(c.flag()), 2 => Val::I([-5, i64::MIN][c.choose(2)]), 3 => Val::I(7), 4 => Val::F(0.25), 5 => Val::S(String::g(c)),
            6 => { let n = c.choose(3); Val::L((0..n).map(|_| Val::g(c)).collect()) } _ => { let n = c.choose(2); Val::M((0..n).map(|i| (["k\"", "z"][i].to_string(), Val::g(c))).collect()) } };
        DEPTH.with(|x| x.set(d));
        v
    }
}

// ------------------------------------------------------------------ JSON
fn jround<T: Serialize + DeserializeOwned + PartialEq + Debug>(v: &T, flat: bool) -> R {
    for e in [Enc::Arr, Enc::Hex, Enc::B64] {
        let out = match jser(e, v)? { Ok(o) => o, Err(k) => fail!("serializing {v:?} ({e:?}) failed: {k}") };
        if flat { ensure!(!out.contains(&b'\n'), "raw control character in {}", show(&out)) }
        for (d, r) in [(Dec::Nope, imp(|| js::from_mut_slice::<T>(&mut out.clone()))?), (Dec::Hex, imp(|| js::from_mut_slice_hex_bytes::<T>(&mut out.clone()))?), (Dec::B64, imp(|| js::from_mut_slice_base64_bytes::<T>(&mut out.clone()))?)] {
            match r { Ok(g) => ensure!(g == *v, "`{}` reads back as {g:?}, want {v:?} ({d:?})", show(&out)), Err(x) => fail!("`{}` for {v:?} rejected with {x:?} ({d:?})", show(&out)) }
        }
        let s = jjudge(&Sh::Any, &out, Dec::Nope)?;
        ensure!(matches!(s, Seen::Accept | Seen::Free), "output `{}` is not valid JSON", show(&out));
        let s = jjudge(&Sh::Ign, &out, Dec::Nope)?;
        ensure!(matches!(s, Seen::Accept | Seen::Free), "output `{}` cannot be skipped", show(&out));
    }
    Ok(())
}
macro_rules! list { ($c:expr, $f:expr; $($t:ty),* $(,)?) => {{
    let names = [$(stringify!($t)),*];
    let k = $c.choose(names.len());
    let mut i = 0usize;
    $( if k == i { let v = <$t as G>::g($c); $c.state(&(k, format!("{v:?}"))); $c.sample(|| format!("{}: {v:?}", names[k])); $f(&v)?; return Ok(()) } i += 1; )*
    let _ = i;
    unreachable!()
}} }
pub fn json_spaces(_t: bool) -> Vec<Space> {
    vec![
        space("derived", "real serde-derived structs, tuples, enums, maps with every key type, standard library types; all values of the bound; every encoding and decoder", |c| {
            list!(c, |v| jround(v, true); Plain, Attr, Tree, Unsized0, Transp, Keys2, Deny, Unit0, Tup3, NewT, Ext, Vec<Ext>, Ext2, BTreeMap<KeyE, Ext2>, Option<Vec<Inner>>, BTreeMap<String, Vec<Option<u8>>>,
                (u8,), (bool, String, char), [i16; 3], [[u8; 2]; 2], VecDeque<i64>, BTreeSet<char>, Result<u8, String>, std::ops::Range<u32>, std::ops::Bound<i8>, std::marker::PhantomData<u8>,
                Wrapping<u8>, NonZeroU8, NonZeroI16, std::time::Duration, std::net::Ipv4Addr, std::net::IpAddr, Box<str>, Cow<'static, str>, usize, isize, f32, f64, [(); 0], Vec<[u8; 0]>, Keys, Addr, AddrE, BTreeMap<std::net::Ipv4Addr, std::net::Ipv4Addr>, BTreeMap<KeyA, AddrE>, BTreeMap<std::net::IpAddr, Vec<std::net::IpAddr>>, BTreeMap<std::net::SocketAddr, u8>)
        }),
        space("borrowed", "borrowed fields of derived structs point into the input; Cow and skipped fields around them", |c| {
            #[derive(Deserialize, Debug, PartialEq)] struct B<'a> { a: &'a str, #[serde(borrow)] c: Cow<'a, str>, #[serde(borrow, default)] o: Option<&'a str>, z: u8 }
            let strs = ["", "x", "a\\\"b", "\\u00e9\\n", "\\\\", "é"];
            let un = ["", "x", "a\"b", "é\n", "\\", "é"];
            let (i, j, k) = (c.choose(6), c.choose(6), c.choose(7));
            let perm = c.choose(6);
            let ws = ["", " ", "\n\t"][c.choose(3)];
            let mut parts = vec![format!("\"a\":{ws}\"{}\"", strs[i]), format!("\"c\"{ws}:\"{}\"", strs[j])];
            if k < 6 { parts.push(format!("\"o\":\"{}\"{ws}", strs[k])) }
            parts.push(format!("{ws}\"z\":7"));
            if perm & 1 == 1 { parts.reverse() }
            parts.rotate_left(perm / 2);
            let doc = format!("{{{}}}", parts.join(","));
            let mut buf = doc.clone().into_bytes();
            let (base, len) = (buf.as_ptr() as usize, buf.len());
            let r = imp(|| js::from_mut_slice::<B>(&mut buf).map(|b| {
                let inside = |s: &str| s.is_empty() || (s.as_ptr() as usize >= base && s.as_ptr() as usize + s.len() <= base + len);
                (b.a == un[i] && b.c == un[j] && b.o == (k < 6).then(|| un[k]) && b.z == 7, inside(b.a) && b.o.is_none_or(inside), format!("{b:?}"))
            }))?;
            match r { Ok((ok, ins, d)) => { ensure!(ok, "`{doc}` reads {d}"); ensure!(ins, "`{doc}`: borrowed outside the input") } Err(e) => fail!("`{doc}` rejected with {e:?}") }
            c.state(&doc); c.sample(|| doc.clone());
            Ok(())
        }),
    ]
}
/// expected outcome of a derived struct {a: u8, o: Option<u8>, #[default] d: u8, #[alias=zed] z: bool} read from entries
fn want_s(entries: &[(usize, usize)], deny: bool) -> Option<(u8, Option<u8>, u8, bool)> {
    let (mut a, mut o, mut d, mut z) = (None, None, None, None);
    for (k, v) in entries {
        // values: 0 number 5, 1 true, 2 null, 3 nested object
        match k {
            0 => { if a.is_some() || *v != 0 { return None } a = Some(5) }
            1 => { if o.is_some() { return None } o = Some(match v { 0 => Some(5), 2 => None, _ => return None }) }
            2 => { if d.is_some() || *v != 0 { return None } d = Some(5) }
            3 | 4 => { if z.is_some() || *v != 1 { return None } z = Some(true) }
            _ => if deny { return None },
        }
    }
    Some((a?, o.unwrap_or(None), d.unwrap_or(0), z?))
}
#[derive(Deserialize, Debug, PartialEq)] struct Fs { a: u8, o: Option<u8>, #[serde(default)] d: u8, #[serde(alias = "zed")] z: bool }
#[derive(Deserialize, Debug, PartialEq)] #[serde(deny_unknown_fields)] struct Fd { a: u8, o: Option<u8>, #[serde(default)] d: u8, #[serde(alias = "zed")] z: bool }
#[derive(Deserialize, Debug, PartialEq)] enum Fe { V { a: u8, o: Option<u8>, #[serde(default)] d: u8, #[serde(alias = "zed")] z: bool } }
pub fn json_struct_spaces(t: bool) -> Vec<Space> {
    let max = if t { 5 } else { 4 };
    vec![space("derived-fields", format!("derived struct, deny_unknown_fields struct and struct variant: every object of up to {max} entries over 7 keys (fields, alias, unknown, escaped) and 4 values"), move |c| {
        let n = c.num(0, max);
        let e: Vec<(usize, usize)> = (0..n).map(|_| (c.choose(7), c.choose(4))).collect();
        let keys = ["a", "o", "d", "z", "zed", "q\\\"", "A"];
        let vals = ["5", "true", "null", "{\"a\":[1,{\"a\":2}],\"z\":\"}\"}"];
        let doc = format!("{{{}}}", e.iter().map(|(k, v)| format!("\"{}\":{}", keys[*k], vals[*v])).collect::<Vec<_>>().join(", "));
        c.state(&doc); c.sample(|| doc.clone());
        let r = imp(|| js::from_mut_slice::<Fs>(&mut doc.clone().into_bytes()))?;
        let got = r.as_ref().ok().map(|s| (s.a, s.o, s.d, s.z));
        let want = want_s(&e, false);
        ensure!(got == want, "`{doc}` as a derived struct gives {r:?}, want {want:?}");
        c.outcome(if want.is_some() { "accepted" } else { "rejected" });
        let r = imp(|| js::from_mut_slice::<Fd>(&mut doc.clone().into_bytes()))?;
        ensure!(r.as_ref().ok().map(|s| (s.a, s.o, s.d, s.z)) == want_s(&e, true), "`{doc}` as a deny_unknown_fields struct gives {r:?}");
        let vdoc = format!("{{\"V\":{doc}}}");
        let r = imp(|| js::from_mut_slice::<Fe>(&mut vdoc.clone().into_bytes()))?;
        ensure!(r.as_ref().ok().map(|Fe::V { a, o, d, z }| (*a, *o, *d, *z)) == want, "`{vdoc}` as a struct variant gives {r:?}");
        Ok(())
    })]
}
pub fn json_any_spaces(_t: bool) -> Vec<Space> {
    vec![
        space("derived-any", "internally, adjacently and un-tagged enums, flattened structs and maps, and an untyped value tree: round trip through buffered self-describing content", |c| {
            list!(c, |v| jround(v, true); Int, Adj, Unt, Val, Flat, FlatMap, Vec<Int>, Option<Adj>, BTreeMap<String, Unt>, (Unt, Int))
        }),
        space("tag-order", "internally and adjacently tagged objects with the tag before, between and after the content, unknown entries included", |c| {
            let perm = c.choose(6);
            let mut p = vec![["\"type\":\"St\"", "\"t\":\"Ne\""][perm / 3 % 2].to_string(), "\"p\":9".into(), "\"u\":[{\"x\":1},null]".into()];
            let adj = c.flag();
            if adj { p[0] = "\"t\":\"Ne\"".into(); p[1] = "\"c\":{\"y\":true,\"x\":-4}".into() } else { p[0] = "\"type\":\"St\"".into() }
            p.rotate_left(perm % 3);
            if perm >= 3 { p.reverse() }
            let doc = format!("{{{}}}", p.join(" , "));
            c.state(&doc); c.sample(|| doc.clone());
            if adj {
                let r = imp(|| js::from_mut_slice::<Adj>(&mut doc.clone().into_bytes()))?;
                ensure!(r == Ok(Adj::Ne(Inner { x: -4, y: Some(true) })), "`{doc}` gives {r:?}");
            } else {
                let r = imp(|| js::from_mut_slice::<Int>(&mut doc.clone().into_bytes()))?;
                ensure!(r == Ok(Int::St { p: 9, q: None }), "`{doc}` gives {r:?}");
            }
            Ok(())
        }),
    ]
}

// ------------------------------------------------------------------ MessagePack
fn mround<T: Serialize + DeserializeOwned + PartialEq + Debug>(v: &T, fls: &[Fl]) -> R {
    for fl in fls {
        let mut out = match mser(*fl, v)? { Ok(o) => o, Err(k) => fail!("serializing {v:?} ({fl:?}) failed: {k}") };
        let n = out.len();
        ensure!(mref::skip(&out, 0) == Ok(n), "output [{}] for {v:?} is not one message", hex(&out));
        let s = mjudge(&Sh::Any, &out)?;
        ensure!(s == Seen::Accept, "output [{}] is not self-describing", hex(&out));
        out.extend([0x93, 0xc1]);
        match imp(|| mp::from_slice::<T>(&out))? { Ok((g, k)) => ensure!(g == *v && k == n, "[{}] reads back as {g:?} ({k} bytes), want {v:?} ({n} bytes) ({fl:?})", hex(&out)), Err(e) => fail!("[{}] for {v:?} rejected with {e:?} ({fl:?})", hex(&out)) }
        for k in 0..n {
            let r = imp(|| mp::from_slice::<T>(&out[..k]))?;
            ensure!(matches!(r, Err(mp::de::Error::UnexpectedEof)), "prefix of {k} bytes of [{}] gives {r:?}", hex(&out[..n]));
        }
    }
    Ok(())
}
const IN: &[Fl] = &[Fl::Idx, Fl::Named];
pub fn msgpack_spaces(t: bool) -> Vec<Space> {
    let max = if t { 5 } else { 4 };
    vec![
        space("derived", "real serde-derived structs, tuples, enums, maps with every key type, standard library types, 3 flavours, every prefix", |c| {
            list!(c, |v| mround(v, &FLS); Plain, Unsized0, Transp, Keys2, Deny, Unit0, Tup3, NewT, Ext, Vec<Ext>, Ext2, BTreeMap<KeyE, Ext2>, Option<Vec<Inner>>, BTreeMap<String, Vec<Option<u8>>>,
                (u8,), (bool, String, char), [i16; 3], [[u8; 2]; 2], VecDeque<i64>, BTreeSet<char>, Result<u8, String>, std::ops::Bound<i8>, std::marker::PhantomData<u8>,
                Wrapping<u8>, NonZeroU8, NonZeroI16, std::net::Ipv4Addr, std::net::IpAddr, Box<str>, Cow<'static, str>, usize, isize, f32, f64, [(); 0], Vec<[u8; 0]>, Keys, Addr, AddrE, BTreeMap<std::net::Ipv4Addr, std::net::Ipv4Addr>, BTreeMap<KeyA, AddrE>)
        }),
        space("derived-skips", "derived structs that skip empty fields, index and name flavours", |c| { list!(c, |v| mround(v, IN); Attr, Tree, Vec<Attr>) }),
        // serde's hand-written Range and Duration decoders only know field names
        space("derived-named", "standard library types whose own decoder only knows field names, named and array flavours", |c| { list!(c, |v| mround(v, &[Fl::Named, Fl::Compact]); std::ops::Range<u32>, std::time::Duration, Vec<std::ops::Range<u8>>) }),
        space("derived-fields", format!("derived struct, deny_unknown_fields struct and struct variant: every map of up to {max} entries over field names, alias, indexes and unknown keys with 4 values"), move |c| {
            let n = c.num(0, max);
            let e: Vec<(usize, usize, usize)> = (0..n).map(|_| (c.choose(6), c.choose(4), 0)).map(|(k, v, f)| (k, v, f)).collect();
            let form = c.choose(3);
            let mut doc = vec![0x80 | n as u8];
            for (i, (k, v, _)) in e.iter().enumerate() {
                let byidx = form == 1 || (form == 2 && i % 2 == 0);
                match (k, byidx) { (0, true) => doc.push(0), (1, true) => doc.extend([0xcc, 1]), (2, true) => doc.extend([0xcd, 0, 2]), (3, true) => doc.push(3), (5, true) => doc.push(77),
                    (k, _) => { let s = ["a", "o", "d", "z", "zed", "unknown field name that is longer than 31 bytes"][*k]; if s.len() > 31 { doc.extend([0xd9, s.len() as u8]) } else { doc.push(0xa0 | s.len() as u8) } doc.extend(s.bytes()) } }
                doc.extend_from_slice([&[5][..], &[0xc3], &[0xc0], &[0x82, 0xa1, b'a', 0x92, 1, 0x80, 0xd4, 0, 0, 0xc4, 2, 0xc1, 0x93]][*v]);
            }
            let e2: Vec<(usize, usize)> = e.iter().map(|(k, v, _)| (*k, *v)).collect();
            c.state(&doc); c.sample(|| hex(&doc));
            let want = want_s(&e2, false);
            let r = imp(|| mp::from_slice::<Fs>(&doc))?;
            let got = r.as_ref().ok().map(|(s, k)| ((s.a, s.o, s.d, s.z), *k));
            ensure!(got == want.map(|w| (w, doc.len())), "[{}] as a derived struct gives {r:?}, want {want:?}", hex(&doc));
            c.outcome(if want.is_some() { "accepted" } else { "rejected" });
            let r = imp(|| mp::from_slice::<Fd>(&doc))?;
            ensure!(r.as_ref().ok().map(|(s, _)| (s.a, s.o, s.d, s.z)) == want_s(&e2, true), "[{}] as a deny_unknown_fields struct gives {r:?}", hex(&doc));
            let v = [if form == 0 { &[0x81, 0xa1, b'V'][..] } else { &[0xde, 0, 1, 0] }, &doc].concat();
            let r = imp(|| mp::from_slice::<Fe>(&v))?;
            ensure!(r.as_ref().ok().map(|(Fe::V { a, o, d, z }, _)| (*a, *o, *d, *z)) == want, "[{}] as a struct variant gives {r:?}", hex(&v));
            Ok(())
        }),
    ]
}
pub fn msgpack_any_spaces(_t: bool) -> Vec<Space> {
    vec![
        space("derived-any", "adjacently and un-tagged enums and an untyped value tree in 3 flavours, internally tagged enums in the named flavour", |c| {
            if c.flag() { list!(c, |v| mround(v, &[Fl::Named]); Int, Vec<Int>, Unt) }
            // a unit variant of an adjacently tagged enum is a one-field struct that serde cannot read from a sequence
            if c.flag() { list!(c, |v| mround(v, IN); Adj, Option<Adj>, Vec<Adj>) }
            list!(c, |v| mround(v, &FLS); Val)
        }),
        space("flatten", "flattened structs have no known length: serialization must report the length error, and decoding a map into them works", |c| {
            let fl = *c.pick(&FLS);
            let v = Flat::g(c);
            let r = mser(fl, &v)?;
            ensure!(r == Err("MapLength".to_string()), "flattened {v:?} gives {r:?}");
            let doc = mser(Fl::Named, &BTreeMap::from([("a", v.a as i32), ("x", v.rest.x as i32)]))?.unwrap();
            let r = imp(|| mp::from_slice::<Flat>(&doc))?;
            ensure!(r.as_ref().is_ok_and(|(g, n)| g.a == v.a && g.rest.x == v.rest.x && *n == doc.len()), "[{}] as flattened struct gives {r:?}", hex(&doc));
            c.state(&format!("{v:?}"));
            Ok(())
        }),
    ]
}
