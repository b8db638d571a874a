//! Every 32-bit number, and millions of structured 64-bit ones, one by one through the real code with
//! fixed types: a bulk loop over plain calls, compared with expectations kept incrementally.
//! Also whitespace runs, characters and texts around single characters, and human-readable types.
use crate::engine::*;
use crate::jref::*;
use crate::mref::{self, hex, Fl};
use crate::gen::{wrap, U8S};
use crate::p_json::{b, chunked, INTS};
use crate::run::*;
use crate::shape::*;
use crate::{ensure, fail};
use ser_write::SerWrite;
use ser_write_json as js;
use ser_write_msgpack as mp;
use std::sync::OnceLock;

// ------------------------------------------------------------------ tools
/// a small sink without allocation
struct Tiny { b: [u8; 48], n: usize }
impl Tiny {
    fn new() -> Tiny { Tiny { b: [0; 48], n: 0 } }
    #[inline] fn got(&self) -> &[u8] { &self.b[..self.n] }
}
impl SerWrite for &mut Tiny {
    type Error = SinkErr;
    #[inline] fn write(&mut self, x: &[u8]) -> Result<(), SinkErr> { let d = self.b.get_mut(self.n..self.n + x.len()).ok_or(SinkErr)?; d.copy_from_slice(x); self.n += x.len(); Ok(()) }
}
/// decimal text of a number, counted up in place: text is b[at..]
#[derive(Clone)]
struct Dec10 { b: [u8; 24], at: usize }
impl Dec10 {
    fn of(n: u64) -> Dec10 { let s = n.to_string(); let mut d = Dec10 { b: [b'0'; 24], at: 24 - s.len() }; d.b[24 - s.len()..].copy_from_slice(s.as_bytes()); d }
    #[inline] fn up(&mut self) { let mut i = 23; loop { if self.b[i] == b'9' { self.b[i] = b'0'; i -= 1 } else { self.b[i] += 1; if i < self.at { self.at = i } break } } }
    #[inline] fn text(&self) -> &[u8] { &self.b[self.at..] }
    /// with a minus sign before it
    #[inline] fn neg(&mut self) -> &[u8] { let i = self.at - 1; self.b[i] = b'-'; &self.b[i..] }
    #[inline] fn unneg(&mut self) { self.b[self.at - 1] = b'0' }
}
/// run a bulk loop as one call of the implementation; the loop says which number went wrong
fn bulk(c: &mut Ctx, n: u64, f: impl FnOnce(&std::cell::Cell<u64>) -> Result<(), String>) -> R {
    let at = std::cell::Cell::new(0);
    match imp(|| f(&at)) { Ok(r) => r.map_err(b)?, Err(e) => fail!("{} at {}", e.msg, at.get()) }
    c.bulk(n);
    Ok(())
}
/// the same bulk loops would say the same in the other configurations, only slower
fn fast() -> bool { cfg!(all(feature = "std", not(feature = "f32"))) && !cfg!(debug_assertions) }
const CHUNK: usize = 1 << 20;
fn all32(name: &str, what: &str, f: impl Fn(std::ops::Range<u64>, &std::cell::Cell<u64>) -> Result<u64, String> + Send + Sync + 'static) -> Space {
    space(name, format!("every 32-bit pattern: {what}"), move |c| {
        let r = chunked(c, (1u64 << 32) as usize, CHUNK);
        let r = r.start as u64..r.end as u64;
        let mut n = 0;
        bulk(c, 0, |at| { n = f(r, at)?; Ok(()) })?;
        c.bulk(n);
        Ok(())
    })
}
macro_rules! say { ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)) } } }

/// 64-bit numbers with structure in decimal and in binary
pub fn nums64() -> &'static [u64] {
    static M: OnceLock<Vec<u64>> = OnceLock::new();
    M.get_or_init(|| {
        let mut v: Vec<u64> = vec![];
        // five groups of four decimal digits
        const P: [u64; 15] = [0, 1, 7, 10, 70, 99, 100, 700, 999, 1000, 1234, 4096, 5000, 9990, 9999];
        let mut gs = vec![0u128];
        for _ in 0..5 { gs = gs.iter().flat_map(|g| P.iter().map(move |p| g * 10000 + *p as u128)).collect() }
        v.extend(gs.into_iter().filter(|g| *g <= u64::MAX as u128).map(|g| g as u64));
        // four groups of sixteen bits
        const Q: [u64; 14] = [0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x1234, 0x7fff, 0x8000, 0x8001, 0xff00, 0xfffe, 0xffff];
        let mut gs = vec![0u64];
        for _ in 0..4 { gs = gs.iter().flat_map(|g| Q.iter().map(move |p| g << 16 | p)).collect() }
        v.extend(gs);
        for a in 0..64 { for b in 0..64 { for c in 0..64 { let (x, y, z) = (1u64 << a, 1u64 << b, 1u64 << c); v.extend([x.wrapping_add(y).wrapping_add(z), x.wrapping_sub(y).wrapping_sub(z), x.wrapping_add(y).wrapping_sub(z)]) } } }
        // around powers, and multiples of powers of ten
        for k in 0..64 { for d in 0..1024u64 { v.push((1u64 << k).wrapping_add(d)); v.push((1u64 << k).wrapping_sub(d)) } }
        let mut p = 1u64;
        loop { for d in 0..1024u64 { v.push(p.wrapping_add(d)); v.push(p.wrapping_sub(d)); v.push(p.wrapping_mul(d)) } match p.checked_mul(10) { Some(x) => p = x, None => break } }
        v.sort_unstable(); v.dedup();
        v
    })
}
fn some64(name: &str, what: &str, f: impl Fn(&[u64], &std::cell::Cell<u64>) -> Result<u64, String> + Send + Sync + 'static) -> Space {
    space(name, format!("{} 64-bit numbers (every combination of 15 four-digit and of 14 sixteen-bit groups, sums and differences of 3 powers of two, 1023 on both sides of powers of two and ten, and up to 1023 times powers of ten): {what}", nums64().len()), move |c| {
        let r = chunked(c, nums64().len(), 1 << 14);
        let mut n = 0;
        bulk(c, 0, |at| { n = f(&nums64()[r], at)?; Ok(()) })?;
        c.bulk(n);
        Ok(())
    })
}
fn show_b(x: &[u8]) -> String { show(x) }

// ------------------------------------------------------------------ printing
#[inline] fn put<T: serde::Serialize>(w: &mut Tiny, x: T, want: &[u8]) -> Result<(), String> {
    w.n = 0;
    let r = js::to_writer(&mut *w, &x);
    say!(r.is_ok() && w.got() == want, "{} is printed as `{}`{}", show_b(want), show_b(w.got()), if r.is_err() { " with an error" } else { "" });
    Ok(())
}
struct Key<T>(T);
impl<T: serde::Serialize> serde::Serialize for Key<T> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { use serde::ser::SerializeMap; let mut m = s.serialize_map(Some(1))?; m.serialize_entry(&self.0, &true)?; m.end() }
}
fn put_key<T: serde::Serialize>(w: &mut Tiny, x: T, want: &[u8]) -> Result<(), String> {
    let mut e = [0u8; 48];
    let n = want.len();
    e[..2].copy_from_slice(b"{\""); e[2..2 + n].copy_from_slice(want); e[2 + n..n + 9].copy_from_slice(b"\":true}");
    put(w, Key(x), &e[..n + 9])
}
fn print32(t: bool) -> Space {
    all32("u32-all", if t { "printed as unsigned, as signed and negated, as value and key, and as 64 bits" } else { "printed as unsigned, as signed and negated" }, move |r, at| {
        let mut d = Dec10::of(r.start);
        let mut w = Tiny::new();
        let mut n = 0;
        for x in r {
            at.set(x);
            put(&mut w, x as u32, d.text())?;
            if t { put_key(&mut w, x as u32, d.text())?; put(&mut w, x, d.text())?; n += 2 }
            if x < 1 << 31 { put(&mut w, x as i32, d.text())?; n += 1 }
            if x > 0 && x <= 1 << 31 { let m = d.neg(); put(&mut w, (x as i32).wrapping_neg(), m)?; if t { put_key(&mut w, (x as i32).wrapping_neg(), m)?; put(&mut w, -(x as i64), m)?; n += 2 } n += 1; d.unneg() }
            n += 1;
            d.up();
        }
        Ok(n)
    })
}
fn print64() -> Space {
    some64("integers-64", "printed as u64, i64 and negated i64, as value and key", |xs, at| {
        let mut w = Tiny::new();
        let mut n = 0;
        for &x in xs {
            at.set(x);
            let s = x.to_string();
            put(&mut w, x, s.as_bytes())?; put_key(&mut w, x, s.as_bytes())?; n += 2;
            if x <= i64::MAX as u64 { put(&mut w, x as i64, s.as_bytes())?; put_key(&mut w, x as i64, s.as_bytes())?; n += 2 }
            if x > 0 && x <= 1 << 63 { let m = format!("-{s}"); let y = (x as i64).wrapping_neg(); put(&mut w, y, m.as_bytes())?; put_key(&mut w, y, m.as_bytes())?; n += 2 }
        }
        Ok(n)
    })
}
/// floats with few mantissa bits and every f32 exponent are in the grids: this is every f32
fn print_f32() -> Space {
    all32("f32-all", "printed as a number which reads as the same float, in valid JSON", |r, at| {
        let mut w = Tiny::new();
        let m = r.end - r.start;
        for x in r {
            at.set(x);
            let f = f32::from_bits(x as u32);
            w.n = 0;
            let ok = js::to_writer(&mut w, &f).is_ok();
            let s = std::str::from_utf8(w.got()).map_err(|_| format!("{f:e} is printed as {:x?}", w.got()))?;
            if !f.is_finite() { say!(ok && s == "null", "{f:e} is printed as `{s}`"); continue }
            say!(ok && rfc_number(s.as_bytes()).is_some() && s.parse::<f32>().is_ok_and(|g| g == f), "{f:e} is printed as `{s}`");
        }
        Ok(m)
    })
}

// ------------------------------------------------------------------ parsing
/// one text as every integer type
fn parse8(text: &[u8], v: i128) -> Result<u64, String> {
    let mut buf = [0u8; 48];
    let d = &mut buf[..text.len()];
    d.copy_from_slice(text);
    macro_rules! one { ($($t:ty),*) => { $(
        let r = js::from_mut_slice::<$t>(d).ok();
        let want = <$t>::try_from(v).ok();
        say!(r == want, "`{}` as {} gives {r:?}, want {want:?}", show_b(text), stringify!($t));
    )* } }
    one!(i8, i16, i32, i64, u8, u16, u32, u64);
    Ok(8)
}
fn parse32(t: bool) -> Space {
    all32("u32-all", if t { "its text, and the negated text, read as u32, i32, u64 and i64" } else { "its text read as u32, and the signed text as i32" }, move |r, at| {
        let mut d = Dec10::of(r.start);
        let mut n = 0;
        macro_rules! one { ($s:expr, $v:expr, $t:ty) => {{ let s: &[u8] = $s; let mut buf = [0u8; 24]; let k = s.len(); buf[..k].copy_from_slice(s); let r = js::from_mut_slice::<$t>(&mut buf[..k]).ok(); let want = <$t>::try_from($v).ok(); say!(r == want, "`{}` as {} gives {r:?}, want {want:?}", show_b(s), stringify!($t)); n += 1; }} }
        for x in r {
            at.set(x);
            one!(d.text(), x, u32);
            if t { one!(d.text(), x, u64); one!(d.text(), x, i64); one!(d.text(), x, i32) }
            if x > 0 { if t || x <= 1 << 31 { one!(d.neg(), -(x as i64), i32) } if t { one!(d.neg(), -(x as i64), i64) } d.unneg() }
            d.up();
        }
        Ok(n)
    })
}
fn parse64() -> Space {
    some64("integers-64", "the text, negated, and with one more digit, read as 8 integer types", |xs, at| {
        let mut n = 0;
        for &x in xs {
            at.set(x);
            let s = format!("-{x}");
            n += parse8(&s.as_bytes()[1..], x as i128)?;
            if x > 0 { n += parse8(s.as_bytes(), -(x as i128))? }
            if x >= 1 << 55 { let k = x % 10; let s = format!("-{x}{k}"); let v = x as i128 * 10 + k as i128; n += parse8(&s.as_bytes()[1..], v)?; n += parse8(s.as_bytes(), -v)? }
        }
        Ok(n)
    })
}
#[derive(Debug, PartialEq, Clone, Copy)]
enum Num { U(u64), I(i64), F(u64) }
struct AnyNum(Num);
impl<'de> serde::Deserialize<'de> for AnyNum {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct Vi;
        impl<'de> serde::de::Visitor<'de> for Vi {
            type Value = Num;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("a number") }
            fn visit_u64<E>(self, x: u64) -> Result<Num, E> { Ok(Num::U(x)) }
            fn visit_i64<E>(self, x: i64) -> Result<Num, E> { Ok(Num::I(x)) }
            fn visit_f64<E>(self, x: f64) -> Result<Num, E> { Ok(Num::F(x.to_bits())) }
        }
        d.deserialize_any(Vi).map(AnyNum)
    }
}
/// an integer without a hint, whichever of the two integer kinds it comes as
fn any_is(g: Num, v: i128) -> bool { match g { Num::U(x) => x as i128 == v, Num::I(x) => x as i128 == v, Num::F(x) => !(v >= i64::MIN as i128 && v <= u64::MAX as i128) && f64::from_bits(x) == v as f64 } }
fn any_text(text: &[u8], v: i128) -> Result<(), String> {
    let mut buf = [0u8; 48];
    let d = &mut buf[..text.len()];
    d.copy_from_slice(text);
    let r = js::from_mut_slice::<AnyNum>(d).map(|x| x.0);
    say!(matches!(r, Ok(g) if any_is(g, v)), "`{}` without a type hint gives {r:?}", show_b(text));
    Ok(())
}
fn any32() -> Space {
    all32("u32-all", "its text, and the negated text, read without a type hint", |r, at| {
        let mut d = Dec10::of(r.start);
        let n = 2 * (r.end - r.start);
        for x in r { at.set(x); any_text(d.text(), x as i128)?; any_text(d.neg(), -(x as i128))?; d.unneg(); d.up() }
        Ok(n)
    })
}
fn any64() -> Space {
    some64("integers-64", "the text, negated, and with one more digit, read without a type hint", |xs, at| {
        for &x in xs {
            at.set(x);
            let s = format!("-{x}");
            any_text(&s.as_bytes()[1..], x as i128)?; if x > 0 { any_text(s.as_bytes(), -(x as i128))? }
            if x >= 1 << 55 { let k = x % 10; let s = format!("-{x}{k}"); let v = x as i128 * 10 + k as i128; any_text(&s.as_bytes()[1..], v)?; any_text(s.as_bytes(), -v)? }
        }
        Ok(4 * xs.len() as u64)
    })
}
/// every f32 printed the shortest way, read back as f32
fn parse_f32() -> Space {
    all32("f32-all", "round trip of every f32", |r, at| {
        let mut w = Tiny::new();
        let m = r.end - r.start;
        for x in r {
            at.set(x);
            let f = f32::from_bits(x as u32);
            w.n = 0;
            let ok = js::to_writer(&mut w, &f).is_ok();
            let n = w.n;
            let g = js::from_mut_slice::<f32>(&mut w.b[..n]);
            say!(ok && matches!(g, Ok(g) if g == f || g.is_nan() && !f.is_finite()), "{f:e} reads back as {g:?}");
        }
        Ok(m)
    })
}

// ------------------------------------------------------------------ MessagePack
/// is it a shortest encoding of `v`?
#[inline] fn least(m: &[u8], v: i128, unsigned: bool) -> bool {
    let be = |n: usize| m[1..1 + n].iter().fold(0u64, |a, x| a << 8 | *x as u64);
    let Some(&c) = m.first() else { return false };
    let k = match c { 0..=0x7f | 0xe0..=0xff => 0, 0xcc | 0xd0 => 1, 0xcd | 0xd1 => 2, 0xce | 0xd2 => 4, 0xcf | 0xd3 => 8, _ => return false };
    if unsigned && c >= 0xd0 { return false }
    if m.len() != k + 1 || mref::int_size(v) != k + 1 { return false }
    v == match c { 0..=0x7f => c as i128, 0xe0..=0xff => c as i8 as i128, 0xcc..=0xcf => be(k) as i128, _ => { let s = 64 - 8 * k; ((be(k) << s) as i64 >> s) as i128 } }
}
fn enc<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug + Copy>(w: &mut Tiny, x: T, v: i128, back: bool) -> Result<(), String> {
    w.n = 0;
    let r = mp::to_writer(&mut *w, &x);
    let n = w.n;
    say!(r.is_ok() && (back || least(w.got(), v, std::any::type_name::<T>().starts_with('u'))), "{v} is written as [{}]{}", hex(w.got()), if r.is_err() { " with an error" } else { "" });
    if back { let r = mp::from_slice::<T>(w.got()); say!(matches!(&r, Ok((g, m)) if *g == x && *m == n), "[{}] reads back as {r:?}, want {v}", hex(w.got())) }
    Ok(())
}
fn mprint32(back: bool, t: bool) -> Space {
    all32("u32-all", if back { "written as u32 and i32, read back" } else if t { "written as u32, i32, u64 and i64 the shortest way" } else { "written as u32 and i32 the shortest way" }, move |r, at| {
        let mut w = Tiny::new();
        let n = (r.end - r.start) * if back || !t { 2 } else { 4 };
        for x in r {
            at.set(x);
            enc(&mut w, x as u32, x as i128, back)?; enc(&mut w, x as i32, x as i32 as i128, back)?;
            if t && !back { enc(&mut w, x, x as i128, false)?; enc(&mut w, x as i32 as i64, x as i32 as i128, false)? }
        }
        Ok(n)
    })
}
fn mprint64(back: bool) -> Space {
    some64("integers-64", if back { "written as u64 and i64, read back" } else { "written as u64 and i64 the shortest way" }, move |xs, at| {
        let mut w = Tiny::new();
        for &x in xs {
            at.set(x);
            enc(&mut w, x, x as i128, back)?; enc(&mut w, x as i64, x as i64 as i128, back)?;
            enc(&mut w, (x as i64).wrapping_neg(), (x as i64).wrapping_neg() as i128, back)?;
        }
        Ok(3 * xs.len() as u64)
    })
}
fn mround_f32() -> Space {
    all32("f32-all", "written as f32 and as the equal f64, read back bit by bit", |r, at| {
        let mut w = Tiny::new();
        let n = 2 * (r.end - r.start);
        for x in r {
            at.set(x);
            let f = f32::from_bits(x as u32);
            w.n = 0;
            let ok = mp::to_writer(&mut w, &f).is_ok();
            let g = mp::from_slice::<f32>(w.got());
            say!(ok && matches!(g, Ok((g, 5)) if g.to_bits() == f.to_bits()), "{f:e} ({x:x}) is written as [{}] and reads back as {g:?}", hex(w.got()));
            let f = f as f64;
            w.n = 0;
            let ok = mp::to_writer(&mut w, &f).is_ok();
            let g = mp::from_slice::<f64>(w.got());
            say!(ok && matches!(g, Ok((g, 9)) if g.to_bits() == f.to_bits()), "{f:e} is written as [{}] and reads back as {g:?}", hex(w.got()));
        }
        Ok(n)
    })
}
/// a message of an integer, read as every number type
#[inline] fn conv(m: &[u8], v: i128, wide: bool) -> Result<u64, String> {
    macro_rules! one { ($($t:ty),*) => { $(
        let r = mp::from_slice::<$t>(m).ok();
        let want = <$t>::try_from(v).ok().map(|x| (x, m.len()));
        say!(r == want, "[{}] as {} gives {r:?}, want {want:?}", hex(m), stringify!($t));
    )* } }
    macro_rules! fl { ($($t:ty),*) => { $(
        let r = mp::from_slice::<$t>(m).ok();
        let want = if v < 0 { v as i64 as $t } else { v as u64 as $t };
        say!(r == Some((want, m.len())), "[{}] as {} gives {r:?}, want {want:?}", hex(m), stringify!($t));
    )* } }
    one!(i32, u32); fl!(f32, f64);
    if wide { one!(i64, u64, i8, u8, i16, u16); return Ok(10) }
    Ok(4)
}
fn conv32(t: bool) -> Space {
    all32("u32-all", if t { "as unsigned, signed and float payload, read as 10 number types" } else { "as unsigned payload, read as u32, i32 and f32, and as signed payload, read as i32 and f32" }, move |r, at| {
        let mut n = 0;
        for x in r {
            at.set(x);
            let [p, q, y, z] = (x as u32).to_be_bytes();
            let (m, s) = ([0xce, p, q, y, z], [0xd2, p, q, y, z]);
            if !t {
                let (x, i) = (x as u32, x as u32 as i32);
                let g = mp::from_slice::<u32>(&m); say!(matches!(g, Ok((g, 5)) if g == x), "[{}] as u32 gives {g:?}", hex(&m));
                let g = mp::from_slice::<i32>(&m); say!(if i < 0 { g.is_err() } else { matches!(g, Ok((g, 5)) if g == i) }, "[{}] as i32 gives {g:?}", hex(&m));
                let g = mp::from_slice::<f32>(&m); say!(matches!(g, Ok((g, 5)) if g == x as f32), "[{}] as f32 gives {g:?}", hex(&m));
                let g = mp::from_slice::<i32>(&s); say!(matches!(g, Ok((g, 5)) if g == i), "[{}] as i32 gives {g:?}", hex(&s));
                let g = mp::from_slice::<f32>(&s); say!(matches!(g, Ok((g, 5)) if g == i as f32), "[{}] as f32 gives {g:?}", hex(&s));
                n += 5;
            } else {
                n += conv(&m, x as i128, t)?;
                n += conv(&s, x as u32 as i32 as i128, t)?;
                let m = [0xca, p, q, y, z];
                let f = f32::from_bits(x as u32);
                let g = mp::from_slice::<f32>(&m); say!(matches!(g, Ok((g, 5)) if g.to_bits() == f.to_bits()), "[{}] as f32 gives {g:?}", hex(&m));
                let g = mp::from_slice::<f64>(&m); say!(matches!(g, Ok((g, 5)) if g.to_bits() == (f as f64).to_bits() || g.is_nan() && f.is_nan()), "[{}] as f64 gives {g:?}", hex(&m));
                let g = mp::from_slice::<i64>(&m); say!(g.is_err(), "[{}] as i64 gives {g:?}", hex(&m));
                let g = mp::from_slice::<u32>(&m); say!(g.is_err(), "[{}] as u32 gives {g:?}", hex(&m));
                n += 4;
            }
        }
        Ok(n)
    })
}
fn conv64() -> Space {
    some64("integers-64", "as unsigned and signed 64-bit payload, and as float bits, read as 10 number types", |xs, at| {
        let mut n = 0;
        for &x in xs {
            at.set(x);
            let mut m = [0xcf, 0, 0, 0, 0, 0, 0, 0, 0];
            m[1..].copy_from_slice(&x.to_be_bytes());
            n += conv(&m, x as i128, true)?;
            m[0] = 0xd3; n += conv(&m, x as i64 as i128, true)?;
            let y = (x as i64).wrapping_neg(); m[1..].copy_from_slice(&y.to_be_bytes()); n += conv(&m, y as i128, true)?;
            m[0] = 0xcb;
            for y in [x, y as u64] {
                m[1..].copy_from_slice(&y.to_be_bytes());
                let f = f64::from_bits(y);
                let g = mp::from_slice::<f64>(&m); say!(matches!(g, Ok((g, 9)) if g.to_bits() == y), "[{}] as f64 gives {g:?}", hex(&m));
                let g = mp::from_slice::<f32>(&m); say!(matches!(g, Ok((g, 9)) if g.to_bits() == (f as f32).to_bits() || g.is_nan() && f.is_nan()), "[{}] as f32 gives {g:?}", hex(&m));
                let g = mp::from_slice::<u64>(&m); say!(g.is_err(), "[{}] as u64 gives {g:?}", hex(&m));
                n += 3;
            }
        }
        Ok(n)
    })
}
fn many64() -> Space {
    some64("integers-64", "as unsigned and signed payload, read without a type hint", |xs, at| {
        for &x in xs {
            at.set(x);
            for (lead, v) in [(0xcf, x as i128), (0xd3, x as i64 as i128)] {
                let mut m = [lead, 0, 0, 0, 0, 0, 0, 0, 0];
                m[1..].copy_from_slice(&x.to_be_bytes());
                let r = mp::from_slice::<AnyNum>(&m).map(|(x, n)| (x.0, n));
                say!(matches!(r, Ok((g, 9)) if any_is(g, v)), "[{}] without a type hint gives {r:?}", hex(&m));
            }
        }
        Ok(2 * xs.len() as u64)
    })
}

pub fn extra(prop: &str, t: bool) -> Vec<Space> {
    let mut v = vec![];
    if fast() {
        match prop {
            "J03" => { v.extend([print32(t), print64()]); if t { v.push(print_f32()) } }
            "J05" => if t { v.push(parse_f32()) },
            "J08" => v.extend([parse32(t), parse64()]),
            "J09" => { v.push(any64()); if t { v.push(any32()) } }
            "M01" => v.extend([mprint32(false, t), mprint64(false)]),
            "M02" => v.extend([mprint32(true, t), mprint64(true), mround_f32()]),
            "M04" => v.extend([conv32(t), conv64()]),
            "M10" => v.push(many64()),
            _ => {}
        }
    }
    match prop {
        "J06" | "J07" | "J08" | "J09" | "J10" | "J11" | "J12" => v.extend(json_pairs(prop, t)),
        "M03" | "M04" | "M05" | "M10" => v.extend(mp_pairs(prop, t)),
        _ => {}
    }
    match prop {
        "J06" => v.extend([whitespace(t), chars(true)]),
        "J08" => v.push(foreign_digit(INTS.iter().collect(), "as 8 integer types")),
        "J09" => v.push(foreign_digit(vec![&Sh::Any], "without a type hint")),
        "J10" => v.push(foreign_digit(vec![&Sh::Ign], "ignored")),
        "M03" => v.push(chars(false)),
        _ => {}
    }
    v
}

// ------------------------------------------------------------------ whitespace runs
/// documents with every kind of place for whitespace, by `~`
const GAPS: &[(S, &str)] = &[
    (&Sh::Seq(&Sh::Seq(&Sh::Bool)), "~[~[~true~,~false~]~,~[~]~]~"),
    (&Sh::Map(&Sh::BStr, &Sh::Int(IT::U8)), "~{~\"a\"~:~7~,~\"\\n\"~:~8~}~"),
    (&Sh::Map(&Sh::Int(IT::I16), &Sh::Opt(&Sh::F64)), "~{~\"-5\"~:~null~,~\"6\"~:~1.5e1~}~"),
    (&Sh::Tup(&[&Sh::Bytes, &Sh::Unit, &Sh::Char]), "~[~[~1~,~255~]~,~null~,~\"c\"~]~"),
    (&Sh::Any, "~{~\"a\"~:~[~1~,~-2.5~,~\"x y\"~,~{~}~,~[~]~]~,~\"b\"~:~null~}~"),
    (&Sh::Ign, "~[~{~\"a\"~:~[~1~,~true~]~}~,~\"\\\"\"~,~3~,~{~}~]~"),
    (&Sh::Opt(&Sh::BStr), "~\"a  b\"~"), (&Sh::Int(IT::I64), "~-12~"), (&Sh::F32, "~0.5~"), (&Sh::Bool, "~false~"), (&Sh::Unit, "~null~"),
];
fn ws_lens(t: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=70).collect();
    for k in 7..=17 { let b = 1usize << k; v.extend(if t || k < 10 { b - 2..=b + 2 } else { b..=b + 1 }) }
    v.extend([80, 90, 100, 200, 1000]);
    v.sort(); v.dedup();
    v
}
/// what a run of whitespace may be made of
fn ws_run(k: usize, n: usize) -> Vec<u8> {
    match k {
        0..=3 => vec![b" \t\n\r"[k]; n],
        4 => (0..n).map(|i| b" \t\n\r"[i % 4]).collect(),
        // line breaks and indentation
        5 => (0..n).map(|i| if i == 0 { b'\n' } else { b' ' }).collect(),
        _ => (0..n).map(|i| match i % 9 { 0 => b'\r', 1 => b'\n', 2..=4 => b'\t', _ => b' ' }).collect(),
    }
}
fn whitespace(t: bool) -> Space {
    let ls = ws_lens(t);
    let mut gaps = GAPS.to_vec();
    for (k, ev) in [(7, 0), (8, 0), (8, 1), (8, 2), (4, 0), (6, 0)] {
        let sh = wrap(k, &Sh::Bool);
        let out = jser_ok(Enc::Arr, sh, &crate::p_scale::line(sh, ev, 1)).unwrap();
        let txt: Vec<String> = crate::p_json::lex(&out).iter().map(|t| String::from_utf8(t.clone()).unwrap()).collect();
        gaps.push((sh, Box::leak(format!("~{}~", txt.join("~")).into_boxed_str())));
    }
    space("whitespace-runs", format!("{} documents with a run of each of 7 kinds of whitespace of {} lengths up to {} at every place for it and at all of them, alone and with a foreign byte at either end or in the middle of the run", gaps.len(), ls.len(), ls.last().unwrap()), move |c| {
        let (sh, pat) = *c.pick(&gaps);
        let parts: Vec<&str> = pat.split('~').collect();
        let at = c.choose(parts.len());
        let all = at == 0;
        let k = c.choose(7);
        let n = *c.pick(&ls);
        if all && n > 300 { return Ok(()) }
        let build = |run: &[u8]| -> Vec<u8> { let mut d = vec![]; for (i, p) in parts.iter().enumerate() { if i > 0 && (all || i == at) { d.extend_from_slice(run) } d.extend_from_slice(p.as_bytes()) } d };
        let run = ws_run(k, n);
        let plain = build(b"");
        ensure!(jjudge(sh, &plain, Dec::Nope)? != Seen::Reject, "harness: {}", show(&plain));
        let d = build(&run);
        let s = jjudge(sh, &d, Dec::Nope)?;
        ensure!(s == Seen::Accept || s == Seen::Free, "harness: {}", show(&d[..d.len().min(200)]));
        let mut m = 2;
        if !all && n > 0 {
            for x in [0u8, 1, 8, 0x0b, 0x0c, 0x0e, 0x1f, 0x21, 0x7f, 0x80, 0x85, 0xa0, b'_', b'0', b'"'] {
                for p in [0, n / 2, n.saturating_sub(1), n] { if n > 300 && p != n - 1 { continue } let mut r = run.clone(); if p == n { r.push(x) } else { r[p] = x } let d = build(&r); jjudge(sh, &d, Dec::Nope)?; m += 1 }
            }
        }
        c.bulk(m);
        Ok(())
    })
}

// ------------------------------------------------------------------ characters
/// one character: everything that is not exactly one
fn chars(json: bool) -> Space {
    space("chars", "every character alone, doubled, after and before another of 1, 2, 3 and 4 bytes, as character and as key", move |c| {
        let r = chunked(c, 0x110000, 1024);
        let mut k = 0;
        for ch in r.filter_map(|x| char::from_u32(x as u32)) {
            let mut texts = vec![format!("{ch}"), format!("{ch}{ch}")];
            for o in ["a", "é", "\u{20ac}", "😀", "\0"] { texts.push(format!("{ch}{o}")); texts.push(format!("{o}{ch}")); }
            for (i, t) in texts.iter().enumerate() {
                let x = t.as_bytes();
                let s = if json {
                    if x.iter().any(|b| *b < 0x20 || *b == b'"' || *b == b'\\') {
                        let e: String = t.chars().map(|c| if (c as u32) < 0x20 || c == '"' || c == '\\' { format!("\\u{:04x}", c as u32) } else { c.to_string() }).collect();
                        jjudge(&Sh::Char, format!("\"{e}\"").as_bytes(), Dec::Nope)?
                    } else { if i < 4 { jjudge(&Sh::Map(&Sh::Char, &Sh::Unit), format!("{{\"{t}\":null}}").as_bytes(), Dec::Nope)?; } jjudge(&Sh::Char, format!("\"{t}\"").as_bytes(), Dec::Nope)? }
                } else {
                    if i < 4 { mjudge(&Sh::Map(&Sh::Char, &Sh::Unit), &[&[0x81, 0xa0 | x.len() as u8], x, &[0xc0]].concat())?; }
                    mjudge(&Sh::Char, &[&[0xd9, x.len() as u8], x].concat())?
                };
                ensure!((s == Seen::Accept) == (i == 0), "harness: {t:?} is judged {s:?}");
                k += 1;
            }
        }
        c.bulk(k);
        Ok(())
    })
}
// ------------------------------------------------------------------ digits in groups
/// a foreign byte among the digits, for whatever reads them several at a time
fn foreign_digit(shapes: Vec<S>, what: &str) -> Space {
    let lists: Vec<(S, S, Option<S>)> = shapes.iter().map(|s| (*s, leak(Sh::Seq(s)) as S, matches!(s, Sh::Int(_) | Sh::Any).then(|| leak(Sh::Map(s, U8S)) as S))).collect();
    space("foreign-digit", format!("numbers of 1 to 20 digits with every byte in place of each digit and before each, {what}"), move |c| {
        let n = c.num(1, 20);
        let p = c.choose(n);
        let base = *c.pick(&["18446744073709551615", "99999999999999999999", "12345678901234567890", "10000000000000000000"]);
        let k = c.choose(4);
        c.state(&(n, p, base, k));
        let mut m = 0;
        for x in 0..=255u8 { for ins in [false, true] {
            let mut d = base.as_bytes()[..n].to_vec();
            if ins { d.insert(p, x) } else { d[p] = x }
            let (pre, post): (&[u8], &[u8]) = [(&b""[..], &b""[..]), (b"-", b""), (b"[", b",1]"), (b"{\"", b"\":1}")][k];
            for (one, seq, map) in &lists {
                let sh: S = match k { 2 => seq, 3 => match map { Some(m) => m, None => continue }, _ => one };
                jjudge(sh, &[pre, &d, post].concat(), Dec::Nope)?;
                m += 1;
            }
        } }
        c.bulk(m);
        Ok(())
    })
}

// ------------------------------------------------------------------ pairs of bytes
/// every pair of positions of a short document holding every pair of bytes
fn pair_edits(docs: Vec<(S, Vec<u8>, Vec<Dec>)>, mp: bool, what: &str) -> Space {
    // (document, first position, first byte) are the choices
    space("pair-edits", format!("every pair of bytes at every pair of positions of {} short documents ({what})", docs.len()), move |c| {
        let i = c.choose(docs.len());
        let (sh, doc, decs) = &docs[i];
        let p = c.choose(doc.len() - 1);
        let r = chunked(c, 256, 32);
        let dec = decs[c.choose(decs.len())];
        let mut d = doc.clone();
        let mut n = 0;
        for x in r {
            d[p] = x as u8;
            for q in p + 1..d.len() {
                let old = d[q];
                for y in 0..=255u8 { d[q] = y; if mp { mjudge(sh, &d)?; } else { jjudge(sh, &d, dec)?; } }
                d[q] = old;
                n += 256;
            }
        }
        c.bulk(n);
        Ok(())
    })
}
/// every three bytes at every place of three neighbours
fn triple_edits(docs: Vec<(S, Vec<u8>, Vec<Dec>)>, mp: bool, what: &str) -> Space {
    let docs: Vec<_> = docs.into_iter().filter(|d| d.1.len() <= 7).collect();
    space("triple-edits", format!("every three bytes at every three neighbouring positions of {} documents of up to 7 bytes ({what})", docs.len()), move |c| {
        let i = c.choose(docs.len());
        let (sh, doc, decs) = &docs[i];
        if doc.len() < 3 { return Ok(()) }
        let p = c.choose(doc.len() - 2);
        let dec = decs[c.choose(decs.len())];
        let r = chunked(c, 256, 1);
        let mut d = doc.clone();
        for x in r {
            d[p] = x as u8;
            for y in 0..=255u8 { d[p + 1] = y; for z in 0..=255u8 { d[p + 2] = z; if mp { mjudge(sh, &d)?; } else { jjudge(sh, &d, dec)?; } } }
        }
        c.bulk(65536);
        Ok(())
    })
}
fn json_pairs(prop: &str, t: bool) -> Vec<Space> {
    let m = |s: &'static str| s.as_bytes().to_vec();
    let nope = || vec![Dec::Nope];
    let mut v: Vec<(S, Vec<u8>, Vec<Dec>)> = vec![];
    let mut put = |sh: S, l: &[&'static str], decs: Vec<Dec>| for s in l { if t || s.len() <= 14 { v.push((sh, m(s), decs.clone())) } };
    let i16s: S = &Sh::Int(IT::I16);
    match prop {
        "J06" => {
            put(leak(Sh::Seq(U8S)), &["[1, 20]", "[ ]\n", "[255,0,1,64]"], nope());
            put(leak(Sh::Seq(&Sh::BStr)), &["[\"a\",\"\"]", "[\"\\n\\\"\",\"ab\"]"], nope());
            put(leak(Sh::Map(U8S, &Sh::Bool)), &["{\"1\":true}"], nope());
            put(leak(Sh::Map(&Sh::BStr, U8S)), &["{\"a\" :1}", "{\"a\":1,\"b\":2}"], nope());
            put(leak(Sh::Opt(&Sh::Unit)), &["null ", " null"], nope());
            put(&Sh::Bool, &["\ttrue", "false\r"], nope());
            put(leak(Sh::Tup(&[&Sh::Char, &Sh::Unit])), &["[\"c\",null]"], nope());
            put(wrap(8, U8S), &["{\"Nt\":5}", "\"Ut\" ", "{\"T\":[]}"], nope());
            put(&Sh::F64, &["-1.5e+1", " 0.25"], nope());
        }
        "J07" => { put(&Sh::BStr, &["\"a\\n\u{e9}\"", "\"\\u0041\"", "\"\\\\\\\"\"", "\"\u{1f600}b\"", "\"abcdef\"", "\"\\ud83d\\ude00\""], nope()); put(&Sh::Char, &["\"\\t\"", "\"\u{20ac}\""], nope()); }
        "J08" => { for sh in [U8S, i16s, &Sh::Int(IT::I64)] { put(sh, &[" -128", "65535 ", "[32767]", "\"127\"", "1234567"], nope()) } put(leak(Sh::Map(i16s, U8S)), &["{\"-5\":1}", "{\"300\":25}"], nope()); }
        "J09" => put(&Sh::Any, &["-12.5e3", "1234567", "[1,null]", "{\"a\":2}", "\"x\\ty\"", "-12345678", "[true,{}]"], nope()),
        "J10" => put(&Sh::Ign, &["-12.5e3", "[1,null]", "{\"a\":2}", "\"x\\\\\\\"\"", "[{},[]]", "{\"\":[1]}", "[false,\"]\"]"], nope()),
        "J11" => { let all = vec![Dec::Nope, Dec::Hex, Dec::B64]; put(&Sh::Bytes, &["\"00fF\"", "\"AQIDBA==\"", "\"AQIDBAU=\"", "\"AQ==\"", "[1,255]", "[ ]", "[10,20]", "\"\\n\\u00e9\""], all) }
        "J12" => { put(leak(Sh::Tup(&[&Sh::Bytes, &Sh::BStr])), &["[\"0a\",\"\"]"], vec![Dec::Hex, Dec::B64]); put(&Sh::Any, &["[{\"\":-1}]"], nope()); put(leak(Sh::Map(&Sh::Bool, &Sh::F32)), &["{\"true\":1}"], nope()) }
        _ => unreachable!()
    }
    if t { vec![pair_edits(v.clone(), false, "JSON"), triple_edits(v, false, "JSON")] } else { vec![pair_edits(v, false, "JSON")] }
}
fn mp_pairs(prop: &str, t: bool) -> Vec<Space> {
    let mut v: Vec<(S, Vec<u8>, Vec<Dec>)> = vec![];
    let mut put = |sh: S, l: &[&[u8]]| for d in l { if t || d.len() <= 14 { v.push((sh, d.to_vec(), vec![Dec::Nope])) } };
    match prop {
        "M03" => {
            put(leak(Sh::Seq(U8S)), &[&[0x93, 1, 0xcc, 200, 3], &[0xdc, 0, 2, 1, 2, 3], &[0xdd, 0, 0, 0, 2, 1, 2]]);
            put(leak(Sh::Map(&Sh::BStr, U8S)), &[&[0x81, 0xa1, b'k', 7, 0], &[0xde, 0, 1, 0xa2, b'k', b'l', 7]]);
            put(leak(Sh::Opt(&Sh::Bytes)), &[&[0xc4, 2, 1, 2, 3], &[0xc5, 0, 3, 1, 2, 3, 4]]);
            put(&Sh::BStr, &[&[0xa3, 0xe2, 0x82, 0xac, 0], &[0xd9, 3, b'a', b'b', b'c', b'd'], &[0xda, 0, 2, b'x', b'y', b'z']]);
            put(&Sh::Char, &[&[0xa4, 0xf0, 0x9f, 0x98, 0x80]]);
            put(wrap(8, U8S), &[&[0x81, 1, 5, 0], &[2, 0xcc, 0, 0], &[0x81, 0xa1, b'T', 0x90, 0]]);
            put(wrap(7, U8S), &[&[0x93, 1, 0xa1, b'x', 0xc0], &[0x82, 0, 1, 1, 0xa0, 2]]);
            put(&Sh::Bool, &[&[0xc3, 0xc2]]); put(&Sh::Unit, &[&[0xc0, 0]]);
        }
        "M04" => for sh in [&Sh::Int(IT::U8) as S, &Sh::Int(IT::I8), &Sh::Int(IT::I32), &Sh::Int(IT::U64), &Sh::F32, &Sh::F64] { put(sh, &[&[0xcd, 1, 0], &[0xd2, 0xff, 0xff, 0x80, 0], &[0xce, 0, 0, 1, 0], &[0xca, 0x3f, 0x80, 0, 0], &[0xd3, 0xff, 0xff, 0xff, 0xff, 0x80, 0, 0, 0], &[0xcb, 0x41, 0xe0, 0, 0, 0, 0, 0, 0]]) },
        "M05" => put(&Sh::Ign, &[&[0x92, 1, 0xa1, b'x', 9], &[0xc7, 2, 1, 2, 3, 4], &[0xd9, 1, b'a', 9], &[0x82, 1, 0x91, 2, 3, 0xc0, 9], &[0xc8, 0, 1, 5, 1, 2], &[0xdf, 0, 0, 0, 1, 7, 8, 9]]),
        "M10" => put(&Sh::Any, &[&[0x92, 1, 0xa1, b'x', 9], &[0x81, 0xa1, b'k', 0x91, 2], &[0xcc, 1, 2, 3], &[0xd1, 0x80, 0, 1], &[0xdc, 0, 2, 0xc3, 0xc0, 1]]),
        _ => unreachable!()
    }
    if t { vec![pair_edits(v.clone(), true, "MessagePack"), triple_edits(v, true, "MessagePack")] } else { vec![pair_edits(v, true, "MessagePack")] }
}
