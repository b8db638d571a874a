//! Sizes at which fixed buffers, narrow counters and recursion guards would show: deep chains,
//! long strings with something special near every power of two, long and wide containers.
use crate::engine::*;
use crate::gen::*;
use crate::jref::*;
use crate::mref::FLS;
use crate::p_json::*;
use crate::p_mp;
use crate::p_scale::line;
use crate::run::*;
use crate::shape::*;
use crate::ensure;
use std::collections::BTreeMap;
use std::sync::Mutex;

fn depths(max: usize) -> Vec<usize> {
    [25, 30, 31, 32, 33, 47, 48, 49, 62, 63, 64, 65, 66, 99, 100, 101, 126, 127, 128, 129, 130, 150, 200, 254, 255, 256, 257, 258, 300, 400, 511, 512, 513].into_iter().filter(|d| *d <= max).collect()
}
/// containers i and j alternating `n` times around a bool
fn chain(n: usize, i: usize, j: usize) -> S {
    static MEMO: Mutex<BTreeMap<(usize, usize), Vec<S>>> = Mutex::new(BTreeMap::new());
    let mut g = MEMO.lock().unwrap();
    // levels of the pair: [k] starts with i when n - k is even; both orders are kept apart
    let even = n % 2 == 0;
    let key = if even { (i, j) } else { (j, i) };
    let l = g.entry(key).or_insert_with(|| vec![&Sh::Bool as S]);
    while l.len() <= n { let k = l.len(); let w = if k % 2 == 0 { key.0 } else { key.1 }; let s = wrap(w, l[k - 1]); l.push(s) }
    l[n]
}
fn deep(max: usize, what: &str, f: impl Fn(&mut Ctx, S, &V) -> R + Send + Sync + 'static) -> Space {
    let ds = depths(max);
    space("deep-chains", format!("chains of two alternating containers (all 81 pairs, every enum variant kind) at the depths {ds:?}: {what}"), move |c| {
        let n = *c.pick(&ds);
        let (i, j) = (c.choose(9), c.choose(9));
        let ev = if i == 8 || j == 8 { c.choose(3) } else { 0 };
        let sh = chain(n, i, j);
        let v = line(sh, ev, n);
        c.state(&(n, i, j, ev));
        f(c, sh, &v)
    })
}
/// lengths around every power of two up to 2^17 and a few round ones
pub fn sizes(lo: u32, hi: u32) -> Vec<usize> {
    let mut v: Vec<usize> = (lo..=hi).flat_map(|p| (1usize << p) - 2..=(1 << p) + 2).collect();
    v.extend([1000, 10000].into_iter().filter(|n| *n < 1 << hi));
    v
}
/// places in a text of `n` where a block of 2^k bytes may begin or end
fn places(n: usize) -> Vec<usize> {
    let mut p: Vec<usize> = vec![0, 1, n / 2, n.saturating_sub(3), n.saturating_sub(2), n.saturating_sub(1)];
    for k in 3..18 { let b = 1usize << k; for d in [b - 1, b, b + 1] { if d < n { p.push(d); p.push(n - d) } } let m = n / b * b; for d in [m.wrapping_sub(1), m, m + 1] { if d < n { p.push(d) } } }
    p.retain(|x| *x < n);
    p.sort(); p.dedup();
    p
}
fn long_text(t: bool) -> Space {
    let ls = sizes(8, if t { 17 } else { 14 });
    space("long-strings", format!("strings of {} lengths around every power of two up to {}, with one of 6 special characters near every power-of-two offset from either end, as string, key and two fragments", ls.len(), ls.iter().max().unwrap()), move |c| {
        let n = *c.pick(&ls);
        let sp = *c.pick(&['"', '\\', '\u{1}', '\n', 'é', '😀']);
        let ps = places(n);
        for p in &ps {
            let mut s = "x".repeat(*p); s.push(sp); s.push_str(&"y".repeat(n - p - 1));
            let fr = format!("{}|{}", &s[..p - p / 3], &s[p - p / 3..]);
            let v = V::Str(s);
            for (sh, v) in [(&Sh::Map(&Sh::Str, &Sh::Str) as S, V::Map(vec![(v.clone(), v)])), (&Sh::Disp, V::Str(fr))] {
                let out = jser_ok(Enc::Arr, sh, &v)?;
                match_out(sh, &v, Enc::Arr, &out).map_err(b)?;
            }
        }
        c.bulk(ps.len() as u64);
        Ok(())
    })
}
fn long_lits(t: bool) -> Space {
    let ls = sizes(8, if t { 17 } else { 14 });
    let atoms: &'static [&'static [u8]] = &[b"\\\"", b"\\\\", b"\\n", b"\\u00e9", b"\\ud83d\\ude00", b"\xc3\xa9", b"\xe2\x82", b"\\x", b"\x01"];
    space("long-literals", format!("literals of {} lengths around every power of two up to {}, with each of 9 pieces near every power-of-two offset from either end, as text, key, char, bytes, untyped and ignored, followed by another literal", ls.len(), ls.iter().max().unwrap()), move |c| {
        let n = *c.pick(&ls);
        let a = *c.pick(atoms);
        let ps = places(n);
        let mut k = 0;
        for p in &ps {
            let l = [b"\"" as &[u8], &b"x".repeat(*p), a, &b"y".repeat(n - p - 1), b"\""].concat();
            let seq = [b"[" as &[u8], &l, b",", &l, b"]"].concat();
            let map = [b"{" as &[u8], &l, b":\"\\n\"}"].concat();
            for (sh, d, dec) in [(&Sh::Seq(&Sh::BStr) as S, &seq, Dec::Nope), (&Sh::Seq(&Sh::Bytes), &seq, Dec::Nope), (&Sh::Map(&Sh::BStr, &Sh::BStr), &map, Dec::Hex), (&Sh::Any, &seq, Dec::B64), (&Sh::Ign, &seq, Dec::Nope), (&Sh::Ign, &map, Dec::Nope)] { jjudge(sh, d, dec)?; k += 1 }
        }
        c.bulk(k);
        Ok(())
    })
}
fn long_bytes(t: bool) -> Space {
    let ls = sizes(8, if t { 17 } else { 13 });
    space("long-bytes", format!("byte strings of {} lengths around every power of two up to {}: every encoder and decoder; hexadecimal and base-64 texts of these lengths with a foreign byte near every power-of-two offset from either end", ls.len(), ls.iter().max().unwrap()), move |c| {
        let n = *c.pick(&ls);
        let k = c.choose(3);
        if k == 2 { return j11_enc(&(0..n).map(|i| (i * 37 + i / 256) as u8).collect::<Vec<u8>>()) }
        let base: Vec<u8> = if k == 0 { (0..n).map(|i| b"0123456789abcdefABCDEF"[(i * 5 + i / 7) % 22]).collect() } else { (0..n).map(|i| AL[(i * 11 + i / 5) % 64]).collect() };
        let dec = [Dec::Hex, Dec::B64][k];
        j11_dec(&base, dec)?;
        let ps = places(n);
        for p in &ps { for x in b"=\"\\g\x00\xff" { let mut s = base.clone(); s[*p] = *x; j11_dec(&s, dec)? } }
        c.bulk(ps.len() as u64 * 6);
        Ok(())
    })
}
fn long_strs(t: bool) -> Space {
    let ls = sizes(8, if t { 17 } else { 14 });
    let atoms: &'static [&'static [u8]] = &[b"", b"\xc3\xa9", b"\xf0\x9f\x98\x80", b"\xe2\x82", b"\x80", b"\xff", b"\xc0\x80", b"\xed\xa0\x80", b"\0"];
    space("long-strings", format!("strings of {} lengths around every power of two up to {}, with each of 9 pieces of good and bad UTF-8 near every power-of-two offset from either end, in every header width, as text, key, bytes, untyped and ignored, followed by another value", ls.len(), ls.iter().max().unwrap()), move |c| {
        let n = *c.pick(&ls);
        let a = *c.pick(atoms);
        let ps = places(n);
        let mut k = 0;
        for p in &ps {
            let x = [&b"x".repeat(*p)[..], a, &b"y".repeat(n - p - 1)].concat();
            let l = x.len();
            let mut heads: Vec<Vec<u8>> = vec![[&[0xdb][..], &(l as u32).to_be_bytes()].concat()];
            if l < 65536 { heads.push([&[0xda][..], &(l as u16).to_be_bytes()].concat()) }
            if l < 256 { heads.push(vec![0xd9, l as u8]) }
            for h in heads {
                let s = [&h[..], &x].concat();
                let seq = [&[0x92][..], &s, &[0xa1, b'z']].concat();
                let map = [&[0x81][..], &s, &[0xa1, b'z']].concat();
                for (sh, d) in [(&Sh::Seq(&Sh::BStr) as S, &seq), (&Sh::Seq(&Sh::Bytes), &seq), (&Sh::Map(&Sh::BStr, &Sh::BStr), &map), (&Sh::Any, &seq), (&Sh::Ign, &map)] { mjudge(sh, d)?; k += 1 }
            }
        }
        c.bulk(k);
        Ok(())
    })
}
/// long containers, and types with many fields, elements and variants
fn wide_space(t: bool, what: &str, f: impl Fn(&mut Ctx, S, &V) -> R + Send + Sync + 'static) -> Space {
    let ls = sizes(8, if t { 17 } else { 16 });
    const FIELDS: &[usize] = &[0, 1, 2, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513];
    const VARIANTS: &[usize] = &[0, 1, 2, 3, 60, 61, 62, 63, 64, 65, 66, 67, 124, 125, 126, 127, 128, 129, 130, 131, 252, 253, 254, 255, 256, 257, 258, 259, 1000, 1001, 1002, 1003];
    space("wide", format!("9 kinds of values at {} lengths around every power of two up to {}; structs, struct variants and tuples of {FIELDS:?} fields; enum variants {VARIANTS:?}; sequences and maps of that many containers of 9 kinds: {what}", ls.len(), ls.iter().max().unwrap()), move |c| {
        let (sh, v) = match c.choose(6) {
            0 => { let k = c.choose(p_mp::NLONG); let n = *c.pick(&ls); c.state(&(0, k, n)); p_mp::long_value(k, n) }
            1 => { let n = *c.pick(FIELDS); let m = c.choose(4); c.state(&(1, n, m)); (p_mp::wide_struct(n), V::Seq(vec![fields(n, m), V::Int(77)])) }
            2 => { let n = *c.pick(FIELDS); let m = c.choose(4); c.state(&(2, n, m)); (p_mp::wide_struct_variant(n), V::Var(0, Box::new(fields(n, m)))) }
            3 => { let n = *c.pick(FIELDS); let k = c.choose(3); c.state(&(3, n, k)); let xs = V::Seq((0..n).map(|i| V::Int(i as i128 * 7 % 256)).collect()); (p_mp::wide_tuple(n, k), if k == 2 { V::Var(0, Box::new(xs)) } else { xs }) }
            4 => { let i = *c.pick(VARIANTS); c.state(&(4, i)); (p_mp::wide_enum(), p_mp::wide_variant(i)) }
            _ => { let k = c.choose(9); let n = *c.pick(&ls); let m = c.choose(2); c.state(&(5, k, n, m)); many(k, n / if n < 4096 { 1 } else { 8 }, m == 1) }
        };
        f(c, sh, &v)
    })
}
/// a sequence (or map) of `n` containers of kind k, one after another
fn many(k: usize, n: usize, map: bool) -> (S, V) {
    static MEMO: Mutex<BTreeMap<(usize, bool), S>> = Mutex::new(BTreeMap::new());
    let inner = |k: usize| wrap(k, &Sh::Bool);
    let sh = *MEMO.lock().unwrap().entry((k, map)).or_insert_with(|| if map { leak(Sh::Map(I32S, inner(k))) } else { leak(Sh::Seq(inner(k))) });
    let item = match sh { Sh::Seq(s) | Sh::Map(_, s) => *s, _ => unreachable!() };
    let x = |i: usize| line(item, i % 3, i % 5);
    (sh, if map { V::Map((0..n).map(|i| (V::Int(i as i128), x(i))).collect()) } else { V::Seq((0..n).map(x).collect()) })
}
fn fields(n: usize, m: usize) -> V { V::Struct((0..n).map(|i| Some(V::Bool((i + m) % (m + 2) == 1))).collect()) }

/// literals made of many escapes, whose text is much shorter than the literal
fn many_escapes(t: bool) -> Space {
    let hi = if t { 17 } else { 14 };
    let atoms: &'static [&'static [u8]] = &[b"\\\"", b"\\\\", b"\\n", b"\\/", b"\\u0041", b"\\u00e9", b"\\u20ac", b"\\ud83d\\ude00", b"\\u0000", b"a\\n", b"\\n\xc3\xa9"];
    // the text is shorter than the literal by 1 (or 2, 3, 5, 8) bytes for each
    let ns: Vec<usize> = { let mut v: Vec<usize> = (3..=hi).flat_map(|k| [1, 2, 3, 5, 8].into_iter().flat_map(move |g| (1usize << k) / g..=(1 << k) / g + 2)).collect(); v.sort(); v.dedup(); v };
    space("many-escapes", format!("literals of each of {} numbers up to {} of each of 11 pieces with escapes, alone, with plain text before, after and both, as text, key, bytes, untyped and ignored, followed by another literal", ns.len(), ns[ns.len() - 1]), move |c| {
        let n = *c.pick(&ns);
        let a = *c.pick(atoms);
        let (p, q): (&[u8], &[u8]) = *c.pick(&[(b"" as &[u8], b"" as &[u8]), (b"", b"xyz"), (b"xy", b""), (b"x", b"yz")]);
        c.state(&(n, a, p, q));
        let l = [b"\"", p, &a.repeat(n), q, b"\""].concat();
        let seq = [b"[" as &[u8], &l, b",", &l, b"]"].concat();
        let map = [b"{" as &[u8], &l, b":\"\\n\"}"].concat();
        for (sh, d, dec) in [(&Sh::Seq(&Sh::BStr) as S, &seq, Dec::Nope), (&Sh::Seq(&Sh::Bytes), &seq, Dec::Nope), (&Sh::Map(&Sh::BStr, &Sh::BStr), &map, Dec::Hex), (&Sh::Any, &seq, Dec::B64), (&Sh::Ign, &map, Dec::Nope)] { jjudge(sh, d, dec)?; }
        c.bulk(5);
        Ok(())
    })
}
/// number texts far longer than any number needs
fn long_nums(t: bool, shapes: &'static [Sh]) -> Space {
    let ls = { let mut v = sizes(3, if t { 16 } else { 13 }); v.extend([300, 308, 309, 310, 323, 324, 325, 326, 340, 766, 767, 768, 769, 800, 1100]); v };
    space("padded-numbers", format!("number texts of 16 kinds padded with {} lengths up to {} of digits, leading and trailing zeros and exponents, as {shapes:?}, alone and in a sequence followed by other values", ls.len(), ls.iter().max().unwrap()), move |c| {
        let n = *c.pick(&ls);
        let k = c.choose(16);
        let neg = c.flag();
        let z = "0".repeat(n);
        let x = match k {
            0 => format!("0.{z}1"), 1 => format!("0.{z}1e{}", n + 1), 2 => format!("1{z}"), 3 => format!("1{z}.5"), 4 => format!("1{z}e-{n}"), 5 => format!("1{z}.0E-{}", n + 2),
            6 => format!("1e{z}7"), 7 => format!("1e-{z}7"), 8 => format!("2.5{z}"), 9 => format!("2.5{z}1"), 10 => "9".repeat(n), 11 => format!("0.{}", "9".repeat(n)),
            12 => format!("1.{z}e+{z}3"), 13 => format!("{}.{}", "7".repeat(n.min(300)), "3".repeat(n)), 14 => format!("9007199254740992.{z}"), _ => format!("9007199254740993.{z}1"),
        };
        let x = if neg { format!("-{x}") } else { x };
        c.state(&x);
        for sh in shapes {
            jjudge(sh, x.as_bytes(), Dec::Nope)?;
            jjudge(leak_seq(sh), format!("[{x},{x} ,1]").as_bytes(), Dec::Nope)?;
            jjudge(&Sh::Tup(&[&Sh::Any, &Sh::Ign, U8S]), format!("[{x},{x}\n,3]").as_bytes(), Dec::Nope)?;
        }
        c.bulk(3 * shapes.len() as u64);
        Ok(())
    })
}
fn leak_seq(sh: S) -> S {
    static MEMO: Mutex<BTreeMap<usize, S>> = Mutex::new(BTreeMap::new());
    MEMO.lock().unwrap().entry(sh as *const Sh as usize).or_insert_with(|| leak(Sh::Seq(sh)))
}
/// headers that declare more than what follows
fn declared() -> Space {
    let ns: Vec<u32> = { let mut v: Vec<u32> = (4..32).flat_map(|k| [(1u32 << k) - 1, 1 << k, (1 << k) + 1]).collect(); v.extend([u32::MAX, u32::MAX - 1]); v };
    space("declared-lengths", format!("every header with a 32-bit length, and with a 16-bit one where it fits, declaring each of {} lengths up to 2^32-1 but followed by 0 to 9 bytes of content, as every type that takes it, bare and inside containers", ns.len()), move |c| {
        let n = *c.pick(&ns);
        let (code, fill, shapes): (u8, &[u8], &[S]) = match c.choose(6) {
            0 => (0xdb, b"xyz", &[&Sh::Str, &Sh::BStr, &Sh::Any, &Sh::Ign]),
            1 => (0xc6, b"\xff\x00", &[&Sh::Bytes, &Sh::ByteBuf, &Sh::Any, &Sh::Ign]),
            2 => (0xdd, b"\xc0", &[&Sh::Seq(&Sh::Unit), &Sh::Any, &Sh::Ign, &Sh::Seq(&Sh::Ign)]),
            3 => (0xdf, b"\xc0", &[&Sh::Map(&Sh::Unit, &Sh::Unit), &Sh::Any, &Sh::Ign]),
            4 => (0xc9, b"\x05\xc1\x00", &[&Sh::Ign]),
            _ => (0xdb, b"xyz", &[&Sh::Bytes]),
        };
        let small = c.flag();
        if small && n > 65535 { return Ok(()) }
        let mut head = if !small { [&[code][..], &n.to_be_bytes()].concat() } else { [&[code - 1][..], &(n as u16).to_be_bytes()].concat() };
        for i in 0..10.min(n as usize) { if i > 0 { head.push(fill[(i - 1) % fill.len()]) }
            for sh in shapes { for (pre, sh) in [(&[][..], *sh), (&[0x91][..], leak_seq(sh)), (&[0x92, 0xc1], leak_seq(sh))] {
                if pre.len() == 2 { continue }
                let d = [pre, &head].concat();
                if matches!((code, sh), (0xdb, Sh::Bytes | Sh::Seq(Sh::Bytes))) { mjudge(sh, &d)?; continue }
                let o = mdec(sh, &d)?;
                c.bulk(1);
                ensure!(matches!(o.res, Err(ser_write_msgpack::de::Error::UnexpectedEof)), "[{}] as {sh:?} gives {:?} instead of UnexpectedEof", crate::mref::hex(&d), o.res);
            } }
        }
        c.state(&head);
        Ok(())
    })
}
// ---------------------------------------------------------------- sizes near 2^24, 2^31 and 2^32
/// keeps the first bytes and counts the others; what is written of `data` itself is not looked at again
struct Count { head: Vec<u8>, n: u64, data: *const u8, odd: bool }
impl Count { fn new(data: &[u8]) -> Count { Count { head: vec![], n: 0, data: data.as_ptr(), odd: false } } }
impl ser_write::SerWrite for Count {
    type Error = ser_write::SerError;
    fn write(&mut self, b: &[u8]) -> Result<(), Self::Error> {
        let k = 5usize.saturating_sub(self.n as usize).min(b.len());
        self.head.extend_from_slice(&b[..k]);
        let (rest, at) = (&b[k..], (self.n + k as u64).wrapping_sub(5) as usize);
        self.odd |= !std::ptr::eq(rest.as_ptr(), self.data.wrapping_add(at)) && rest.iter().any(|x| *x != 0 && *x != 0xc0);
        self.n += b.len() as u64;
        Ok(())
    }
}
struct Units(usize, bool);
impl serde::Serialize for Units {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{SerializeMap, SerializeSeq};
        if self.1 { let mut m = s.serialize_map(Some(self.0))?; for _ in 0..self.0 { m.serialize_entry(&(), &())? } m.end() }
        else { let mut q = s.serialize_seq(Some(self.0))?; for _ in 0..self.0 { q.serialize_element(&())? } q.end() }
    }
}
struct CountUnits(u64);
impl<'de> serde::Deserialize<'de> for CountUnits {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct Vi;
        impl<'de> serde::de::Visitor<'de> for Vi {
            type Value = u64;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("units") }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<u64, A::Error> { let mut n = 0; while a.next_element::<()>()?.is_some() { n += 1 } Ok(n) }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<u64, A::Error> { let mut n = 0; while a.next_entry::<(), ()>()?.is_some() { n += 1 } Ok(n) }
        }
        d.deserialize_any(Vi).map(CountUnits)
    }
}
struct RawBytes<'a>(&'a [u8], bool);
impl serde::Serialize for RawBytes<'_> {
    // the text is zeros, which are UTF-8
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { if self.1 { s.serialize_str(unsafe { std::str::from_utf8_unchecked(self.0) }) } else { s.serialize_bytes(self.0) } }
}
#[cfg(not(target_pointer_width = "64"))]
const HUGE: &[usize] = &[(1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 24) + 2, (1 << 24) + 3, (1 << 24) + 4, (1 << 24) + 5];
#[cfg(target_pointer_width = "64")]
const HUGE: &[usize] = &[(1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 33) + 5];
const HUGE_UNITS: &[usize] = &[(1 << 24) - 1, 1 << 24, (1 << 24) + 1];
fn head32(code: u8, n: usize) -> Vec<u8> { [&[code][..], &(n as u32).to_be_bytes()].concat() }
/// the serializers and sizes at the borders of 24, 31 and 32 bits; the content is never touched
fn huge_out() -> Space {
    space("huge", format!("strings and byte strings of {HUGE:?} bytes, sequences and maps of {HUGE_UNITS:?} units, 3 flavours: header, length and content of the output, refused above 2^32-1"), |c| {
        let k = c.choose(4);
        let n = *c.pick(if k < 2 { HUGE } else { HUGE_UNITS });
        let fl = *c.pick(&FLS);
        c.state(&(k, n, fl));
        if k >= 2 {
            let mut w = Count::new(&[]);
            imp(|| mser_to(fl, &mut w, &Units(n, k == 3)))?.map_err(|e| b(format!("{n} units: {e:?}")))?;
            ensure!(w.head == head32([0xdd, 0xdf][k - 2], n) && !w.odd && w.n == 5 + (n * (k - 1)) as u64, "{n} units written as {} bytes [{}..]", w.n, crate::mref::hex(&w.head));
            return Ok(())
        }
        let data = zeros(n);
        let mut w = Count::new(data);
        let r = imp(|| mser_to(fl, &mut w, &RawBytes(data, k == 0)))?;
        if n > u32::MAX as usize { return { ensure!(matches!((&r, k), (Err(ser_write_msgpack::ser::Error::StrLength), 0) | (Err(ser_write_msgpack::ser::Error::DataLength), 1)), "{n} bytes: {r:?}"); ensure!(w.n == 0, "{n} bytes: {} bytes written", w.n); Ok(()) } }
        ensure!(r.is_ok(), "{n} bytes: {r:?}");
        ensure!(w.head == head32([0xdb, 0xc6][k], n) && w.n == 5 + n as u64 && !w.odd, "{n} bytes written as {} bytes [{}..]{}", w.n, crate::mref::hex(&w.head), if w.odd { " with another content" } else { "" });
        Ok(())
    })
}
/// a slice of zeros of the system's zero page
fn zeros(n: usize) -> &'static [u8] {
    static Z: std::sync::OnceLock<&'static [u8]> = std::sync::OnceLock::new();
    &Z.get_or_init(|| Box::leak(zeroed(HUGE[HUGE.len() - 1])))[..n]
}
fn zeroed(n: usize) -> Box<[u8]> {
    let l = std::alloc::Layout::array::<u8>(n).unwrap();
    unsafe { let p = std::alloc::alloc_zeroed(l); assert!(!p.is_null()); Box::from_raw(std::ptr::slice_from_raw_parts_mut(p, n)) }
}
/// messages of such sizes decoded; `skip`: only skipped
fn huge_in(skip: bool, t: bool) -> Space {
    let ns: &'static [usize] = if t { &HUGE[..7] } else { const Q: &[usize] = &[HUGE[0], HUGE[1], HUGE[2], HUGE[5], HUGE[6]]; Q };
    space("huge", format!("strings and byte strings of {ns:?} bytes, sequences and maps of {HUGE_UNITS:?} units, {}followed by another message: value, consumed length, and one byte less is the end of the input", if skip { "skipped, " } else { "" }), move |c| {
        let k = c.choose(4);
        let n = *c.pick(if k < 2 { ns } else { HUGE_UNITS });
        c.state(&(k, n));
        static ONE: Mutex<()> = Mutex::new(()); // one at a time: they are big
        let _g = ONE.lock().unwrap_or_else(|e| e.into_inner());
        let len = match k { 0 | 1 => n, 2 => n, _ => 2 * n };
        let mut d = zeroed(len + 6);
        d[..5].copy_from_slice(&head32([0xdb, 0xc6, 0xdd, 0xdf][k], n));
        if k >= 2 { d[5..len + 5].fill(0xc0) }
        d[len + 5] = 7;
        let at = d.as_ptr() as usize;
        use ser_write_msgpack::{de::{Deserializer, Error}, from_slice};
        for cut in [0, 1, 2] {
            let doc = &d[..len + 6 - cut];
            let eof = cut == 2;
            if skip {
                let r = imp(|| { let mut de = Deserializer::from_slice(doc); de.eat_message().map(|_| de.remaining_len()) })?;
                ensure!(match &r { Ok(m) => !eof && *m == 1 - cut, Err(e) => eof && *e == Error::UnexpectedEof }, "skipping a message of {} bytes in {} gives {r:?} bytes left", len + 5, doc.len());
                let r = imp(|| from_slice::<serde::de::IgnoredAny>(doc).map(|x| x.1))?;
                ensure!(match &r { Ok(m) => !eof && *m == len + 5, Err(e) => eof && *e == Error::UnexpectedEof }, "ignoring a message of {} bytes in {} gives {r:?}", len + 5, doc.len());
                continue
            }
            let r = imp(|| match k {
                0 => from_slice::<&str>(doc).map(|(s, m)| (s.as_ptr() as usize, s.len() as u64, m)),
                1 => from_slice::<Bor>(doc).map(|(s, m)| (s.0.as_ptr() as usize, s.0.len() as u64, m)),
                _ => from_slice::<CountUnits>(doc).map(|(s, m)| (at + 5, s.0, m)),
            })?;
            ensure!(match &r { Ok(m) => !eof && *m == (at + 5, n as u64, len + 5), Err(e) => eof && *e == Error::UnexpectedEof }, "decoding a message of {} bytes in {} gives {:?}", len + 5, doc.len(), r.map(|(p, l, m)| (p.wrapping_sub(at), l, m)));
        }
        Ok(())
    })
}
struct Bor<'a>(&'a [u8]);
impl<'de: 'a, 'a> serde::Deserialize<'de> for Bor<'a> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct Vi;
        impl<'de> serde::de::Visitor<'de> for Vi { type Value = &'de [u8]; fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("bytes") } fn visit_borrowed_bytes<E>(self, v: &'de [u8]) -> Result<&'de [u8], E> { Ok(v) } }
        d.deserialize_bytes(Vi).map(Bor)
    }
}
/// long documents of each kind through a judge, as they are
fn wide_doc(t: bool, what: &'static str, f: impl Fn(&mut Ctx, S, &[u8]) -> R + Send + Sync + 'static) -> Space {
    wide_space(t, what, move |c, sh, v| { let out = jser_ok(Enc::Arr, sh, v)?; f(c, sh, &out) })
}

pub fn extra(prop: &str, t: bool) -> Vec<Space> {
    let d = if t { 513 } else { 300 };
    match prop {
        "J01" => vec![
            deep(d, "output", |_, sh, v| j01_check(sh, v, Enc::Arr)),
            wide_space(t, "output in 3 byte encodings", |c, sh, v| { let e = ENCS[c.choose(3)]; j01_check(sh, v, e) }),
        ],
        "J02" => vec![long_text(t)],
        "J05" => vec![
            deep(d, "round trip", |_, sh, v| j05_check(sh, v, Enc::Arr)),
            wide_space(t, "round trip in 3 byte encodings", |c, sh, v| { let e = ENCS[c.choose(3)]; j05_check(sh, v, e) }),
        ],
        "J06" => vec![deep(d, "accepted as it is and with whitespace around every token, refused with a token more or less in the middle", |_, sh, v| {
            let out = jser_ok(Enc::Arr, sh, v)?;
            let toks = lex(&out);
            let join = |f: &dyn Fn(usize, &[u8]) -> Vec<u8>| -> Vec<u8> { toks.iter().enumerate().flat_map(|(k, t)| f(k, t)).collect() };
            ensure!(jjudge(sh, &out, Dec::Nope)? == Seen::Accept, "harness: `{}`", show(&out));
            jjudge(sh, &join(&|_, t| [b" \n" as &[u8], t, b"\t\r"].concat()), Dec::Nope)?;
            let m = toks.len() / 2;
            for i in m.saturating_sub(3)..(m + 3).min(toks.len()) {
                jjudge(sh, &join(&|k, t| if k == i { vec![] } else { t.to_vec() }), Dec::Nope)?;
                jjudge(sh, &join(&|k, t| if k == i { [t, t].concat() } else { t.to_vec() }), Dec::Nope)?;
            }
            Ok(())
        }), wide_doc(t, "accepted as it is and with whitespace around every token", |_, sh, out| {
            ensure!(jjudge(sh, out, Dec::Nope)? == Seen::Accept, "harness: `{}`", show(out));
            if out.len() < 10000 { jjudge(sh, &lex(out).iter().flat_map(|t| [b" \n" as &[u8], t, b"\t\r"].concat()).collect::<Vec<u8>>(), Dec::Nope)?; }
            Ok(())
        })],
        "J07" => vec![long_lits(t), many_escapes(t)],
        "J08" => vec![long_nums(t, &[Sh::Int(IT::U8), Sh::Int(IT::I64), Sh::Int(IT::U64), Sh::F32, Sh::F64])],
        "J13" => vec![many_escapes(t)],
        "J09" => vec![long_nums(t, &[Sh::Any]), wide_doc(t, "read without a type hint", |_, _, out| { let s = jjudge(&Sh::Any, out, Dec::Nope)?; ensure!(matches!(s, Seen::Accept | Seen::Free), "harness: {}", show(out)); Ok(()) }), deep(d, "read without a type hint", |_, sh, v| { let out = jser_ok(Enc::Arr, sh, v)?; let s = jjudge(&Sh::Any, &out, Dec::Nope)?; ensure!(matches!(s, Seen::Accept | Seen::Free), "harness: {}", show(&out)); Ok(()) })],
        "J10" => vec![
            deep(d, "ignored as unknown member, element, value", |c, sh, v| { let out = jser_ok(Enc::Arr, sh, v)?; j10_check(c, &out) }),
            wide_space(t, "ignored as unknown member, element, value", |c, sh, v| { let out = jser_ok(Enc::Arr, sh, v)?; j10_check(c, &out) }),
            long_lits(t), many_escapes(t), long_nums(t, &[Sh::Ign]),
        ],
        "J11" => vec![long_bytes(t)],
        "J14" => vec![deep(if t { 200 } else { 66 }, "every prefix", |c, sh, v| { let out = jser_ok(Enc::Arr, sh, v)?; j14_check(c, sh, &out, Dec::Nope) })],
        "M01" => vec![huge_out(), wide_space(t, "output in 3 flavours", |c, sh, v| { let f = *c.pick(&FLS); p_mp::m01_check(sh, v, f).map(|_| ()) }), deep(d, "output in 3 flavours", |c, sh, v| { let f = *c.pick(&FLS); p_mp::m01_check(sh, v, f).map(|_| ()) })],
        "M02" => vec![huge_in(false, t), wide_space(t, "round trip in 3 flavours", |c, sh, v| { let f = *c.pick(&FLS); p_mp::m02_check(sh, v, f) }), deep(d, "round trip in 3 flavours", |c, sh, v| { let f = *c.pick(&FLS); p_mp::m02_check(sh, v, f) })],
        "M03" => vec![long_strs(t), wide_space(t, "5 uniform encodings", |c, sh, v| { let k = c.choose(5); p_mp::agreed(sh, v, &p_mp::encode_uniform(sh, v, k * 3)) }), deep(d, "5 uniform encodings", |c, sh, v| { let k = c.choose(5); p_mp::agreed(sh, v, &p_mp::encode_uniform(sh, v, k * 3)) })],
        "M05" => vec![huge_in(true, t), wide_space(t, "skipped, 5 uniform encodings", |c, sh, v| { let k = c.choose(5); p_mp::skip_check(&p_mp::encode_uniform(sh, v, k * 3), false) })],
        "M06" => vec![declared(), deep(if t { 200 } else { 66 }, "every strict prefix", |c, sh, v| { let f = *c.pick(&FLS); let doc = mser_ok(f, sh, v)?; p_mp::prefix_check(sh, &doc, 0) })],
        "M10" => vec![long_strs(t), wide_space(t, "read without a type hint, 5 uniform encodings", |c, sh, v| { let k = c.choose(5); p_mp::any_judge(&p_mp::encode_uniform(sh, v, k * 3)) }), deep(d, "read without a type hint, 5 uniform encodings", |c, sh, v| { let k = c.choose(5); p_mp::any_judge(&p_mp::encode_uniform(sh, v, k * 3)) })],
        _ => vec![],
    }
}
