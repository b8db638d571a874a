//! Long histories and exact numbers: decimals at and beside the midpoints of neighbouring floats, the
//! same value hundreds and tens of thousands of times through one serializer or deserializer.
use crate::engine::*;
use crate::gen::*;
use crate::jref::*;
use crate::p_more::{name7, ser7};
use crate::run::*;
use crate::shape::*;
use crate::ensure;
use ser_write_json as js;
use std::sync::Arc;

pub fn extra(prop: &str, t: bool) -> Vec<Space> {
    match prop {
        "J06" => vec![halves(false, t)],
        "J09" => vec![halves(true, t)],
        "J16" => vec![long_histories(t)],
        "S01" => vec![long_faults(t)],
        "J01" => vec![lies()],
        "J02" => vec![collector(t)],
        "J03" | "J04" | "J08" | "M01" | "M04" => vec![wide_ints(match prop { "J03" => 0, "J04" => 1, "J08" => 2, "M01" => 3, _ => 4 })],
        _ => vec![]
    }
}

// ------------------------------------------------------------------ midpoints
/// the decimal digits and the decimal exponent of n * 2^e, exactly
pub fn decimal(n: u64, e: i32) -> (Vec<u8>, i32) {
    let mut d: Vec<u32> = vec![]; // base 10^9, least significant first
    let mut x = n;
    while x > 0 { d.push((x % 1_000_000_000) as u32); x /= 1_000_000_000 }
    let (f, mut k) = if e < 0 { (5u64, -e) } else { (2, e) };
    while k > 0 {
        let step = k.min(12);
        let m = f.pow(step as u32);
        let mut carry = 0u64;
        for w in &mut d { let v = *w as u64 * m + carry; *w = (v % 1_000_000_000) as u32; carry = v / 1_000_000_000 }
        while carry > 0 { d.push((carry % 1_000_000_000) as u32); carry /= 1_000_000_000 }
        k -= step;
    }
    let mut s = format!("{}", d.pop().unwrap_or(0));
    for w in d.iter().rev() { s.push_str(&format!("{w:09}")) }
    let mut e10 = e.min(0);
    while s.len() > 1 && s.ends_with('0') { s.pop(); e10 += 1 }
    (s.into_bytes(), e10)
}
/// spellings of digits * 10^e
fn spell(d: &[u8], e: i32) -> Vec<String> {
    let s = std::str::from_utf8(d).unwrap();
    let mut v = vec![format!("{s}e{e}"), format!("{}.{}E{:+}", &s[..1], if s.len() > 1 { &s[1..] } else { "0" }, e + s.len() as i32 - 1)];
    let point = s.len() as i32 + e;
    if e >= 0 && e < 60 { v.push(format!("{s}{}", "0".repeat(e as usize))); v.push(format!("{s}{}.0", "0".repeat(e as usize))) }
    else if point > 0 && e < 0 { v.push(format!("{}.{}", &s[..point as usize], &s[point as usize..])) }
    else if point <= 0 && point > -60 { v.push(format!("0.{}{s}", "0".repeat(-point as usize))) }
    v
}
fn halves(any: bool, t: bool) -> Space {
    space("midpoints", format!("the decimal exactly between two neighbouring floats, and just below and above it (in the next digit and {} digits on): every exponent of f32 and f64 with {} mantissas, every notation, both signs{}", if t { "20, 400, 1200" } else { "20, 400" }, if t { 300 } else { 12 }, if any { ", without a type hint" } else { "" }), move |c| {
        let single = if any { cfg!(feature = "f32") } else { c.flag() };
        // mantissa bits, exponent of the unit of the subnormals, number of exponents below infinity
        let (bits, e0, ne) = if single { (23u32, -149, 254usize) } else { (52, -1074, 2046) };
        let top = (1u64 << bits) - 1;
        let ms: Vec<u64> = if t { (0..300u64).map(|k| match k { 0..=7 => k, 8..=15 => top - (k - 8), _ => k.wrapping_mul(0x9e37_79b9_7f4a_7c15) & top }).collect() }
            else { vec![0, 1, 2, top, top - 1, top / 2, top / 2 + 1, top / 3, top / 5, 0x199999 & top, 0x9e37_79b9_7f4a_7c15 & top, 0x3c6e_f372_fe94_f82b & top] };
        let be = c.choose(ne + 1); // biased exponent; all of them below infinity
        let neg = c.flag();
        let mut n = 0u64;
        for m in ms {
            if be == ne && m == top { continue } // what lies beyond is not a float
            let lo = (be as u64) << bits | m;
            let (sig, e) = if be == 0 { (m, e0) } else { (m | 1 << bits, e0 + be as i32 - 1) };
            let (d, e10) = decimal(2 * sig + 1, e - 1);
            let even = lo + (lo & 1);
            let mut cases = vec![(d.clone(), e10, even)];
            // all digits down to the units, so that one more digit stays well within half the distance
            let (mut d, mut e10) = (d, e10);
            while e10 > 0 { d.push(b'0'); e10 -= 1 }
            for z in if t { &[0usize, 20, 400, 1200][..] } else { &[0, 20, 400] } {
                let mut up = d.clone(); up.extend(std::iter::repeat_n(b'0', *z)); up.push(b'1');
                cases.push((up, e10 - *z as i32 - 1, lo + 1));
                let mut dn = d.clone();
                for x in dn.iter_mut().rev() { if *x == b'0' { *x = b'9' } else { *x -= 1; break } }
                dn.extend(std::iter::repeat_n(b'9', *z + 1));
                if dn[0] == b'0' { dn.remove(0); }
                cases.push((dn, e10 - *z as i32 - 1, lo));
            }
            for (d, e, want) in cases { for s in spell(&d, e) {
                let s = if neg { format!("-{s}") } else { s };
                let want = if single { V::F32(want as u32 | (neg as u32) << 31) } else { V::F64(want | (neg as u64) << 63) };
                let sh: S = if any { &Sh::Any } else if single { &Sh::F32 } else { &Sh::F64 };
                let o = jdec(sh, s.as_bytes(), Dec::Nope)?;
                n += 1;
                // without a hint, what has neither point nor exponent can be an integer
                if any && !s.contains(['.', 'e', 'E']) { c.outcome("integer literal"); continue }
                ensure!(o.res.as_ref().is_ok_and(|v| veq(v, &want, false)), "`{}` read as {sh:?} gives {:?}, want {want:?}", if s.len() > 60 { format!("{}...({} characters)", &s[..60], s.len()) } else { s.clone() }, o.res);
            } }
            c.outcome("rounded correctly");
        }
        c.state(&(single, be, neg));
        c.sample(|| format!("f{}, exponent {be}{}", if single { 32 } else { 64 }, if neg { ", negative" } else { "" }));
        c.bulk(n);
        Ok(())
    })
}

// ------------------------------------------------------------------ long histories
/// one JSON deserializer over many values: `n` times one kind of value, then each other kind; only a
/// window of what is left is compared, so that the time stays in proportion
fn long_histories(t: bool) -> Space {
    let st = wrap(7, &Sh::BStr);
    let en = wrap(8, &Sh::Bytes);
    let items: Arc<Vec<(&'static str, S)>> = Arc::new(vec![
        (r#""a\n\u00e9""#, &Sh::BStr), (r#""""#, &Sh::Str), (r#""c""#, &Sh::Char), ("[1, 20,255]", &Sh::Bytes), ("[]", leak(Sh::Seq(&Sh::BStr))), ("{}", leak(Sh::Map(&Sh::BStr, &Sh::Unit))), ("{}", &Sh::Any), ("[[],{}]", &Sh::Ign),
        ("12", U8S), ("-7", I32S), ("2.5e1", &Sh::F64), ("true", &Sh::Bool), ("null", &Sh::Unit), ("null", leak(Sh::Opt(&Sh::BStr))), ("5", leak(Sh::Opt(U8S))), (r#"{"a":"x\"y", "cc" :3 ,"zz":["\"]"]}"#, st),
        (r#"["q\t",""]"#, leak(Sh::Tup(&[&Sh::BStr, &Sh::BStr]))), (r#"{"7":["\u0041"]}"#, leak(Sh::Map(U8S, leak(Sh::Seq(&Sh::BStr))))), (r#"{"Ne\\w":[9,8]}"#, en), (r#""Un""#, en), (r#"{"St":{"yé":false,"x":[1]} }"#, en), ("[1,\"x\",{\"k\":null}]", &Sh::Any),
    ]);
    let k = items.len();
    let ns: &'static [usize] = if t { &[1, 7, 31, 32, 63, 64, 127, 128, 129, 255, 256, 257, 300, 511, 512, 1000, 1023, 1024, 1025, 65535, 65536, 65537, 70000, 300000] } else { &[1, 31, 32, 63, 64, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 65534, 65535, 65536, 65537] };
    space("long-histories", format!("one deserializer reading a value of one of {k} kinds n times ({} numbers to {}), then one of every kind, then end(): each as it reads alone, up to the same byte", ns.len(), ns[ns.len() - 1]), move |c| {
        let i = c.choose(k);
        let n = *c.pick(ns);
        let dec = *c.pick(&DECS);
        let (text, sh) = items[i];
        // what each kind reads as when it is the whole document; kinds this decoder refuses are left out
        let mut alone: Vec<Option<V>> = vec![];
        for (t, s) in items.iter() { alone.push(jdec(s, t.as_bytes(), dec)?.res.ok()) }
        if alone[i].is_none() { c.outcome("a kind this decoder refuses"); return Ok(()) }
        let kinds: Vec<usize> = (0..n).map(|_| i).chain((0..k).filter(|j| alone[*j].is_some())).collect();
        let mut doc: Vec<u8> = Vec::new();
        let mut ends = vec![];
        for j in &kinds { doc.push(b' '); doc.extend_from_slice(items[*j].0.as_bytes()); ends.push(doc.len()) }
        let len = doc.len();
        c.state(&(i, n, dec));
        c.sample(|| format!("`{text}` {n} times"));
        let orig = doc.clone();
        use serde::Deserialize as _;
        macro_rules! drive { ($ty:ident) => { imp(|| -> Option<String> {
            let mut de = js::de::$ty::from_mut_slice(&mut doc);
            for (x, (kd, end)) in kinds.iter().zip(&ends).enumerate() {
                set_shape(items[*kd].1);
                let r = Dyn::deserialize(&mut de).map(|d| d.0);
                let left = de.remaining_len();
                match (r, alone[*kd].as_ref().unwrap()) {
                    (Ok(v), want) if !veq(want, &v, false) => return Some(format!("value {x} is {v:?}, alone {want:?}")),
                    (Err(e), want) => return Some(format!("value {x} fails with {e:?}, alone it is {want:?}")),
                    _ => if len - left != *end { return Some(format!("value {x} ends at {} instead of {end}", len - left)) }
                }
                if let Ok(rest) = de.input_mut() { let m = rest.len().min(64); if rest[..m] != orig[*end..*end + m] { return Some(format!("value {x} changed the input after it")) } }
            }
            de.end().err().map(|e| format!("end() after the last value gives {e:?}"))
        }) } }
        let bad = match dec { Dec::Nope => drive!(DeserializerNopeByteStr), Dec::Hex => drive!(DeserializerHexByteStr), Dec::B64 => drive!(DeserializerBase64ByteStr) }?;
        ensure!(bad.is_none(), "{} ({n} times `{text}` as {sh:?}, then one of each kind, {dec:?})", bad.unwrap());
        c.bulk((n + k) as u64);
        c.outcome("history");
        Ok(())
    })
}

// ------------------------------------------------------------------ faults in long output
/// the interesting ones of 0..n: the first and last, the middle, and around every power of two
fn some_of(n: usize) -> Vec<usize> {
    if n <= 700 { return (0..n).collect() }
    let mut v: Vec<usize> = (0..16).chain(n - 16..n).chain(n / 2 - 1..n / 2 + 2).collect();
    let mut p = 16;
    while p < n { v.extend((p - 1..p + 2).chain((n - p).saturating_sub(1)..n - p + 2).filter(|x| *x < n)); p *= 2 }
    v.sort(); v.dedup();
    v
}
fn long_faults(t: bool) -> Space {
    let ns: &'static [usize] = if t { &[15, 16, 31, 32, 33, 127, 128, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 131072, 1 << 20] } else { &[31, 32, 127, 128, 255, 256, 1024, 4096, 65535, 65536, 65537] };
    space("long-output", format!("strings, byte strings, formatted values, sequences and maps of {} lengths to {}, in 6 contexts (2 for the longest): the first and last 16 writes and byte budgets, the middle ones and those around every power of two", ns.len(), ns[ns.len() - 1]), move |c| {
        let m = c.choose(7);
        let n = *c.pick(ns);
        let k = c.choose(5);
        let cx = c.choose(6);
        let (sh, v): (S, V) = match k {
            0 => (&Sh::Str, V::Str((0..n).map(|i| if i % 1000 == 999 { '"' } else { 'x' }).collect())),
            1 => (&Sh::Bytes, V::Bytes((0..n).map(|i| i as u8).collect())),
            2 => (&Sh::Disp, V::Str("ab|\"".repeat(n / 4))),
            3 => (leak(Sh::Seq(&Sh::Bool)), V::Seq(vec![V::Bool(true); n])),
            _ => (leak(Sh::Map(&Sh::BStr, &Sh::Unit)), V::Map((0..n).map(|_| (V::s("k"), V::Unit)).collect())),
        };
        if n > 5000 && (k == 2 || !t && cx != 0 && cx != 2) { return Ok(()) }
        let (sh, v): (S, V) = match cx {
            0 => (sh, v),
            1 => (leak(Sh::Tup(leakv(vec![&Sh::Bool, sh, &Sh::Str]))), V::Seq(vec![V::Bool(true), v, V::s("q")])),
            2 => (leak(Sh::Map(&Sh::BStr, sh)), V::Map(vec![(V::s("a"), v)])),
            3 => if k == 0 { (leak(Sh::Map(&Sh::Str, U8S)), V::Map(vec![(v, V::Int(1))])) } else { return Ok(()) },
            4 => (wrap(8, sh), V::Var(1, Box::new(v))),
            _ => (leak(Sh::Opt(sh)), V::Some(Box::new(v))),
        };
        c.state(&(m, n, k, cx));
        let what = || format!("kind {k} of length {n} in context {cx} ({})", name7(m));
        c.sample(what);
        let disp = k == 2;
        let sv = SV(sh, &v);
        let mut full = Sink { log: true, ..Default::default() };
        if let Err(e) = ser7(m, &sv, &mut full)? { ensure!(m < 4, "{} fails with {e}", what()); c.outcome("not representable"); return Ok(()) }
        let mut runs = 0;
        for j in some_of(full.calls) {
            let mut s = Sink { fail_at: Some(j), ..Default::default() };
            let r = ser7(m, &sv, &mut s)?;
            runs += 1;
            c.outcome("write refused");
            match &r { Ok(()) => crate::fail!("write {j} of {} is refused but serialization of {} succeeds", full.calls, what()), Err(e) => ensure!(e.starts_with("Writer") || disp && e == "FormatError", "write {j} refused: serialization of {} fails with {e}", what()) }
            ensure!(s.after == 0, "{} more writes after write {j} of {} was refused", s.after, what());
            ensure!(s.calls == j + 1 && s.buf == full.buf[..full.sizes[j]], "write {j} refused: what was delivered for {} is no prefix", what());
        }
        for cap in some_of(full.buf.len() + 1) {
            let mut g = Guard::new(&vec![0xEE; cap]);
            let (r, n) = {
                let mut w = ser_write::SliceWriter::new(g.doc());
                let r = imp(|| if m < 4 { jser_to(ENCS[m], &mut w, &sv).map_err(|e| kind(&e)) } else { mser_to(crate::mref::FLS[m - 4], &mut w, &sv).map_err(|e| kind(&e)) })?;
                (r, w.len)
            };
            runs += 1;
            g.check()?;
            c.outcome("byte budget");
            if cap == full.buf.len() { ensure!(r.is_ok() && n == cap, "exactly {cap} bytes of room are not enough for {}: {r:?}", what()) }
            else { ensure!(r.as_ref().is_err_and(|e| e == "Writer" || disp && e == "FormatError"), "{cap} bytes of room for the {} bytes of {} give {r:?}", full.buf.len(), what()) }
            ensure!(n <= cap && g.doc()[..n] == full.buf[..n], "with {cap} bytes of room what was delivered for {} is no prefix", what());
        }
        c.bulk(runs);
        Ok(())
    })
}

// ------------------------------------------------------------------ 128-bit integers
#[derive(serde::Serialize, serde::Deserialize, PartialEq, Debug, Clone)] struct St128<T> { a: T }
#[derive(serde::Serialize, serde::Deserialize, PartialEq, Debug, Clone)] enum En128<T> { N(T) }
#[derive(serde::Serialize, serde::Deserialize, PartialEq, Eq, PartialOrd, Ord, Debug, Clone)] struct New128<T>(T);
trait Wide: serde::Serialize + serde::de::DeserializeOwned + std::fmt::Debug + std::fmt::Display + Clone + Ord { fn minimal(&self) -> Option<Vec<u8>>; fn of(s: &str) -> Option<Self>; }
fn least(u: Option<u64>, i: Option<i64>) -> Option<Vec<u8>> {
    match (u, i) { (Some(u), _) => mser_ok(crate::mref::Fl::Idx, &Sh::Int(IT::U64), &V::Int(u as i128)).ok(), (_, Some(i)) => mser_ok(crate::mref::Fl::Idx, &Sh::Int(IT::I64), &V::Int(i as i128)).ok(), _ => None }
}
impl Wide for i128 { fn minimal(&self) -> Option<Vec<u8>> { least((*self).try_into().ok(), (*self).try_into().ok()) } fn of(s: &str) -> Option<Self> { s.parse().ok() } }
impl Wide for u128 { fn minimal(&self) -> Option<Vec<u8>> { least((*self).try_into().ok(), (*self).try_into().ok()) } fn of(s: &str) -> Option<Self> { s.parse().ok() } }
/// 128-bit integers are not supported; a format that takes them must take them exactly
fn wide_int<T: Wide>(c: &mut Ctx, x: T, part: usize) -> R {
    use std::collections::BTreeMap;
    let text = x.to_string();
    // JSON text of the value in context k, if it is accepted; MessagePack likewise
    let wrap_j: [String; 7] = [text.clone(), format!("[{text}]"), format!("{{\"k\":{text}}}"), text.clone(), format!("{{\"a\":{text}}}"), format!("{{\"N\":{text}}}"), text.clone()];
    let key_j = format!("{{\"{text}\":7}}");
    macro_rules! each { ($f:expr) => { vec![$f(&x), $f(&vec![x.clone()]), $f(&BTreeMap::from([("k".to_string(), x.clone())])), $f(&Some(x.clone())), $f(&St128 { a: x.clone() }), $f(&En128::N(x.clone())), $f(&New128(x.clone()))] } }
    match part {
        0 => {
            fn ser<V: serde::Serialize>(v: &V) -> Result<Result<Vec<u8>, String>, Bad> { jser(Enc::Arr, v) }
            for (k, r) in each!(ser).into_iter().enumerate() { match r? {
                Err(_) => c.outcome("refused"),
                Ok(b) => { c.outcome("accepted"); ensure!(b == wrap_j[k].as_bytes(), "the 128-bit {text} in context {k} is printed as `{}`", show(&b)) }
            } }
        }
        1 => {
            for r in [jser(Enc::Arr, &BTreeMap::from([(x.clone(), 7u8)]))?, jser(Enc::Arr, &BTreeMap::from([(New128(x.clone()), 7u8)]))?] { match r {
                Err(_) => c.outcome("refused"),
                Ok(b) => { c.outcome("accepted"); ensure!(b == key_j.as_bytes(), "the 128-bit key {text} is printed as `{}`", show(&b)) }
            } }
        }
        2 => {
            // an edge of the type, and texts that are no integer of it
            fn de<V: serde::de::DeserializeOwned>(s: &str) -> Result<Result<V, String>, Bad> { let mut b = s.as_bytes().to_vec(); imp(|| js::from_mut_slice::<V>(&mut b).map_err(|e| format!("{e:?}"))) }
            macro_rules! back { ($ty:ty, $s:expr, $want:expr) => { match de::<$ty>($s)? { Err(_) => c.outcome("refused"), Ok(v) => { c.outcome("accepted"); ensure!(Some(v) == $want, "`{}` is read as another 128-bit value than {text}", $s) } } } }
            back!(T, &wrap_j[0], Some(x.clone()));
            back!(Vec<T>, &wrap_j[1], Some(vec![x.clone()]));
            back!(BTreeMap<String, T>, &wrap_j[2], Some(BTreeMap::from([("k".to_string(), x.clone())])));
            back!(Option<T>, &wrap_j[3], Some(Some(x.clone())));
            back!(St128<T>, &wrap_j[4], Some(St128 { a: x.clone() }));
            back!(En128<T>, &wrap_j[5], Some(En128::N(x.clone())));
            back!(BTreeMap<T, u8>, &key_j, Some(BTreeMap::from([(x.clone(), 7u8)])));
            for bad in [format!("{text}.5"), format!("{text}1"), format!("--{text}"), format!("\"{text}\""), format!("{text}e"), format!("{text}x"), format!("-{text}")] {
                let want = T::of(&bad);
                match de::<T>(&bad)? { Err(_) => c.outcome("refused"), Ok(v) => { c.outcome("accepted"); ensure!(Some(v) == want, "`{bad}` is read as another 128-bit value") } }
            }
        }
        3 => {
            let Some(least) = x.minimal() else {
                fn ser<V: serde::Serialize>(v: &V) -> Result<Result<Vec<u8>, String>, Bad> { mser(crate::mref::Fl::Idx, v) }
                for r in each!(ser) { if let Ok(b) = r? { crate::fail!("{text} does not fit in MessagePack but is written as [{}]", crate::mref::hex(&b)) } }
                c.outcome("refused");
                return Ok(())
            };
            for fl in crate::mref::FLS { match mser(fl, &x)? { Err(_) => c.outcome("refused"), Ok(b) => { c.outcome("accepted"); ensure!(b == least, "the 128-bit {text} is written as [{}], want [{}]", crate::mref::hex(&b), crate::mref::hex(&least)) } } }
            match mser(crate::mref::Fl::Idx, &vec![x.clone()])? { Err(_) => c.outcome("refused"), Ok(b) => { c.outcome("accepted"); ensure!(b[1..] == least, "the 128-bit [{text}] is written as [{}]", crate::mref::hex(&b)) } }
        }
        _ => {
            let Some(least) = x.minimal() else { return Ok(()) };
            let mut docs = vec![least.clone()];
            if let Some(u) = T::of(&text).and_then(|_| text.parse::<u64>().ok()) { docs.push([&[0xcf][..], &u.to_be_bytes()].concat()) }
            if let Ok(i) = text.parse::<i64>() { docs.push([&[0xd3][..], &i.to_be_bytes()].concat()) }
            for d in docs { match imp(|| ser_write_msgpack::from_slice::<T>(&d).map(|r| r.0).map_err(|e| format!("{e:?}")))? { Err(_) => c.outcome("refused"), Ok(v) => { c.outcome("accepted"); ensure!(v == x, "[{}] is read as the 128-bit {v}, not {text}", crate::mref::hex(&d)) } } }
        }
    }
    Ok(())
}
fn wide_ints(part: usize) -> Space {
    space("128-bit-places", format!("128-bit integers around zero and every power of two, both signs: {}", ["printed exactly or refused, in 7 contexts", "as object keys, quoted exactly or refused", "read exactly or refused, in 7 contexts and with 7 spoilings", "written in the minimal form or refused, in 7 contexts", "read exactly or refused from every width that holds them"][part]), move |c| {
        let k = c.choose(128);
        let d = c.choose(5) as i128 - 2;
        let neg = c.flag();
        c.state(&(k, d, neg));
        let u = (1u128 << k).wrapping_add_signed(d);
        c.sample(|| u.to_string());
        if neg { let i = (u as i128).wrapping_neg(); wide_int(c, i, part) } else { wide_int(c, u as i128, part)?; wide_int(c, u, part) }
    })
}

// ------------------------------------------------------------------ announced lengths in JSON
/// a value of any of the seven containers that announces a length it need not have
struct Lies { kind: usize, say: Option<usize>, n: usize }
impl serde::Serialize for Lies {
    fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        use serde::ser::*;
        static N: [&str; 4] = ["a", "b", "c", "d"];
        let l = self.say.unwrap_or(0);
        match self.kind {
            0 => { let mut m = z.serialize_seq(self.say)?; for i in 0..self.n { m.serialize_element(&i)? } m.end() }
            1 => { let mut m = z.serialize_tuple(l)?; for i in 0..self.n { m.serialize_element(&i)? } m.end() }
            2 => { let mut m = z.serialize_tuple_struct("T", l)?; for i in 0..self.n { m.serialize_field(&i)? } m.end() }
            3 => { let mut m = z.serialize_tuple_variant("E", 3, "V", l)?; for i in 0..self.n { m.serialize_field(&i)? } m.end() }
            4 => { let mut m = z.serialize_map(self.say)?; for i in 0..self.n { if i % 2 == 1 { m.serialize_entry(N[i], &i)? } else { m.serialize_key(N[i])?; m.serialize_value(&i)? } } m.end() }
            5 => { let mut m = z.serialize_struct("S", l)?; for i in 0..self.n { m.serialize_field(N[i], &i)? } m.end() }
            _ => { let mut m = z.serialize_struct_variant("E", 3, "V", l)?; for i in 0..self.n { m.serialize_field(N[i], &i)? } m.end() }
        }
    }
}
impl Lies {
    fn text(&self) -> String {
        let seq = (0..self.n).map(|i| i.to_string()).collect::<Vec<_>>().join(",");
        let map = (0..self.n).map(|i| format!("\"{}\":{i}", ["a", "b", "c", "d"][i])).collect::<Vec<_>>().join(",");
        match self.kind { 0..=2 => format!("[{seq}]"), 3 => format!("{{\"V\":[{seq}]}}"), 4 | 5 => format!("{{{map}}}"), _ => format!("{{\"V\":{{{map}}}}}") }
    }
}
fn lies() -> Space {
    space("announced", "every container with 0..=4 elements that announces none, 0..=4, 15, 16 or the largest number of them, alone, before a value and twice in an array, 4 byte encodings", move |c| {
        let l = Lies { kind: c.choose(7), say: *c.pick(&[None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(15), Some(16), Some(usize::MAX)]), n: c.num(0, 4) };
        let e = *c.pick(&ENCS);
        c.state(&(l.kind, l.say, l.n, e));
        let w = l.text();
        c.sample(|| format!("{w} announcing {:?}", l.say));
        for (k, want) in [w.clone(), format!("[{w},7]"), format!("[{w},{w}]"), format!("{{\"k\":{w},\"l\":null}}")].into_iter().enumerate() {
            struct Two<'a>(&'a Lies);
            impl serde::Serialize for Two<'_> { fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { use serde::ser::SerializeMap; let mut m = z.serialize_map(Some(2))?; m.serialize_entry("k", self.0)?; m.serialize_entry("l", &())?; m.end() } }
            let out = match k { 0 => jser(e, &l), 1 => jser(e, &(&l, 7u8)), 2 => jser(e, &[&l, &l]), _ => jser(e, &Two(&l)) }?;
            ensure!(out.as_ref().map(|o| &o[..]) == Ok(want.as_bytes()), "a container announcing {:?} gives {:?} instead of `{want}`", l.say, out.map(|o| show(&o)));
        }
        Ok(())
    })
}
// ------------------------------------------------------------------ the public string collector
fn collector(t: bool) -> Space {
    let frags: &'static [&'static str] = &["", "a", "\"", "\\", "\n", "\u{1}", "é", "😀", "ab\"", "\u{1f}\u{7f}", "0123456789abcdef", "0123456789abcdef\"0123456789abcde\\0123456789abcdefé😀"];
    let n = if t { 4 } else { 3 };
    let k = frags.len();
    space("collector", format!("the public StringCollector: up to {n} writes of {k} fragments as text, formatted or character by character, through one collector or several, each write to the sink refused or none"), move |c| {
        use std::fmt::Write;
        let len = c.num(1, n);
        let steps: Vec<(usize, usize)> = (0..len).map(|_| (c.choose(k), c.choose(3))).collect();
        let fresh = c.flag();
        c.state(&(&steps, fresh));
        let full: String = steps.iter().map(|s| frags[s.0]).collect();
        let want = jser_ok(Enc::Arr, &Sh::Str, &V::Str(full.clone()))?;
        match_out(&Sh::Str, &V::Str(full.clone()), Enc::Arr, &want).map_err(|m| crate::p_json::b(m))?;
        let want = &want[1..want.len() - 1];
        let run = |fail: Option<usize>| imp(|| {
            let mut s = Sink { fail_at: fail, ..Sink::default() };
            let put = |col: &mut js::ser::StringCollector<Sink>, (f, how): (usize, usize)| match how { 0 => col.write_str(frags[f]), 1 => write!(col, "{}", frags[f]), _ => frags[f].chars().try_for_each(|ch| col.write_char(ch)) };
            let ok = if fresh { steps.iter().all(|x| put(&mut js::ser::StringCollector::new(&mut s), *x).is_ok()) } else { let mut col = js::ser::StringCollector::new(&mut s); steps.iter().all(|x| put(&mut col, *x).is_ok()) };
            (s, ok)
        });
        let (s, ok) = run(None)?;
        ensure!(ok && s.buf == want, "{steps:?} {} writes `{}` for {full:?}", if fresh { "through several collectors" } else { "through a collector" }, show(&s.buf));
        let calls = s.calls;
        for at in 0..calls {
            let (s, ok) = run(Some(at))?;
            ensure!(!ok, "{steps:?}: write {at} was refused and no call says so");
            ensure!(s.after == 0, "{steps:?}: {} writes after write {at} was refused", s.after);
            ensure!(want.starts_with(&s.buf), "{steps:?}: `{}` written before write {at} was refused", show(&s.buf));
        }
        c.outcome("collected");
        c.bulk(1 + calls as u64);
        Ok(())
    })
}
