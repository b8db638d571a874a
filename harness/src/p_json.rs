//! Property spaces for the JSON format.
use crate::engine::*;
use crate::gen::*;
use crate::jref::{self, *};
use crate::run::*;
use crate::shape::*;
use crate::{ensure, fail};
use ser_write_json as js;
use std::sync::Arc;

pub fn b(m: String) -> Bad { Bad { key: String::new(), msg: m } }
pub const WRAPS: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8];

// ------------------------------------------------------------------ shared generators
/// Lexical completion: closes the open string and brackets of a JSON prefix.
pub fn closers(doc: &[u8]) -> Vec<u8> {
    let mut st = vec![];
    let (mut q, mut esc) = (false, false);
    for &c in doc {
        if q { if esc { esc = false } else if c == b'\\' { esc = true } else if c == b'"' { q = false } continue }
        match c { b'"' => q = true, b'[' => st.push(b']'), b'{' => st.push(b'}'), b']' | b'}' => { st.pop(); } _ => {} }
    }
    if q { if esc { st.push(b'"'); st.push(b'n') } else { st.push(b'"') } }
    st.reverse();
    st
}
/// Every token sequence up to `max` tokens that the judge does not declare dead; a dead prefix is
/// still judged once completed by closing brackets.
pub fn tokens(c: &mut Ctx, alpha: &[&[u8]], pre: &[u8], max: usize, close: &dyn Fn(&[u8]) -> Vec<u8>, judge: &dyn Fn(&[u8]) -> Result<Seen, Bad>) -> R {
    let mut doc = pre.to_vec();
    for _ in 0..max {
        doc.extend_from_slice(alpha[c.choose(alpha.len())]);
        if c.fresh() {
            
            c.state(&doc);
            let s = judge(&doc)?;
            c.outcome(match s { Seen::Accept => "accepted", Seen::Reject => "rejected", Seen::Eof => "incomplete", Seen::Free => "unspecified" });
            if s != Seen::Accept {
                let t = close(&doc);
                if !t.is_empty() { let mut d = doc.clone(); d.extend(t); judge(&d)?; }
            }
            if matches!(s, Seen::Reject | Seen::Free) { return Ok(()) }
        }
    }
    c.sample(|| show(&doc));
    Ok(())
}
fn jtokens(c: &mut Ctx, sh: S, dec: Dec, alpha: &[&[u8]], pre: &[u8], max: usize) -> R {
    tokens(c, alpha, pre, max, &closers, &|d| jjudge(sh, d, dec))
}
/// split a JSON text into tokens
pub fn lex(doc: &[u8]) -> Vec<Vec<u8>> {
    let mut o = vec![];
    let mut i = 0;
    while i < doc.len() {
        let s = i;
        match doc[i] {
            b'"' => { i += 1; while doc[i] != b'"' { if doc[i] == b'\\' { i += 1 } i += 1 } i += 1 }
            b'{' | b'}' | b'[' | b']' | b',' | b':' => i += 1,
            _ => while i < doc.len() && !b"{}[],:\"".contains(&doc[i]) { i += 1 },
        }
        o.push(doc[s..i].to_vec());
    }
    o
}
/// byte values of a value tree rewritten
pub fn map_bytes(v: &V, f: &dyn Fn(&[u8]) -> Vec<u8>) -> V {
    match v {
        V::Bytes(b) => V::Bytes(f(b)),
        V::Some(x) => V::Some(Box::new(map_bytes(x, f))),
        V::New(x) => V::New(Box::new(map_bytes(x, f))),
        V::Var(i, x) => V::Var(*i, Box::new(map_bytes(x, f))),
        V::Seq(x) => V::Seq(x.iter().map(|x| map_bytes(x, f)).collect()),
        V::Map(x) => V::Map(x.iter().map(|(a, b)| (map_bytes(a, f), map_bytes(b, f))).collect()),
        V::Struct(x) => V::Struct(x.iter().map(|x| x.as_ref().map(|x| map_bytes(x, f))).collect()),
        _ => v.clone(),
    }
}
/// a JSON string literal holding these bytes
pub fn literal(b: &[u8]) -> Vec<u8> {
    let mut o = vec![b'"'];
    for &c in b { match c { b'"' | b'\\' => { o.push(b'\\'); o.push(c) } 0..=0x1f => o.extend(format!("\\u{c:04x}").bytes()), _ => o.push(c) } }
    o.push(b'"');
    o
}
pub fn dec_for(e: Enc) -> &'static [Dec] { match e { Enc::Arr => &DECS, Enc::Hex => &[Dec::Hex], Enc::B64 => &[Dec::B64], Enc::Pass => &[Dec::Nope] } }
pub fn chars_all() -> impl Iterator<Item = char> { (0..=0x10ffffu32).filter_map(char::from_u32) }
pub fn chunked(c: &mut Ctx, total: usize, size: usize) -> std::ops::Range<usize> {
    let n = (total + size - 1) / size;
    let k = c.choose(n);
    k * size..((k + 1) * size).min(total)
}
/// integers around every power of two and ten
pub fn edges() -> Vec<i128> {
    let mut v = vec![];
    for k in 0..66 { for d in -2..=2i128 { v.push((1i128 << k) + d); v.push(-(1i128 << k) + d) } }
    let mut p = 1i128;
    for _ in 0..21 { for d in -2..=2i128 { v.push(p + d); v.push(-p + d); v.push(p * 5 + d); v.push(p * 9 + d) } p *= 10 }
    v.sort(); v.dedup();
    v
}
pub static INTS: [Sh; 8] = [Sh::Int(IT::I8), Sh::Int(IT::I16), Sh::Int(IT::I32), Sh::Int(IT::I64), Sh::Int(IT::U8), Sh::Int(IT::U16), Sh::Int(IT::U32), Sh::Int(IT::U64)];
pub fn it(sh: S) -> IT { match sh { Sh::Int(t) => *t, _ => unreachable!() } }
/// f32 bit patterns: every sign and exponent with structured mantissas
pub fn f32_grid() -> Vec<u32> {
    let mut v = vec![];
    let mut ms: Vec<u32> = vec![0, 1, 2, 3, 0x7fffff, 0x7ffffe, 0x400000, 0x2aaaaa, 0x555555, 0x333333, 0x199999];
    for k in 0..23 { ms.push(1 << k); ms.push(0x7fffff >> k); ms.push(0x7fffff & !(1 << k)); }
    for k in 0..256 { ms.push(k * 32749 & 0x7fffff) }
    ms.sort(); ms.dedup();
    for e in 0..512u32 { for m in &ms { v.push(e << 23 | m) } }
    for x in 0..2000 { v.push((x as f32).to_bits()); v.push((x as f32 / 10.0).to_bits()); v.push((x as f32 * 1e6).to_bits()) }
    v
}
pub fn f64_grid() -> Vec<u64> {
    let mut v = vec![];
    let full = (1u64 << 52) - 1;
    let mut ms: Vec<u64> = vec![0, 1, 2, 3, full, full - 1, full / 3, full / 5, full / 10];
    for k in 0..52 { if k % 3 == 0 { ms.push(1 << k); ms.push(full >> k); } }
    for k in 0..16u64 { ms.push(k.wrapping_mul(0x9e3779b97f4a7c15) & full) }
    ms.sort(); ms.dedup();
    for e in 0..4096u64 { for m in &ms { v.push(e << 52 | m) } }
    for x in 0..3000u32 { let x = x as f64; for y in [x, x / 10.0, x / 1000.0, x * 1e15, x * 1e18] { v.push(y.to_bits()); v.push((-y).to_bits()); v.push(y.to_bits() + 1) } }
    let mut p = 1e-330f64; let _ = p;
    for k in -324..309 { p = format!("1e{k}").parse().unwrap(); for d in -2i64..=2 { v.push((p.to_bits() as i64 + d).max(0) as u64) } }
    v
}

pub fn spaces(prop: &str, t: bool) -> Vec<Space> {
    match prop {
        "J01" => j01(t), "J02" => j02(t), "J03" => j03(t), "J04" => j04(t), "J05" => j05(t), "J06" => j06(t), "J07" => j07(t), "J08" => j08(t),
        "J09" => j09(t), "J10" => j10(t), "J11" => j11(t), "J12" => j12(t), "J13" => j13(t), "J14" => j14(t), "J15" => crate::p_cursor::j15(t),
        _ => vec![],
    }
}
pub fn cat(t: bool) -> Arc<Vec<S>> {
    let mut v = catalog(2, &leaves(), WRAPS);
    if t { v.extend(catalog(3, &leaves_small()[..], WRAPS)) }
    v.extend(keyed());
    Arc::new(v)
}

// ------------------------------------------------------------------ J01
pub fn j01_check(sh: S, v: &V, enc: Enc) -> R {
    let out = jser_ok(enc, sh, v)?;
    match_out(sh, v, enc, &out).map_err(b)?;
    if enc != Enc::Pass { ensure!(std::str::from_utf8(&out).is_ok(), "output is not UTF-8 for {v:?}"); }
    #[cfg(feature = "heap")]
    {
        let x = SV(sh, v);
        let s = imp(|| match enc { Enc::Arr => js::to_string(&x), Enc::Hex => js::to_string_hex_bytes(&x), Enc::B64 => js::to_string_base64_bytes(&x), Enc::Pass => js::to_string_pass_bytes(&x) })?;
        match (s, String::from_utf8(out)) {
            (Ok(s), Ok(o)) => ensure!(s.as_bytes() == o.as_bytes(), "to_string gives `{}`, to_writer `{}`", show(s.as_bytes()), show(o.as_bytes())),
            (Err(e), Err(_)) => ensure!(kind(&e) == "Utf8Encode", "non-UTF-8 pass-through reported as {e:?}"),
            (Ok(s), Err(o)) => fail!("to_string returned {:?} for non-UTF-8 output {:?}", s.as_bytes(), o.as_bytes()),
            (Err(e), Ok(_)) => fail!("to_string failed with {e:?} for {v:?}"),
        }
    }
    let _ = js::to_writer::<Sink, ()>;
    Ok(())
}
/// A serialize-side sequence or map announcing an arbitrary length.
pub struct Hinted { pub map: bool, pub hint: Option<usize>, pub n: usize }
impl serde::Serialize for Hinted {
    fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        use serde::ser::{SerializeMap, SerializeSeq};
        if self.map {
            let mut m = z.serialize_map(self.hint)?;
            for i in 0..self.n { if i % 2 == 0 { m.serialize_entry(&(i as u8), &true)? } else { m.serialize_key(&(i as u8))?; m.serialize_value(&true)? } }
            m.end()
        } else {
            let mut m = z.serialize_seq(self.hint)?;
            for i in 0..self.n { m.serialize_element(&(i as u8))? }
            m.end()
        }
    }
}
static NAMES4: &[&str] = &["a", "q\"", "", "é\n"];
fn skip_shapes() -> Vec<S> {
    let ss: &'static [S] = leakv(vec![leak(Sh::Int(IT::I16)), &Sh::BStr, &Sh::Opt(U8S), &Sh::Seq(U8S)]);
    vec![leak(Sh::Struct(leak(SD { name: "S", fields: NAMES4, shapes: ss }))),
        leak(Sh::Enum(leak(ED { name: "E", names: &["V"], vars: leakv(vec![Var::Struct(NAMES4, ss)]) }))),
        leak(Sh::Tup(leakv(vec![leak(Sh::Struct(leak(SD { name: "S", fields: NAMES4, shapes: ss }))) as S, U8S])))]
}
pub fn skip_value(c: &mut Ctx, sh: S) -> V {
    let full = [V::Int(-300), V::s("x\"y"), V::None, V::Seq(vec![V::Int(1), V::Int(2)])];
    let fields = V::Struct(full.into_iter().map(|v| if c.flag() { None } else { Some(v) }).collect());
    match sh { Sh::Struct(_) => fields, Sh::Enum(_) => V::Var(0, Box::new(fields)), _ => V::Seq(vec![fields, V::Int(9)]) }
}
pub fn wide_shapes() -> Vec<S> { vec![leak(Sh::Seq(U8S)), leak(Sh::Seq(&Sh::BStr)), leak(Sh::Map(U8S, &Sh::Bool)), leak(Sh::Map(&Sh::BStr, &Sh::Seq(U8S)))] }
pub fn wide_value(sh: S, n: usize) -> V {
    match sh {
        Sh::Seq(Sh::BStr) => V::Seq((0..n).map(|i| V::s(["", "x", "\"\n"][i % 3])).collect()),
        Sh::Seq(_) => V::Seq((0..n).map(|i| V::Int(i as i128 % 256)).collect()),
        Sh::Map(Sh::Int(_), _) => V::Map((0..n).map(|i| (V::Int(i as i128 % 256), V::Bool(i % 3 == 0))).collect()),
        _ => V::Map((0..n).map(|i| (V::Str(format!("k{i}")), V::Seq(vec![V::Int(i as i128 % 256); i % 3]))).collect()),
    }
}
fn j01(t: bool) -> Vec<Space> {
    let shapes = cat(t);
    let n = shapes.len();
    let deep = Arc::new(catalog(1, &leaves(), WRAPS));
    let skips = Arc::new(skip_shapes());
    let wides = Arc::new(wide_shapes());
    let maxw = if t { 1100 } else { 300 };
    vec![
        space("catalog", format!("{n} shapes (every wire kind under every container, nested), all values within width 2, 4 byte encodings"), move |c| {
            let i = c.choose(shapes.len());
            let v = gen(c, shapes[i], if t { 1 } else { 0 } + (i < 220) as usize, 2);
            let e = *c.pick(&ENCS);
            c.state(&(i, &v, e)); c.sample(|| format!("{v:?} {e:?}"));
            j01_check(shapes[i], &v, e)
        }),
        space("leaves", "every leaf and single container with the extended value lists", move |c| {
            let i = c.choose(deep.len());
            let v = gen(c, deep[i], 2, 1);
            let e = *c.pick(&ENCS);
            c.state(&(i, &v, e));
            j01_check(deep[i], &v, e)
        }),
        space("skip-fields", "every subset of skipped fields of a 4-field struct, struct variant and nested struct", move |c| {
            let i = c.choose(skips.len());
            let v = skip_value(c, skips[i]);
            c.state(&(i, &v)); c.sample(|| format!("{v:?}"));
            j01_check(skips[i], &v, Enc::Arr)
        }),
        space("lengths", format!("sequences and maps of every length 0..={maxw}"), move |c| {
            let i = c.choose(wides.len());
            let n = c.num(0, maxw);
            c.state(&(i, n));
            j01_check(wides[i], &wide_value(wides[i], n), Enc::Arr)
        }),
        space("hints", "sequences and maps announcing no length or any length 0..=3 with 0..=3 elements", move |c| {
            let h = Hinted { map: c.flag(), hint: [None, Some(0), Some(1), Some(2), Some(3)][c.choose(5)], n: c.num(0, 3) };
            c.state(&(h.map, h.hint, h.n));
            let out = jser(Enc::Arr, &h)?.map_err(b)?;
            let want: Vec<String> = (0..h.n).map(|i| if h.map { format!("\"{i}\":true") } else { i.to_string() }).collect();
            let want = if h.map { format!("{{{}}}", want.join(",")) } else { format!("[{}]", want.join(",")) };
            ensure!(out == want.as_bytes(), "hint {:?} with {} elements gives `{}`", h.hint, h.n, show(&out));
            Ok(())
        }),
    ]
}

// ------------------------------------------------------------------ J02
pub static ENUM_STR: Sh = Sh::Disp;
fn as_name(s: &str) -> &'static str { Box::leak(s.to_string().into_boxed_str()) }
fn j02(t: bool) -> Vec<Space> {
    let atoms: &'static [&str] = &["a", "\"", "\\", "\n", "\u{0}", "\u{1f}", "\u{8}", "é", "😀", "\u{7f}", "/", "u"];
    let nmax = if t { 5 } else { 4 };
    let lmax = if t { 700 } else { 290 };
    let forms = |c: char| -> [(S, V); 4] { [(&Sh::Char, V::Char(c)), (&Sh::Str, V::Str(format!("a{c}{c}b"))), (&Sh::Disp, V::Str(if c == '|' { "x".into() } else { format!("a|{c}|") })), (&Sh::Char, V::Char(c))] };
    vec![
        space("every-scalar", "every Unicode scalar value as char, in a string, in a formatted value and as object key", move |c| {
            let r = chunked(c, 0x110000, 2048);
            let mut n = 0;
            for ch in r.filter_map(|x| char::from_u32(x as u32)) {
                for (k, (sh, v)) in forms(ch).iter().enumerate() {
                    n += 1;
                    if k == 3 {
                        let (ms, mv) = (&Sh::Map(&Sh::Char, &Sh::Char), V::Map(vec![(v.clone(), v.clone())]));
                        let out = jser_ok(Enc::Arr, ms, &mv)?;
                        match_out(ms, &mv, Enc::Arr, &out).map_err(b)?;
                    } else {
                        let out = jser_ok(Enc::Arr, sh, v)?;
                        match_out(sh, v, Enc::Arr, &out).map_err(b)?;
                    }
                }
            }
            c.bulk(n);
            c.sample(|| "chunk of scalars".into());
            Ok(())
        }),
        space("short-strings", format!("every string of up to {nmax} atoms of {atoms:?} as value, key, formatted value in every fragmentation, formatted key"), move |c| {
            let n = c.num(0, nmax);
            let mut s = String::new();
            let mut frag = String::new();
            for _ in 0..n { let a = atoms[c.choose(atoms.len())]; s.push_str(a); frag.push_str(a); if n <= 3 { match c.choose(3) { 0 => {} 1 => frag.push('|'), _ => frag.push_str("||") } } else { frag.push('|') } }
            c.state(&frag); c.sample(|| format!("{frag:?}"));
            let kv = |k: S, v: V| -> (S, V) { (leak_map(k), V::Map(vec![(v.clone(), V::Int(1)), (v, V::Int(2))])) };
            for (sh, v) in [(&Sh::Str as S, V::Str(s.clone())), (&Sh::Disp, V::Str(frag.clone())), (&Sh::Disp, V::Str(format!("|{frag}"))), kv(&Sh::Str, V::Str(s.clone())), kv(&Sh::Disp, V::Str(frag.clone()))] {
                let out = jser_ok(Enc::Arr, sh, &v)?;
                match_out(sh, &v, Enc::Arr, &out).map_err(b)?;
            }
            Ok(())
        }),
        space("names", "struct field and variant names made of up to 3 atoms", move |c| {
            let n = c.num(0, 3);
            let mut s = String::new();
            for _ in 0..n { s.push_str(atoms[c.choose(atoms.len())]) }
            c.state(&s);
            let nm = as_name(&s);
            let names: &'static [&'static str] = leakv(vec![nm]);
            let sd: S = leak(Sh::Struct(leak(SD { name: "S", fields: names, shapes: leakv(vec![U8S as S]) })));
            let mk = |v: Var| -> S { leak(Sh::Enum(leak(ED { name: "E", names, vars: leakv(vec![v]) }))) };
            let one = || V::Struct(vec![Some(V::Int(1))]);
            let ss: &'static [S] = leakv(vec![U8S as S]);
            for (sh, v) in [(sd, one()), (mk(Var::Unit), V::Var(0, Box::new(V::Unit))), (mk(Var::New(U8S)), V::Var(0, Box::new(V::Int(1)))),
                (mk(Var::Tup(ss)), V::Var(0, Box::new(V::Seq(vec![V::Int(1)])))), (mk(Var::Struct(names, ss)), V::Var(0, Box::new(one())))] {
                let out = jser_ok(Enc::Arr, sh, &v)?;
                match_out(sh, &v, Enc::Arr, &out).map_err(b)?;
                if let V::Var(_, x) = &v { if **x == V::Unit {
                    let (ms, mv) = (leak_map(sh), V::Map(vec![(v.clone(), V::Int(3))]));
                    let out = jser_ok(Enc::Arr, ms, &mv)?;
                    match_out(ms, &mv, Enc::Arr, &out).map_err(b)?;
                } }
            }
            Ok(())
        }),
        space("positions", format!("a special character at every position of strings of every length up to {lmax}, and two at once, as string and as fragments"), move |c| {
            let len = c.num(1, lmax);
            let sp = *c.pick(&['"', '\\', '\u{1}', '\n', 'é', '😀']);
            let mut n = 0;
            for p in 0..len {
                let q = (p * 7 + 3) % len;
                let s: String = (0..len).map(|i| if i == p || (i == q && len % 2 == 0) { sp } else { 'x' }).collect();
                let fr: String = { let cut = (p * 3) % (len + 1); s.chars().enumerate().flat_map(|(i, ch)| if i == cut { vec!['|', ch] } else { vec![ch] }).collect() };
                for (sh, v) in [(&Sh::Str as S, V::Str(s)), (&Sh::Disp, V::Str(fr))] {
                    let out = jser_ok(Enc::Arr, sh, &v)?;
                    match_out(sh, &v, Enc::Arr, &out).map_err(b)?;
                    n += 1;
                }
            }
            c.bulk(n);
            Ok(())
        }),
        space("char-pairs", "every ordered pair of characters below 0x100 in a string", move |c| {
            let a = char::from_u32(c.choose(256) as u32).unwrap();
            for x in 0..256u32 {
                let s = V::Str(format!("{a}{}", char::from_u32(x).unwrap()));
                let out = jser_ok(Enc::Arr, &Sh::Str, &s)?;
                match_out(&Sh::Str, &s, Enc::Arr, &out).map_err(b)?;
            }
            c.bulk(256);
            Ok(())
        }),
    ]
}
fn leak_map(k: S) -> S { match k { Sh::Str => &Sh::Map(&Sh::Str, U8S), Sh::Disp => &Sh::Map(&Sh::Disp, U8S), Sh::BStr => &Sh::Map(&Sh::BStr, U8S), _ => leak(Sh::Map(k, U8S)) } }

// ------------------------------------------------------------------ J03
fn j03_int(sh: S, n: i128) -> R {
    let v = V::Int(n);
    let out = jser_ok(Enc::Arr, sh, &v)?;
    ensure!(out == n.to_string().as_bytes(), "{sh:?} {n} is printed as `{}`", show(&out));
    let m = match it(sh) {
        IT::I8 => &Sh::Map(&Sh::Int(ITS[0]), &Sh::Unit) as S, IT::I16 => &Sh::Map(&Sh::Int(ITS[1]), &Sh::Unit), IT::I32 => &Sh::Map(&Sh::Int(ITS[2]), &Sh::Unit), IT::I64 => &Sh::Map(&Sh::Int(ITS[3]), &Sh::Unit),
        IT::U8 => &Sh::Map(&Sh::Int(ITS[4]), &Sh::Unit), IT::U16 => &Sh::Map(&Sh::Int(ITS[5]), &Sh::Unit), IT::U32 => &Sh::Map(&Sh::Int(ITS[6]), &Sh::Unit), IT::U64 => &Sh::Map(&Sh::Int(ITS[7]), &Sh::Unit),
    };
    let out = jser_ok(Enc::Arr, m, &V::Map(vec![(v, V::Unit)]))?;
    ensure!(out == format!("{{\"{n}\":null}}").as_bytes(), "{sh:?} key {n} is printed as `{}`", show(&out));
    Ok(())
}
fn j03_float(sh: S, v: V) -> R { let out = jser_ok(Enc::Arr, sh, &v)?; match_out(sh, &v, Enc::Arr, &out).map_err(b) }
fn j03(_t: bool) -> Vec<Space> {
    let ed = Arc::new(edges());
    let g32 = Arc::new(f32_grid());
    let g64 = Arc::new(f64_grid());
    let v = vec![
        space("int8-16", "every 8- and 16-bit integer as value and key", |c| {
            let k = c.choose(4);
            let sh: S = [&INTS[0], &INTS[4], &INTS[1], &INTS[5]][k];
            let (lo, hi) = (it(sh).min(), it(sh).max());
            let r = if k < 2 { 0..256 } else { chunked(c, 65536, 1024) };
            for x in r.clone() { j03_int(sh, (lo + x as i128).min(hi))? }
            c.bulk(r.len() as u64);
            Ok(())
        }),
        space("int-edges", "every width, around every power of two and ten (and 5x, 9x), in and next to range limits", move |c| {
            let sh = &INTS[c.choose(8)];
            let n = *c.pick(&ed);
            if !it(sh).has(n) { return Ok(()) }
            c.state(&(it(sh).bits(), it(sh).signed(), n)); c.sample(|| format!("{sh:?} {n}"));
            j03_int(sh, n)
        }),
        space("f32-grid", "every f32 sign and exponent with over 300 mantissa patterns, small integers and tenths", move |c| {
            let r = chunked(c, g32.len(), 2048);
            for i in r.clone() { j03_float(&Sh::F32, V::F32(g32[i]))? }
            c.bulk(r.len() as u64);
            Ok(())
        }),
        space("f64-grid", "every f64 sign and exponent with over 50 mantissa patterns, neighbours of powers of ten, small multiples", move |c| {
            let r = chunked(c, g64.len(), 2048);
            for i in r.clone() { j03_float(&Sh::F64, V::F64(g64[i]))? }
            c.bulk(r.len() as u64);
            c.sample(|| "f64 chunk".into());
            Ok(())
        }),
    ];
    v
}

// ------------------------------------------------------------------ J04
fn key_shapes() -> Vec<S> {
    let mut v = leaves();
    let en: S = leak(Sh::Enum(leak(ED { name: "E", names: &["U\"n", "N", "T", "S"], vars: leakv(vec![Var::Unit, Var::New(U8S), Var::Tup(&[U8S, U8S]), Var::Struct(&["x"], &[U8S])]) })));
    v.push(en);
    let base = v.clone();
    for s in &base { v.push(leak(Sh::New(s))); v.push(leak(Sh::New(leak(Sh::New(s))))); v.push(leak(Sh::Opt(s))); v.push(leak(Sh::New(leak(Sh::Opt(s))))); }
    for s in [U8S as S, &Sh::BStr] { for k in 2..10 { v.push(wrap(k, s)) } }
    v
}
fn j04(t: bool) -> Vec<Space> {
    let shapes = Arc::new(key_shapes());
    let s2 = shapes.clone();
    let ed = Arc::new(edges());
    let lvl = 2;
    vec![
        space("one-key", "every key type (leaves, newtypes to depth 2, options, enum variants, containers) with extended values, 4 byte encodings", move |c| {
            let i = c.choose(shapes.len());
            let k = gen(c, shapes[i], lvl, 1);
            let e = *c.pick(&ENCS);
            let sh: S = leak_key(shapes[i]);
            let v = V::Map(vec![(k.clone(), V::Int(5))]);
            c.state(&(i, &k, e)); c.sample(|| format!("{k:?}"));
            j04_check(c, sh, shapes[i], &v, &k, e)
        }),
        space("several-keys", "maps of two keys and maps as values, every key type", move |c| {
            let i = c.choose(s2.len());
            let a = gen(c, s2[i], 0, 1);
            let d = gen(c, s2[i], if t { 2 } else { 1 }, 1);
            let inner: S = leak_key(s2[i]);
            let sh: S = leak_nest(s2[i]);
            let m = |k: &V| V::Map(vec![(k.clone(), V::Int(1))]);
            let v = V::Map(vec![(a.clone(), m(&d)), (d.clone(), m(&a))]);
            c.state(&(i, &v));
            let _ = inner;
            let bad_key = if !key_ok(s2[i], &a) { &a } else { &d };
            j04_check(c, sh, s2[i], &v, bad_key, Enc::Arr)
        }),
        space("integer-keys", "every width with every edge value as key, alone and last of two", move |c| {
            let sh = &INTS[c.choose(8)];
            let n = *c.pick(&ed);
            if !it(sh).has(n) { return Ok(()) }
            c.state(&(it(sh).bits(), it(sh).signed(), n));
            let v = V::Map(vec![(V::Int(0), V::Int(1)), (V::Int(n), V::Int(2))]);
            j04_check(c, leak_key(sh), sh, &v, &V::Int(n), Enc::Arr)
        }),
        space("all-16-bit-keys", "every 8- and 16-bit integer key round trips", |c| {
            let k = c.choose(4);
            let sh: S = [&INTS[0], &INTS[4], &INTS[1], &INTS[5]][k];
            let r = if k < 2 { 0..256 } else { chunked(c, 65536, 2048) };
            let ms = leak_key(sh);
            for x in r.clone() { let v = V::Map(vec![(V::Int(it(sh).min() + x as i128), V::Int(1))]); let o = jser_ok(Enc::Arr, ms, &v)?; match_out(ms, &v, Enc::Arr, &o).map_err(b)?; let g = jdec(ms, &o, Dec::Nope)?.res; ensure!(matches!(&g, Ok(x) if *x == v), "{v:?} came back as {g:?}"); }
            c.bulk(r.len() as u64);
            Ok(())
        }),
    ]
}
fn leak_key(k: S) -> S { memo(k, 0, |k| leak(Sh::Map(k, U8S))) }
fn leak_nest(k: S) -> S { memo(k, 1, |k| leak(Sh::Map(k, leak(Sh::Map(k, U8S))))) }
/// shapes derived from shapes, built once
pub fn memo(k: S, tag: usize, f: impl Fn(S) -> S) -> S {
    use std::collections::HashMap;
    use std::sync::Mutex;
    static M: Mutex<Option<HashMap<(usize, usize), usize>>> = Mutex::new(None);
    let mut g = M.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    let p = *m.entry((k as *const Sh as usize, tag)).or_insert_with(|| f(k) as *const Sh as usize);
    unsafe { &*(p as *const Sh) }
}
fn j04_check(c: &mut Ctx, sh: S, ks: S, v: &V, k: &V, e: Enc) -> R {
    let r = jser(e, &SV(sh, v))?;
    if !key_ok(ks, k) {
        c.outcome("refused");
        let Err(kd) = r else { fail!("unsupported key {k:?} of {ks:?} was serialized as `{}`", show(&r.unwrap())) };
        ensure!(kd == "InvalidKeyType", "unsupported key {k:?} of {ks:?} refused with {kd}");
        return Ok(());
    }
    c.outcome("accepted");
    let out = r.map_err(|k2| b(format!("key {k:?} of {ks:?} refused: {k2}")))?;
    match_out(sh, v, e, &out).map_err(b)?;
    let want = canon(sh, v, true);
    for d in DECS {
        let g = jdec(sh, &out, d)?.res;
        ensure!(matches!(&g, Ok(x) if veq(x, &want, true)), "`{}` decodes as {g:?}, want {want:?}", show(&out));
    }
    Ok(())
}

// ------------------------------------------------------------------ J05
pub fn j05_check(sh: S, v: &V, e: Enc) -> R {
    let want = canon(sh, v, true);
    inj::arm(0, false);
    let out = if e == Enc::Pass { jser_ok(e, sh, &map_bytes(v, &literal))? } else { jser_ok(e, sh, v)? };
    for &d in dec_for(e) {
        let g = jdec(sh, &out, d)?.res;
        ensure!(matches!(&g, Ok(x) if veq(x, &want, true)), "{v:?} as {sh:?} serializes to `{}` and comes back ({d:?}) as {g:?}", show(&out));
    }
    human_agrees(sh, v)
}
/// a type may choose its form by `is_human_readable`: every node of the value and of the decoded one heard the same
pub fn human_agrees(sh: S, v: &V) -> R {
    ensure!(inj::disarm().3 != 3, "is_human_readable differs between nodes or between serializing and deserializing {} as {sh:?}: a type that follows it does not round trip", crate::mref::brief(v));
    Ok(())
}
fn j05(t: bool) -> Vec<Space> {
    let shapes = cat(t);
    let n = shapes.len();
    let deep = Arc::new(catalog(1, &leaves(), WRAPS));
    let wides = Arc::new(wide_shapes());
    let g32 = Arc::new(f32_grid());
    let g64 = Arc::new(f64_grid());
    let mut v = vec![
        space("catalog", format!("{n} shapes, all values within width 2, 4 encodings with every matching decoder"), move |c| {
            let i = c.choose(shapes.len());
            let v = gen(c, shapes[i], if t { 1 } else { 0 } + (i < 220) as usize, 2);
            let e = *c.pick(&ENCS);
            c.state(&(i, &v, e)); c.sample(|| format!("{v:?} {e:?}"));
            j05_check(shapes[i], &v, e)
        }),
        space("leaves", "every leaf and single container with the extended value lists", move |c| {
            let i = c.choose(deep.len());
            let v = gen(c, deep[i], 2, 2);
            let e = *c.pick(&ENCS);
            c.state(&(i, &v, e));
            j05_check(deep[i], &v, e)
        }),
        space("lengths", "sequences, maps, strings and byte strings of every length 0..=300", move |c| {
            let i = c.choose(wides.len() + 3);
            let n = c.num(0, 300);
            c.state(&(i, n));
            let (sh, v): (S, V) = if i < wides.len() { (wides[i], wide_value(wides[i], n)) } else if i == wides.len() { (&Sh::BStr, V::Str((0..n).map(|i| ['a', '"', '\\', '\u{3}', 'é', '\n'][i * i % 7 % 6]).collect())) }
                else if i == wides.len() + 1 { (&Sh::Bytes, V::Bytes((0..n).map(|i| (i * 37 + n) as u8).collect())) } else { (&Sh::Disp, V::Str((0..n).map(|i| ['a', '|', '\\', '\u{3}', 'é', '"'][i * i % 7 % 6]).collect())) };
            for e in ENCS { j05_check(sh, &v, e)? }
            Ok(())
        }),
        space("chars", "every Unicode scalar as char and inside a string", |c| {
            let r = chunked(c, 0x110000, 2048);
            let mut n = 0;
            for ch in r.filter_map(|x| char::from_u32(x as u32)) { j05_check(&Sh::Char, &V::Char(ch), Enc::Arr)?; j05_check(&Sh::BStr, &V::Str(format!("{ch}\"{ch}x")), Enc::Arr)?; n += 2 }
            c.bulk(n);
            Ok(())
        }),
        space("f32", "the f32 grid", move |c| { let r = chunked(c, g32.len(), 2048); for i in r.clone() { j05_check(&Sh::F32, &V::F32(g32[i]), Enc::Arr)? } c.bulk(r.len() as u64); Ok(()) }),
        space("f64", "the f64 grid", move |c| { let r = chunked(c, g64.len(), 2048); for i in r.clone() { j05_check(&Sh::F64, &V::F64(g64[i]), Enc::Arr)? } c.bulk(r.len() as u64); Ok(()) }),
    ];
    #[cfg(feature = "realj")]
    v.extend(crate::real::json_spaces(t));
    v
}

// ------------------------------------------------------------------ J06
pub struct Gram { pub sh: S, pub alpha: &'static [&'static [u8]], pub q: usize, pub t: usize }
macro_rules! al { ($($x:expr),*) => { leakv(vec![$($x.as_bytes()),*]) } }
const E1: &ED = &ED { name: "E", names: &["A", "B", "C", "D"], vars: &[Var::Unit, Var::New(U8S), Var::Tup(&[U8S, &Sh::Bool]), Var::Struct(&["x", "y"], &[U8S, &Sh::Opt(U8S)])] };
const SD1: &SD = &SD { name: "S", fields: &["a", "b"], shapes: &[U8S, &Sh::Opt(U8S)] };
const SD2: &SD = &SD { name: "S", fields: &["a", "b", "c"], shapes: &[&Sh::BStr, &Sh::Seq(U8S), &Sh::Bool] };
const SD0: &SD = &SD { name: "Z", fields: &[], shapes: &[] };
pub fn grammar() -> Vec<Gram> {
    let basic: &'static [&'static [u8]] = al!["[", "]", "{", "}", ",", ":", "1", "-", "300", "\"a\"", "null", "true", " ", "x"];
    let obj: &'static [&'static [u8]] = al!["{", "}", "[", "]", ",", ":", "\"a\"", "\"b\"", "\"z\"", "1", "null", "true", "\n"];
    let en: &'static [&'static [u8]] = al!["{", "}", "[", "]", ",", ":", "\"A\"", "\"B\"", "\"C\"", "\"D\"", "\"x\"", "1", "true", "null", " "];
    let lit: &'static [&'static [u8]] = al!["n", "u", "l", "t", "r", "e", "f", "a", "s", " ", "]", "0"];
    let num: &'static [&'static [u8]] = al!["-", "+", "0", "1", "9", ".", "e", "E", " ", "n", "\""];
    let anyal: &'static [&'static [u8]] = al!["[", "]", "{", "}", ",", ":", "1", "-1.5e1", "\"a\"", "\"\\u0061\"", "null", "true", " "];
    let g = |sh: Sh, alpha, q, t| Gram { sh: leak(sh), alpha, q, t };
    vec![
        g(Sh::Unit, lit, 6, 7), g(Sh::Bool, lit, 6, 7), g(Sh::Opt(&Sh::Bool), lit, 6, 7), g(Sh::Any, lit, 6, 7), g(Sh::Ign, lit, 6, 7), g(Sh::Seq(&Sh::Ign), al!["n", "u", "l", "null", "tru", "e", "[", "]", ",", " "], 6, 7),
        g(Sh::F64, num, 5, 6), g(Sh::F32, num, 4, 6), g(Sh::Any, num, 5, 6), g(Sh::Opt(&Sh::F64), num, 4, 5), g(INTS[1].cp(), num, 5, 6), g(INTS[6].cp(), num, 5, 6),
        g(Sh::Seq(U8S), basic, 7, 9), g(Sh::Seq(&Sh::Seq(U8S)), basic, 7, 9), g(Sh::Opt(&Sh::Seq(&Sh::Opt(U8S))), basic, 6, 8),
        g(Sh::Tup(&[U8S, &Sh::Bool]), basic, 7, 9), g(Sh::Tup(&[]), basic, 5, 6), g(Sh::TupS(&[U8S, U8S, U8S]), basic, 8, 10), g(Sh::Tup(&[&Sh::Tup(&[U8S]), &Sh::Opt(U8S)]), basic, 7, 9),
        g(Sh::New(&Sh::Opt(U8S)), basic, 5, 6), g(Sh::UnitStruct, basic, 4, 5), g(Sh::Char, al!["\"", "a", "\\", "n", "u0061", "é", " ", "[", "]"], 6, 7),
        g(Sh::Map(&Sh::BStr, U8S), obj, 8, 10), g(Sh::Map(U8S, U8S), al!["{", "}", ",", ":", "\"1\"", "\"-1\"", "\"300\"", "\"x\"", "\"1", "\" 1\"", "\"1 \"", "\"01\"", "1", " "], 7, 8),
        g(Sh::Map(&Sh::Bool, &Sh::Unit), al!["{", "}", ",", ":", "\"true\"", "\"false\"", "\"tru\"", "\"truex\"", "true", "null", " "], 7, 9),
        g(Sh::Map(&Sh::New(&Sh::BStr), &Sh::Map(&Sh::BStr, U8S)), obj, 7, 9), g(Sh::Map(&Sh::Enum(E1), U8S), en, 7, 8),
        g(Sh::Struct(SD1), obj, 8, 10), g(Sh::Struct(SD0), obj, 6, 8), g(Sh::Seq(&Sh::Struct(SD1)), obj, 8, 10),
        g(Sh::Struct(SD2), al!["{", "}", "[", "]", ",", ":", "\"a\"", "\"b\"", "\"c\"", "\"\\u0063\"", "1", "true"], 9, 12),
        g(Sh::Enum(E1), en, 8, 10), g(Sh::Seq(&Sh::Enum(E1)), en, 7, 9), g(Sh::Opt(&Sh::Enum(E1)), en, 6, 8),
        g(Sh::Bytes, basic, 6, 8), g(Sh::ByteBuf, basic, 5, 7), g(Sh::Tup(&[&Sh::Bytes, U8S]), basic, 7, 9),
        g(Sh::Any, anyal, 6, 7), g(Sh::Seq(&Sh::Any), anyal, 6, 8), g(Sh::Map(&Sh::Any, &Sh::Any), anyal, 6, 8), g(Sh::Ign, anyal, 6, 7), g(Sh::Tup(&[&Sh::Ign, U8S]), anyal, 7, 8), g(Sh::Map(&Sh::Ign, &Sh::Ign), anyal, 6, 8),
    ]
}
impl Sh { fn cp(&self) -> Sh { match self { Sh::Int(t) => Sh::Int(*t), _ => unreachable!() } } }
pub const MUT: &[&[u8]] = &[b"", b"{", b"}", b"[", b"]", b",", b":", b"\"", b"\\", b"0", b"1", b"-", b".", b"e", b"n", b"null", b"t", b" ", b"\n", b"\x00", b"\xff", b"\"a\"", b"A", b"="];
fn doc_shapes(t: bool) -> Arc<Vec<S>> {
    let base: Vec<S> = vec![&Sh::Bool, &INTS[1], &Sh::F64, &Sh::Char, &Sh::BStr, &Sh::Bytes, &Sh::Unit];
    Arc::new(catalog(if t { 3 } else { 2 }, &base, if t { &[0, 2, 3, 5, 7, 8] } else { WRAPS }))
}
fn j06(t: bool) -> Vec<Space> {
    let gr = Arc::new(grammar());
    let ds = doc_shapes(false);
    let (d2, d3, d4) = (ds.clone(), ds.clone(), doc_shapes(t));
    let mut v = vec![
        space("grammar", format!("{} types, every viable token sequence up to 4..12 tokens of a type-specific alphabet, plus every dead prefix completed", gr.len()), move |c| {
            let g = &gr[c.choose(gr.len())];
            jtokens(c, g.sh, Dec::Nope, g.alpha, b"", if c.thorough { g.t } else { g.q })
        }),
        space("whitespace", "documents of the catalog with each of the 4 whitespace characters (and none, and a mix) before every token", move |c| {
            let i = c.choose(d4.len());
            let v = gen(c, d4[i], (i < 80) as usize, 2);
            let e = if c.flag() { Enc::Arr } else { Enc::B64 };
            let ws: &[u8] = *c.pick(&[b" " as &[u8], b"\t", b"\n", b"\r", b" \r\n\t"]);
            let out = jser_ok(e, d4[i], &v)?;
            let toks = lex(&out);
            let mut doc = vec![];
            for k in &toks { doc.extend(ws); doc.extend(k) }
            doc.extend(ws);
            c.state(&(i, &doc)); c.sample(|| show(&doc));
            let d = if e == Enc::Arr { Dec::Nope } else { Dec::B64 };
            let s = jjudge(d4[i], &doc, d)?;
            ensure!(s == Seen::Accept, "harness: valid document judged {s:?}: {}", show(&doc));
            let g = jdec(d4[i], &doc, d)?.res.unwrap_or(V::Ign);
            let want = canon(d4[i], &v, true);
            ensure!(veq(&g, &want, false), "whitespace changes the value: `{}` gives {g:?}, want {want:?}", show(&doc));
            // one position at a time
            for p in 0..=toks.len() { let mut doc: Vec<u8> = toks[..p].concat(); doc.extend(ws); doc.extend(toks[p..].concat()); jjudge(d4[i], &doc, d)?; }
            Ok(())
        }),
        space("mutations", "catalog documents with every byte deleted, duplicated or replaced by (or preceded by) each of 24 strings", move |c| {
            let i = c.choose(d2.len());
            let v = gen(c, d2[i], 0, 2);
            let out = jser_ok(Enc::Arr, d2[i], &v)?;
            let m = c.choose(MUT.len() * 2);
            let (ins, rep) = (MUT[m / 2], m % 2);
            c.state(&(i, &v, m));
            for p in 0..=out.len() - rep {
                let doc = [&out[..p], ins, &out[p + rep..]].concat();
                
                let s = jjudge(d2[i], &doc, DECS[p % 3])?;
                c.outcome(match s { Seen::Accept => "accepted", Seen::Reject => "rejected", Seen::Eof => "incomplete", Seen::Free => "unspecified" });
            }
            Ok(())
        }),
        space("byte-edits", "catalog documents with every one of the 256 bytes inserted before, or put in place of, every byte (at the end too)", {
            let mut sh = (*doc_shapes(false)).clone();
            sh.truncate(if t { 2000 } else { 300 });
            sh.extend(grammar().iter().filter(|g| !matches!(g.sh, Sh::Any | Sh::Ign | Sh::Map(Sh::Any | Sh::Ign, _)) && !has(g.sh, &|s| matches!(s, Sh::Ign | Sh::Any))).map(|g| g.sh));
            move |c| {
                let i = c.choose(sh.len());
                let v = if let Sh::Map(Sh::Enum(_), _) = sh[i] { V::Map(vec![(V::Var(0, Box::new(V::Unit)), V::Int(3))]) } else { gen(c, sh[i], 0, 1) };
                let out = jser_ok(Enc::Arr, sh[i], &v)?;
                let p = c.choose(out.len() + 1);
                c.state(&(i, &v, p));
                let mut n = 0;
                for rep in 0..=(p < out.len()) as usize {
                    for x in 0..=255u8 { jjudge(sh[i], &[&out[..p], &[x], &out[p + rep..]].concat(), DECS[p % 3])?; n += 1 }
                }
                c.bulk(n);
                Ok(())
            }
        }),
        space("token-mutations", "catalog documents with every token deleted, duplicated, swapped with the next or replaced by each of 16 tokens", move |c| {
            let i = c.choose(d3.len());
            let v = gen(c, d3[i], 0, 2);
            let toks = lex(&jser_ok(Enc::Arr, d3[i], &v)?);
            let p = c.choose(toks.len());
            c.state(&(i, &v, p));
            let subs: [&[u8]; 16] = [b"{", b"}", b"[", b"]", b",", b":", b"\"a\"", b"\"x\"", b"\"cc\"", b"\"Un\"", b"1", b"-1.5", b"null", b"true", b"{}", b"[]"];
            let mut docs: Vec<Vec<u8>> = vec![[&toks[..p], &toks[p + 1..]].concat().concat(), [&toks[..p + 1], &toks[p..]].concat().concat()];
            if p + 1 < toks.len() { let mut t2 = toks.clone(); t2.swap(p, p + 1); docs.push(t2.concat()) }
            for s in subs { let mut t2 = toks.clone(); t2[p] = s.to_vec(); docs.push(t2.concat()); t2[p] = [&toks[p][..], s].concat(); docs.push(t2.concat()) }
            for d in docs { c.outcome(match jjudge(d3[i], &d, Dec::Nope)? { Seen::Accept => "accepted", Seen::Reject => "rejected", Seen::Eof => "incomplete", Seen::Free => "unspecified" }); }
            Ok(())
        }),
        space("members", "structs and struct variants with every order and subset of members, unknown members of 8 kinds in every gap, from objects and arrays", |c| {
            let sh: S = *c.pick(&[&Sh::Struct(SD2) as S, &Sh::Enum(&ED { name: "E", names: &["V"], vars: &[Var::Struct(&["a", "b", "c"], &[&Sh::BStr, &Sh::Seq(U8S), &Sh::Opt(&Sh::Bool)])] }), &Sh::Struct(&SD { name: "O", fields: &["a", "b", "c"], shapes: &[&Sh::Opt(&Sh::BStr), &Sh::Opt(&Sh::Seq(U8S)), &Sh::Opt(&Sh::Bool)] })]);
            let mut ms: Vec<&str> = vec!["\"a\":\"x\\n\"", "\"b\":[1,2]", "\"c\":true"];
            let mut out: Vec<String> = vec![];
            while !ms.is_empty() { let k = c.choose(ms.len() + 1); if k == ms.len() { break } out.push(ms.remove(k).into()) }
            if c.flag() { let k = c.choose(3); out.push(["\"a\":\"y\"", "\"b\":[]", "\"c\":null"][k].into()) }
            let unk = ["1", "\"\\\"}]\"", "{\"a\":[{}]}", "[[],\"]\"]", "null", "-1.5e3", "{}", "\"\\\\\""];
            let u = c.choose(unk.len() + 1);
            if u < unk.len() { let p = c.choose(out.len() + 1); let nm = *c.pick(&["zz", "aa", "", "a\\\\"]); out.insert(p, format!("\"{nm}\":{}", unk[u])) }
            let mut doc = format!("{{{}}}", out.join(","));
            if let Sh::Enum(_) = sh { doc = format!("{{\"V\":{doc}}}") }
            c.state(&doc); c.sample(|| doc.clone());
            let s = jjudge(sh, doc.as_bytes(), Dec::Nope)?;
            c.outcome(if s == Seen::Accept { "accepted" } else { "rejected" });
            Ok(())
        }),
    ];
    #[cfg(feature = "realj")]
    v.extend(crate::real::json_struct_spaces(t));
    v
}

// ------------------------------------------------------------------ J07
static LITCTX: &[(&[u8], &[u8], &Sh)] = &[
    (b"\"", b"\"", &Sh::BStr), (b" \"", b"\" ", &Sh::Str), (b"[\"k\",\"", b"\",\"z\"]", &Sh::Seq(&Sh::BStr)), (b"\"", b"\"", &Sh::Char), (b"\"", b"\"", &Sh::Any),
    (b"{\"", b"\":\"v\"}", &Sh::Map(&Sh::BStr, &Sh::BStr)), (b"{\"k\\n\":\"", b"\",\"l\":\"\"}", &Sh::Map(&Sh::BStr, &Sh::BStr)), (b"\"", b"\"", &Sh::Bytes), (b"[\"", b"\",[7]]", &Sh::Tup(&[&Sh::Bytes, &Sh::Bytes])),
    (b"{\"", b"\":1}", &Sh::Map(&Sh::Char, U8S)),
];
fn lit_doc(k: usize, lit: &[u8]) -> (S, Vec<u8>) { let (a, z, sh) = &LITCTX[k]; (sh, [a, lit, z].concat()) }
fn j07(t: bool) -> Vec<Space> {
    let atoms: &'static [&'static [u8]] = leakv(vec![b"a" as &[u8], "é".as_bytes(), "😀".as_bytes(), b"\\\"", b"\\\\", b"\\/", b"\\b", b"\\f", b"\\n", b"\\r", b"\\t", b"\\u0041", b"\\u00e9", b"\\u20AC", b"\\u0000", b"\\ud83d", b"\\uDE00", b"\\uD83D\\uDE00",
        b"\\u00g0", b"\\u12", b"\\x", b"\\", b"\n", b"\x1f", b"\x7f", b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xf0\x9f", b"\""]);
    let n = if t { 4 } else { 3 };
    let w3: usize = 1 << 24;
    let mut v = vec![
        space("atoms", format!("every literal of up to {n} of {} atoms (text, every escape kind, surrogates, malformed escapes, raw control and invalid UTF-8) in {} contexts", atoms.len(), LITCTX.len()), move |c| {
            let k = c.choose(LITCTX.len());
            let m = c.num(0, n);
            let mut lit = vec![];
            for _ in 0..m { lit.extend_from_slice(atoms[c.choose(atoms.len())]) }
            let (sh, doc) = lit_doc(k, &lit);
            c.state(&(k, &doc)); c.sample(|| show(&doc));
            c.outcome(match jjudge(sh, &doc, Dec::Nope)? { Seen::Accept => "accepted", Seen::Reject => "rejected", Seen::Eof => "incomplete", Seen::Free => "unspecified" });
            Ok(())
        }),
        space("u-escapes", "every \\uXXXX in lower, upper and mixed case, alone and between text, in 4 contexts", |c| {
            let k = [0, 2, 3, 8][c.choose(4)];
            let r = chunked(c, 65536, 1024);
            for x in r.clone() {
                let lo = format!("\\u{x:04x}");
                let up = format!("\\u{x:04X}");
                let mix: String = lo.chars().enumerate().map(|(i, ch)| if i % 2 == 0 && i > 1 { ch.to_ascii_uppercase() } else { ch }).collect();
                for l in [lo.clone(), up, mix, format!("ab{lo}cd{lo}")] { let (sh, d) = lit_doc(k, l.as_bytes()); jjudge(sh, &d, Dec::Nope)?; }
            }
            c.bulk(4 * r.len() as u64);
            Ok(())
        }),
        space("surrogate-pairs", "every high surrogate with every low surrogate; selected high surrogates with every follower", move |c| {
            let hi = 0xd800 + c.choose(0x400);
            let mut n = 0;
            for lo in 0xdc00..0xe000 { let (sh, d) = lit_doc(if lo % 16 == 0 { 2 } else { 0 }, format!("\\u{hi:04x}\\u{lo:04X}").as_bytes()); let s = jjudge(sh, &d, Dec::Nope)?; ensure!(s == Seen::Accept, "harness"); n += 1 }
            if t || [0xd800, 0xdbff, 0xd83d].contains(&hi) { for lo in 0..0x10000 { let (sh, d) = lit_doc(0, format!("\\u{hi:04x}\\u{lo:04X}").as_bytes()); jjudge(sh, &d, Dec::Nope)?; n += 1 } }
            c.bulk(n);
            Ok(())
        }),
        space("hex-digits", "\\u followed by every 4-byte combination of 20 bytes", |c| {
            let al = b"0189aAfFgG`@/:\"\\ dD\x00";
            let (x, y) = (*c.pick(al), *c.pick(al));
            for &z in al { for &w in al { let (sh, d) = lit_doc(0, &[b'\\', b'u', x, y, z, w]); jjudge(sh, &d, Dec::Nope)?; } }
            c.bulk(400);
            Ok(())
        }),
        space("hex-bytes", "every pair of bytes at every pair of the four digit positions of an escape, alone and as high and low surrogate, in 2 contexts", |c| {
            let k = [0, 7][c.choose(2)];
            let form: &[u8] = *c.pick(&[b"\\u00e9" as &[u8], b"\\uD83D\\ude00", b"\\u0041\\u20AC"]);
            let mut pos: Vec<usize> = form.iter().enumerate().filter(|(_, x)| **x == b'\\').flat_map(|(i, _)| i + 2..i + 6).collect();
            if form.len() > 6 { pos.truncate(8) }
            let i = c.choose(pos.len());
            let x = c.choose(256) as u8;
            let mut lit = form.to_vec();
            lit[pos[i]] = x;
            let mut n = 0;
            for j in 0..pos.len() {
                if j == i { continue }
                let old = lit[pos[j]];
                for y in 0..=255u8 { lit[pos[j]] = y; let (sh, d) = lit_doc(k, &lit); jjudge(sh, &d, Dec::Nope)?; n += 1 }
                lit[pos[j]] = old;
            }
            c.bulk(n);
            Ok(())
        }),
        space("escape-byte", "a backslash followed by every byte, then by nothing, text, quote or backslash, in every context", |c| {
            let k = c.choose(LITCTX.len());
            let x = c.choose(256) as u8;
            for tail in [b"" as &[u8], b"a", b"\"", b"\\", b"000000"] { let (sh, d) = lit_doc(k, &[b"q\\" as &[u8], &[x], tail].concat()); jjudge(sh, &d, Dec::Nope)?; }
            c.state(&(k, x));
            Ok(())
        }),
        space("raw-bytes", "every raw sequence of 1 and 2 bytes inside a string, 3 and 4 bytes over UTF-8 boundary classes", move |c| {
            let x = c.choose(256) as u8;
            let cls = [0x00, 0x1f, 0x20, 0x22, 0x41, 0x5c, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff];
            let mut n = 0;
            for k in [0usize, 2, 7] {
                let mut go = |l: &[u8]| -> R { n += 1; let (sh, d) = lit_doc(k, l); jjudge(sh, &d, Dec::Nope).map(|_| ()) };
                go(&[x])?;
                for y in 0..=255u8 { go(&[x, y])?; go(&[b'\\', b't', x, y])? }
                for y in cls { for z in cls { go(&[x, y, z])?; if k == 0 { for w in cls { go(&[x, y, z, w])? } } } }
            }
            c.bulk(n);
            Ok(())
        }),
        space("positions", "literals of every length up to 260 with an escape at every position, and pairs of escapes of different growth, followed by another string", |c| {
            let len = c.num(0, 260);
            let e1: &[u8] = *c.pick(&[b"\\n" as &[u8], b"\\u0041", b"\\uD83D\\uDE00", b"\\\\", b"\\u00e9"]);
            let e2: &[u8] = *c.pick(&[b"" as &[u8], b"\\\"", b"\\ud83d\\ude00", b"\\u20ac"]);
            let mut n = 0;
            for p in 0..=len {
                let q = p + (len - p) / 2;
                let lit = [&b"x".repeat(p)[..], e1, &b"y".repeat(q - p), e2, &b"z".repeat(len - q)].concat();
                for k in [0, 2, 6] { let (sh, d) = lit_doc(k, &lit); let s = jjudge(sh, &d, Dec::Nope)?; ensure!(s == Seen::Accept, "harness"); n += 1 }
            }
            c.bulk(n);
            Ok(())
        }),
        space("names", "field, variant and map keys spelt with escapes", |c| {
            let al: [&[u8]; 8] = [b"a", b"\\u0061", b"b", b"\\\"", b"q", b"\\u0022", b"\\n", b"\\\\"];
            let n = c.num(0, 4);
            let mut s = vec![];
            for _ in 0..n { s.extend_from_slice(al[c.choose(al.len())]) }
            const NS: &SD = &SD { name: "S", fields: &["a", "b\"q", "aa"], shapes: &[&Sh::Opt(U8S), &Sh::Opt(U8S), &Sh::Opt(U8S)] };
            const NE: &ED = &ED { name: "E", names: &["a", "b\"q", "\n"], vars: &[Var::Unit, Var::New(U8S), Var::Unit] };
            c.state(&s);
            for (sh, a, z) in [(&Sh::Struct(NS) as S, &b"{\""[..], &b"\":1}"[..]), (&Sh::Enum(NE), b"\"", b"\""), (&Sh::Enum(NE), b"{\"", b"\":1}"), (&Sh::Map(&Sh::Enum(NE), U8S), b"{\"", b"\":1}")] { jjudge(sh, &[a, &s, z].concat(), Dec::Nope)?; }
            Ok(())
        }),
    ];
    if t { v.push(space("raw-3", "every raw 3-byte sequence inside a string", move |c| { let r = chunked(c, w3, 1 << 14); for x in r.clone() { let (sh, d) = lit_doc(0, &[(x >> 16) as u8, (x >> 8) as u8, x as u8]); jjudge(sh, &d, Dec::Nope)?; } c.bulk(r.len() as u64); Ok(()) })) }
    v
}

// ------------------------------------------------------------------ J08
pub fn int_ctx(k: usize, sh: S, lit: &str) -> (S, Vec<u8>, Dec) {
    let m = |tag, f: fn(S) -> S| memo(sh, tag, f);
    match k {
        0 => (sh, lit.into(), Dec::Nope),
        1 => (m(10, |s| leak(Sh::Seq(s))), format!("[1,{lit},2]").into(), Dec::Nope),
        2 => (m(11, |s| leak(Sh::Map(s, U8S))), format!("{{\"{lit}\":1}}").into(), Dec::Hex),
        3 => (&Sh::Bytes, format!("[7,{lit}]").into(), DECS[lit.len() % 3]),
        _ => (m(12, |s| leak(Sh::Map(&Sh::BStr, leak(Sh::New(s))))), format!("{{\"a\": {lit} ,\"b\":1}}").into(), Dec::B64),
    }
}
fn j08(t: bool) -> Vec<Space> {
    let al: &'static [u8] = b"-+019.eE 5";
    let n = if t { 6 } else { 5 };
    let ed = Arc::new(edges());
    let ed2 = ed.clone();
    let big: usize = if t { 1 << 17 } else { 70000 };
    let exhaustive = move |c: &mut Ctx, lo: i64, total: usize| -> R {
        let r = chunked(c, total, 4096);
        let k = c.choose(4);
        for x in r.clone() {
            let s = (lo + x as i64).to_string();
            for sh in [&INTS[0], &INTS[1], &INTS[4], &INTS[5]] { let (h, d, dec) = int_ctx(k, sh, &s); jjudge(h, &d, dec)?; }
        }
        c.bulk(4 * r.len() as u64);
        Ok(())
    };
    vec![
        space("literals", format!("every string of up to {n} characters of `-+019.eE 5` as every integer type, in 5 contexts (value, element, key, byte array element, member)"), move |c| {
            let k = c.choose(5);
            let sh = &INTS[c.choose(8)];
            let m = c.num(1, n);
            let s: String = (0..m).map(|_| al[c.choose(al.len())] as char).collect();
            let (h, d, dec) = int_ctx(k, sh, &s);
            c.state(&(k, it(sh).bits(), it(sh).signed(), &s)); c.sample(|| show(&d));
            c.outcome(match jjudge(h, &d, dec)? { Seen::Accept => "accepted", Seen::Reject => "rejected", Seen::Eof => "incomplete", Seen::Free => "unspecified" });
            Ok(())
        }),
        space("edges", "around every power of two and ten beyond both range limits, plain, with extra digits, suffixes and leading zeros, every type and context", move |c| {
            let k = c.choose(5);
            let sh = &INTS[c.choose(8)];
            let e = *c.pick(&ed2);
            let s = match c.choose(7) { 0 => format!("{e}"), 1 => format!("{e}0"), 2 => format!("{e}.0"), 3 => format!("{e}e0"), 4 => format!("0{e}"), 5 => format!("{e}00000000000000000000000000"), _ => format!("+{e}") };
            let (h, d, dec) = int_ctx(k, sh, &s);
            c.state(&(k, it(sh).bits(), it(sh).signed(), &s));
            c.outcome(match jjudge(h, &d, dec)? { Seen::Accept => "accepted", Seen::Reject => "rejected", Seen::Eof => "incomplete", Seen::Free => "unspecified" });
            Ok(())
        }),
        space("small-types", format!("every integer from -{} to {} as 8- and 16-bit types in 4 contexts", 33000, big), move |c| exhaustive(c, -33000, 33000 + big)),
        space("terminators", "an in-range literal followed by every byte", |c| {
            let sh = &INTS[c.choose(8)];
            let x = c.choose(256) as u8;
            c.state(&(it(sh).bits(), it(sh).signed(), x));
            for l in [b"7" as &[u8], b"0", b"-0", b"-7", b"127"] { for pre in [b"" as &[u8], b"["] {
                let d = [pre, l, &[x]].concat();
                let h = if pre.is_empty() { sh as S } else { memo(sh, 10, |s| leak(Sh::Seq(s))) };
                jjudge(h, &d, Dec::Nope)?;
                let mut d2 = d.clone(); if !pre.is_empty() { d2.push(b']') } else { d2.push(b'1') }
                jjudge(h, &d2, Dec::Nope)?;
            } }
            Ok(())
        }),
        space("digit-strings", "runs of every digit of every length 1..=45 as every type", |c| {
            let sh = &INTS[c.choose(8)];
            let dg = c.choose(10);
            let len = c.num(1, 45);
            c.state(&(it(sh).bits(), it(sh).signed(), dg, len));
            let s: String = std::iter::repeat((b'0' + dg as u8) as char).take(len).collect();
            for s in [s.clone(), format!("-{s}"), format!("1{s}"), format!("-1{s}")] { for k in 0..5 { let (h, d, dec) = int_ctx(k, sh, &s); jjudge(h, &d, dec)?; } }
            Ok(())
        }),
        space("long-digit-strings", "64-bit limits with every single digit changed, and one digit inserted anywhere", move |c| {
            let base = *c.pick(&["18446744073709551615", "9223372036854775807", "-9223372036854775808", "4294967295", "-2147483648", "2147483647"]);
            let p = c.choose(base.len());
            c.state(&(base, p));
            for sh in &INTS { for dg in 0..10 {
                let ch = (b'0' + dg) as char;
                let mut a: Vec<char> = base.chars().collect();
                if a[p] != '-' { a[p] = ch }
                let mut i: Vec<char> = base.chars().collect();
                i.insert(p.max(base.starts_with('-') as usize), ch);
                for s in [a.into_iter().collect::<String>(), i.into_iter().collect()] { for k in 0..5 { let (h, d, dec) = int_ctx(k, sh, &s); jjudge(h, &d, dec)?; } }
            } }
            Ok(())
        }),
    ]
}

// ------------------------------------------------------------------ J09
fn j09(t: bool) -> Vec<Space> {
    let shapes = cat(t);
    let al: &'static [u8] = b"-+019.eE ";
    let n = if t { 7 } else { 6 };
    let ed = Arc::new(edges());
    let g64 = Arc::new(f64_grid());
    let gr: Arc<Vec<Gram>> = Arc::new(grammar().into_iter().filter(|g| matches!(g.sh, Sh::Any | Sh::Seq(Sh::Any) | Sh::Map(Sh::Any, Sh::Any))).collect());
    let mut v = vec![
        space("grammar", "every viable token sequence of up to 6..8 tokens without a type hint", move |c| { let g = &gr[c.choose(gr.len())]; jtokens(c, g.sh, DECS[0], g.alpha, b"", if c.thorough { g.t + 1 } else { g.q }) }),
        space("serializer-output", "everything the catalog serializes to, in the 3 self-contained byte encodings, read back without a type hint under every decoder", move |c| {
            let i = c.choose(shapes.len());
            let v = gen(c, shapes[i], (i < 220) as usize, 2);
            let e = [Enc::Arr, Enc::Hex, Enc::B64][c.choose(3)];
            let out = jser_ok(e, shapes[i], &v)?;
            c.state(&out); c.sample(|| show(&out));
            for d in DECS { let s = jjudge(&Sh::Any, &out, d)?; ensure!(matches!(s, Seen::Accept | Seen::Free), "harness: own output judged {s:?}: {}", show(&out)); }
            jjudge(&Sh::Ign, &out, Dec::Nope)?;
            Ok(())
        }),
        space("numbers", format!("every string of up to {n} characters of `-+019.eE ` and every edge integer with suffixes, alone and in an array"), move |c| {
            let s = if c.flag() { let m = c.num(1, n); (0..m).map(|_| al[c.choose(al.len())] as char).collect::<String>() } else {
                let e = *c.pick(&ed);
                match c.choose(7) { 0 => format!("{e}"), 1 => format!("{e}0"), 2 => format!("{e}.5"), 3 => format!("{e}e2"), 4 => format!("{e}E-2"), 5 => format!("{e}00000000000000000000"), _ => format!("{e}.0") }
            };
            c.state(&s); c.sample(|| s.clone());
            jjudge(&Sh::Any, s.as_bytes(), Dec::Nope)?;
            jjudge(&Sh::Any, format!("[{s},\"x\",{{\"a\":{s}}}]").as_bytes(), Dec::Nope)?;
            Ok(())
        }),
        space("floats", "the f64 grid printed and read back without a type hint", move |c| {
            let r = chunked(c, g64.len(), 1024);
            for i in r.clone() {
                let x = f64::from_bits(g64[i]);
                if !x.is_finite() { continue }
                for s in [format!("{x:e}"), format!("{x:?}")] { let s = if s.contains(['.', 'e']) { s } else { format!("{s}.0") }; let (s2, w) = (s.clone(), jjudge(&Sh::Any, s.as_bytes(), Dec::Nope)?); ensure!(w == Seen::Accept || w == Seen::Free, "harness {s2}"); }
            }
            c.bulk(2 * r.len() as u64);
            Ok(())
        }),
    ];
    #[cfg(feature = "realj")]
    v.extend(crate::real::json_any_spaces(t));
    v
}

// ------------------------------------------------------------------ J10
pub const SKIPS: &SD = &SD { name: "K", fields: &["a", "b"], shapes: &[U8S, &Sh::Opt(&Sh::BStr)] };
pub fn skip_docs(inner: &[u8]) -> Vec<(S, Vec<u8>, bool)> {
    let f = |a: &str, z: &str| [a.as_bytes(), inner, z.as_bytes()].concat();
    vec![
        (&Sh::Struct(SKIPS), f("{\"zz\":", ",\"a\":3,\"b\":\"x\"}"), true), (&Sh::Struct(SKIPS), f("{\"a\":3,\"zz\":", ",\"b\":\"x\"}"), true), (&Sh::Struct(SKIPS), f("{\"a\":3,\"b\":\"x\",\"zz\":", "}"), true),
        (&Sh::Struct(SKIPS), f("{\"a\":3,\"y\":[1],\"zz\": ", " , \"b\":\"x\"}"), true), (&Sh::Tup(&[&Sh::Ign, U8S]), f("[", ",3]"), false), (&Sh::Ign, f("", ""), false), (&Sh::Seq(&Sh::Ign), f("[1,", "]"), false), (&Sh::Opt(&Sh::Ign), f("", ""), false),
        (&Sh::Enum(EK), f("{\"S\":{\"q\":", ",\"x\":3}}"), false), (&Sh::Map(&Sh::BStr, &Sh::Ign), f("{\"k\":", ",\"l\":1}"), false),
    ]
}
const EK: &ED = &ED { name: "E", names: &["S"], vars: &[Var::Struct(&["x"], &[U8S])] };
pub fn j10_check(c: &mut Ctx, inner: &[u8]) -> R {
    let strict = matches!(jref::decode(&Sh::Ign, inner, Dec::Nope), Ok((_, false)));
    for (k, (sh, d, plain)) in skip_docs(inner).into_iter().enumerate() {
        
        let s = jjudge(sh, &d, DECS[k % 3])?;
        if strict && plain {
            let g = jdec(sh, &d, DECS[k % 3])?.res;
            ensure!(matches!(&g, Ok(V::Struct(f)) if f[0] == Some(V::Int(3)) && f[1] == Some(V::Some(Box::new(V::s("x"))))), "with ignored `{}`: {g:?}", show(&d));
        }
        c.outcome(match s { Seen::Accept => "accepted", Seen::Reject => "rejected", Seen::Eof => "incomplete", Seen::Free => "unspecified" });
    }
    Ok(())
}
fn j10(t: bool) -> Vec<Space> {
    let shapes = Arc::new(catalog(2, &leaves(), if t { WRAPS } else { &[0, 2, 3, 5, 7, 8] }));
    let alpha: &'static [&'static [u8]] = al!["[", "]", "{", "}", ",", ":", "1", "-1.5e1", "\"a\"", "\"\\\"\"", "null", "true", " ", "x"];
    let sa: &'static [&'static [u8]] = leakv(vec![b"\\" as &[u8], b"\"", b"a", b"[", b"]", b"{", b"}", b",", b":", b"u0061", "é".as_bytes(), b"\x01", b"\xff"]);
    let (n1, n2, n3) = if t { (7, 6, 2) } else { (6, 5, 2) };
    vec![
        space("grammar", format!("every viable token sequence of up to {n1} tokens as ignored value"), move |c| tokens(c, alpha, b"", n1, &closers, &|d| jjudge(&Sh::Ign, d, Dec::Nope))),
        space("embedded", "every catalog document and its whitespace-padded form as an unknown member (first, middle, last), ignored element, member of a struct variant", move |c| {
            let i = c.choose(shapes.len());
            let v = gen(c, shapes[i], (i < 220) as usize, 2);
            let e = [Enc::Arr, Enc::Hex][c.choose(2)];
            let out = jser_ok(e, shapes[i], &v)?;
            c.state(&out); c.sample(|| show(&out));
            let pad: Vec<u8> = lex(&out).into_iter().flat_map(|t| [b" \n".to_vec(), t].concat()).collect();
            j10_check(c, &out)?;
            j10_check(c, &pad)
        }),
        space("strings", format!("every ignored string of up to {n2} atoms of backslash, quote, brackets, comma, text, control, invalid UTF-8"), move |c| {
            let m = c.num(0, n2);
            let mut s = vec![b'"'];
            for _ in 0..m { s.extend_from_slice(sa[c.choose(sa.len())]) }
            s.push(b'"');
            c.state(&s); c.sample(|| show(&s));
            for (k, (sh, d, _)) in skip_docs(&s).into_iter().enumerate() { if k == 0 || k == 2 || k == 5 { jjudge(sh, &d, Dec::Nope)?; } }
            Ok(())
        }),
        space("backslash-runs", "ignored strings ending in or containing runs of 0..=40 backslashes next to quotes", |c| {
            let n = c.num(0, 40);
            let m = c.num(0, 3);
            let k = c.choose(4);
            let s = format!("\"{}{}{}{}\"", "a".repeat(k), "\\".repeat(n), ["", "\"", "\\\"", "x"][k], "\\".repeat(m));
            c.state(&s);
            j10_check(c, s.as_bytes())
        }),
        space("numbers", "every number-like string of up to 4 characters as ignored value", |c| {
            let m = c.num(1, 4);
            let s: String = (0..m).map(|_| *c.pick(b"-+01.eE") as char).collect();
            c.state(&s);
            j10_check(c, s.as_bytes())
        }),
        space("nested", format!("containers nested to depth 1..=120 of {n3} kinds with content after them"), |c| {
            let n = c.num(1, 120);
            let p = c.choose(4);
            let mut a = String::new(); let mut z = String::new();
            for i in 0..n { if (p >> (i & 1)) & 1 == 0 { a.push('['); z.insert(0, ']') } else { a.push_str("{\"k\":"); z.insert(0, '}') } }
            let s = format!("{a}1{z}");
            c.state(&(n, p));
            j10_check(c, s.as_bytes())?;
            // one bracket missing, one too many, one of the wrong kind
            let zs: Vec<char> = z.chars().collect();
            for k in [0, n / 2, n - 1] {
                let mut w = zs.clone(); w.remove(k); j10_check(c, format!("{a}1{}", w.iter().collect::<String>()).as_bytes())?;
                let mut w = zs.clone(); w[k] = if w[k] == ']' { '}' } else { ']' }; j10_check(c, format!("{a}1{}", w.iter().collect::<String>()).as_bytes())?;
            }
            Ok(())
        }),
    ]
}

// ------------------------------------------------------------------ J11
pub fn j11_enc(data: &[u8]) -> R {
    let v = V::Bytes(data.to_vec());
    for e in ENCS { let o = jser_ok(e, &Sh::Bytes, &v)?; match_out(&Sh::Bytes, &v, e, &o).map_err(b)?; }
    // the stand-alone codec and helper
    let mut s = Sink::default();
    let pad = imp(|| js::base64::encode(&mut s, data))?.map_err(|e| b(format!("{e:?}")))?;
    ensure!(s.buf == b64(data), "base64::encode of {} bytes gives `{}`", data.len(), show(&s.buf));
    ensure!(pad as usize == (3 - data.len() % 3) % 3, "base64::encode of {} bytes reports {pad} padding characters", data.len());
    let mut z = js::ser::SerializerByteArray::new(Sink::default());
    imp(|| z.serialize_bytes_as_hex_str(data))?.map_err(|e| b(format!("{e:?}")))?;
    let o = z.into_inner().buf;
    ensure!(o == hexs(data), "serialize_bytes_as_hex_str gives `{}`", show(&o));
    Ok(())
}
pub fn j11_b64(text: &[u8]) -> R {
    let mut g = Guard::new(text);
    let (d, e) = imp(|| js::base64::decode(g.doc()))?;
    g.check()?;
    let q: Vec<u32> = text.iter().map_while(|c| AL.iter().position(|a| a == c).map(|x| x as u32)).collect();
    let (v, _) = b64_value(&q);
    ensure!(e == q.len() && d == v.len(), "base64::decode of `{}` reports ({d}, {e}), want ({}, {})", show(text), v.len(), q.len());
    ensure!(g.doc()[..d] == v[..], "base64::decode of `{}` gives {:?}, want {v:?}", show(text), &g.buf[PAD..PAD + d]);
    ensure!(g.doc()[e..] == text[e..], "base64::decode of `{}` modified bytes after what it consumed", show(text));
    Ok(())
}
pub fn j11_dec(text: &[u8], dec: Dec) -> R {
    let q = [b"\"" as &[u8], text, b"\""].concat();
    jjudge(&Sh::Bytes, &q, dec)?;
    jjudge(&Sh::Tup(&[&Sh::Bytes, &Sh::BStr]), &[b"[" as &[u8], &q, b",\"Zz\"]"].concat(), dec)?;
    Ok(())
}
fn j11(t: bool) -> Vec<Space> {
    let lmax = if t { 3000 } else { 800 };
    let ha: &'static [u8] = b"0189aAfFgG@`/:=\"\\ \x00\xff";
    let ba: &'static [u8] = b"AZaz09+/=\"-_\\ \x00\xffBx";
    let (nh, nb) = if t { (5, 6) } else { (4, 5) };
    let bl: &'static [&'static [u8]] = al!["[", "]", ",", "0", "1", "25", "255", "256", "-", ".", " ", "00", "\"", "null"];
    let mut v = vec![
        space("encode-lengths", format!("byte strings of every length 0..={lmax}, 4 contents, every encoder, then every decoder"), move |c| {
            let n = c.num(0, lmax);
            let k = c.choose(4);
            let d: Vec<u8> = (0..n).map(|i| match k { 0 => 0, 1 => 255, 2 => i as u8, _ => (i * 167 + 13) as u8 }).collect();
            c.state(&(n, k));
            j11_enc(&d)?;
            j11_b64(&b64(&d))?;
            for (e, dec) in [(Enc::Hex, Dec::Hex), (Enc::B64, Dec::B64), (Enc::Arr, Dec::Nope), (Enc::Arr, Dec::Hex), (Enc::Arr, Dec::B64)] {
                let o = jser_ok(e, &Sh::Bytes, &V::Bytes(d.clone()))?;
                let g = jdec(&Sh::Bytes, &o, dec)?.res;
                ensure!(matches!(&g, Ok(V::Bytes(x)) if *x == d), "{} bytes via {e:?} come back as {g:?}", n);
                let pads = (3 - n % 3) % 3;
                if e == Enc::B64 { let mut p = o.clone(); p.pop(); for _ in 0..pads { p.push(b'=') } p.push(b'"'); let g = jdec(&Sh::Bytes, &p, dec)?.res; ensure!(matches!(&g, Ok(V::Bytes(x)) if *x == d), "{} padded bytes come back as {g:?}", n); }
                if e == Enc::Hex { let p = o.to_ascii_lowercase(); let g = jdec(&Sh::Bytes, &p, dec)?.res; ensure!(matches!(&g, Ok(V::Bytes(x)) if *x == d), "{} lower-case hex bytes come back as {g:?}", n); }
            }
            Ok(())
        }),
        space("two-bytes", "every 1- and 2-byte string, and every byte at every position of a 7-byte string, through every encoder and decoder", |c| {
            let x = c.choose(256) as u8;
            let mut ds: Vec<Vec<u8>> = vec![vec![x]];
            for y in 0..=255 { ds.push(vec![x, y]) }
            for p in 0..7 { let mut d = vec![0x5a, 1, 0xff, 0x80, 0x7f, 0, 0x33]; d[p] = x; ds.push(d) }
            for d in &ds {
                j11_enc(d)?;
                for (e, dec) in [(Enc::Hex, Dec::Hex), (Enc::B64, Dec::B64), (Enc::Arr, Dec::Nope)] { let o = jser_ok(e, &Sh::Bytes, &V::Bytes(d.clone()))?; let g = jdec(&Sh::Bytes, &o, dec)?.res; ensure!(matches!(&g, Ok(V::Bytes(x)) if x == d), "{d:?} via {e:?} comes back as {g:?}"); }
            }
            c.bulk(ds.len() as u64);
            Ok(())
        }),
        space("hex-text", format!("every string of up to {nh} characters of {} as hexadecimal text", show(ha)), move |c| {
            let m = c.num(0, nh);
            let s: Vec<u8> = (0..m).map(|_| ha[c.choose(ha.len())]).collect();
            c.state(&s); c.sample(|| show(&s));
            j11_dec(&s, Dec::Hex)
        }),
        space("hex-pairs", "every pair of bytes as hexadecimal digits", |c| { let x = c.choose(256) as u8; for y in 0..=255u8 { j11_dec(&[x, y], Dec::Hex)?; j11_dec(&[b'1', b'2', x, y], Dec::Hex)?; } c.bulk(512); Ok(()) }),
        space("base64-text", format!("every string of up to {nb} characters of {} as base-64 text", show(ba)), move |c| {
            let m = c.num(0, nb);
            let s: Vec<u8> = (0..m).map(|_| ba[c.choose(ba.len())]).collect();
            c.state(&s); c.sample(|| show(&s));
            j11_b64(&s)?;
            j11_dec(&s, Dec::B64)
        }),
        space("base64-bytes", "every byte at every position 0..=9 of a base-64 text of every length up to 10", |c| {
            let x = c.choose(256) as u8;
            let mut k = 0;
            for n in 1..=10 { for p in 0..n { let mut s = b"QUJDREVGR0hJ"[..n].to_vec(); s[p] = x; j11_b64(&s)?; j11_dec(&s, Dec::B64)?; k += 1 } }
            c.bulk(k);
            Ok(())
        }),
        space("padding", "base-64 texts of every length 0..=70 with 0..=5 padding characters", |c| {
            let n = c.num(0, 70); let p = c.num(0, 5);
            c.state(&(n, p));
            let mut s: Vec<u8> = b64(&(0..60).map(|i| (i * 77 + 5) as u8).collect::<Vec<u8>>())[..n].to_vec();
            s.extend(std::iter::repeat(b'=').take(p));
            j11_dec(&s, Dec::B64)
        }),
        space("arrays", "every viable token sequence of a number array of up to 8 tokens, every decoder", move |c| { let d = *c.pick(&DECS); jtokens(c, if c.thorough { &Sh::ByteBuf } else { &Sh::Bytes }, d, bl, b"", if c.thorough { 9 } else { 7 }) }),
        space("array-values", "every element value 0..=1100 at 3 positions with and without whitespace, lengths 0..=300", |c| {
            let n = c.num(0, 1100);
            let dec = *c.pick(&DECS);
            c.state(&(n, dec));
            for s in [format!("[{n}]"), format!("[ {n} , 255 , 0 ]"), format!("[1,2,{n}]"), format!("[9,\n{n},10]")] { jjudge(&Sh::Bytes, s.as_bytes(), dec)?; }
            if n <= 300 { let a: Vec<String> = (0..n).map(|i| (i * 7 % 256).to_string()).collect(); jjudge(&Sh::Tup(&[&Sh::Bytes, &Sh::BStr]), format!("[[{}],\"t\"]", a.join(",")).as_bytes(), dec)?; jjudge(&Sh::Bytes, format!("[{}]", a.join(" , ")).as_bytes(), dec)?; }
            Ok(())
        }),
        space("pass-strings", "byte strings decoded without transformation: every literal of up to 3 atoms", |c| {
            let at: [&[u8]; 12] = [b"a", b"\xff", b"\\n", b"\\u00e9", b"\\uD83D\\uDE00", b"\\x", b"\"", b"\\", b"\x1f", b"\xc3", b"=", b"0"];
            let m = c.num(0, 3);
            let mut s = vec![];
            for _ in 0..m { s.extend_from_slice(at[c.choose(12)]) }
            c.state(&s);
            j11_dec(&s, Dec::Nope)
        }),
    ];
    if t {
        v.push(space("three-bytes", "every 3-byte string through hexadecimal and base-64", |c| {
            let r = chunked(c, 1 << 24, 1 << 14);
            for i in r.clone() { let d = [(i >> 16) as u8, (i >> 8) as u8, i as u8]; let mut s = Sink::default(); let _ = js::base64::encode(&mut s, &d); ensure!(s.buf == b64(&d), "base64 of {d:?}"); let (x, y) = js::base64::decode(&mut s.buf); ensure!((x, y) == (3, 4) && s.buf[..3] == d, "base64 decode of {d:?}"); }
            c.bulk(r.len() as u64);
            Ok(())
        }));
    }
    v
}

// ------------------------------------------------------------------ J12
pub fn fuzz_shapes() -> Vec<S> {
    vec![&Sh::Any, &Sh::Ign, &Sh::BStr, &Sh::Bytes, &Sh::F64, &INTS[0], &INTS[7], &Sh::Char, &Sh::Opt(&Sh::Bool), &Sh::Seq(&Sh::BStr), &Sh::Map(&Sh::BStr, &Sh::Bytes), &Sh::Map(&Sh::Int(ITS[3]), &Sh::Any), &Sh::Struct(SD2), &Sh::Enum(E1), &Sh::Tup(&[&Sh::Bytes, &Sh::Bytes]), &Sh::Map(&Sh::Bool, &Sh::Ign)]
}
fn j12(t: bool) -> Vec<Space> {
    let shapes = Arc::new(fuzz_shapes());
    let (s1, s2, s3) = (shapes.clone(), shapes.clone(), shapes.clone());
    let al: &'static [u8] = b"{}[],:\"\\0-9.eun \x01\xff=";
    let n = if t { 5 } else { 4 };
    let mut v = vec![
        space("all-short", "every byte string of up to 2 bytes, as 16 types under 3 decoders", move |c| {
            let sh = s1[c.choose(s1.len())];
            let d = *c.pick(&DECS);
            let x = c.choose(256) as u8;
            if x == 0 { jjudge(sh, &[], d)?; }
            jjudge(sh, &[x], d)?;
            for y in 0..=255 { jjudge(sh, &[x, y], d)?; }
            c.bulk(257);
            Ok(())
        }),
        space("alphabet", format!("every string of up to {n} of {} structural bytes, as 16 types under 3 decoders", al.len()), move |c| {
            let sh = s2[c.choose(s2.len())];
            let d = *c.pick(&DECS);
            let m = c.num(3, n);
            let s: Vec<u8> = (0..m - 1).map(|_| al[c.choose(al.len())]).collect();
            for &x in al { jjudge(sh, &[&s[..], &[x]].concat(), d)?; }
            c.bulk(al.len() as u64);
            Ok(())
        }),
        space("string-alphabet", "every string body of up to 5 bytes of quote, backslash, u, hex digits, high bytes, under 3 decoders", |c| {
            let sh: S = *c.pick(&[&Sh::BStr as S, &Sh::Bytes, &Sh::Any, &Sh::Ign, &Sh::Char, &Sh::Seq(&Sh::Bytes)]);
            let d = *c.pick(&DECS);
            let m = c.num(1, 5);
            let sa = b"\"\\udD8a0=\xc3\xa9n";
            let s: Vec<u8> = (0..m).map(|_| sa[c.choose(sa.len())]).collect();
            c.state(&(&s, d, sh as *const Sh as usize));
            let pre: &[u8] = if let Sh::Seq(_) = sh { b"[\"" } else { b"\"" };
            jjudge(sh, &[pre, &s].concat(), d)?;
            Ok(())
        }),
        space("mutated", "16 documents with every byte replaced by every byte value, deleted, or the tail cut, under 3 decoders", move |c| {
            let docs: [&[u8]; 10] = [b"{\"a\":\"x\\u0041\\n\",\"b\":[1,2,255],\"c\":true}", b"[\"\\ud83d\\ude00\",\"ab\"]", b"{\"B\":5}", b"{\"k\":\"0aFF\",\"l\":[1,2]}", b"[\"QUJD\",\"QQ==\"]", b"{\"-12\":{\"x\":[null,1.5e-3]}}", b" [ 1 , [ ] , { } , -0.0 ] ", b"\"\\\\\\\"\\/\\b\\f\\r\\t\"", b"{\"D\":{\"x\":1,\"q\":[{\"r\":\"]\"}],\"y\":null}}", b"{\"true\":[false],\"false\":\"\xc3\xa9\"}"];
            let doc = docs[c.choose(docs.len())];
            let sh = s3[c.choose(s3.len())];
            let d = *c.pick(&DECS);
            let p = c.choose(doc.len());
            let mut n = 0;
            for x in 0..=255u8 { let mut m = doc.to_vec(); m[p] = x; jjudge(sh, &m, d)?; n += 1 }
            let mut m = doc.to_vec(); m.remove(p); jjudge(sh, &m, d)?;
            jjudge(sh, &doc[..p], d)?;
            jjudge(sh, &doc[p..], d)?;
            c.bulk(n + 3);
            Ok(())
        }),
    ];
    if t {
        v.push(space("all-3-bytes", "every byte string of 3 bytes as 6 types", |c| {
            let sh: S = *c.pick(&[&Sh::Any as S, &Sh::Ign, &Sh::BStr, &Sh::Bytes, &Sh::F64, &Sh::Map(&Sh::Int(ITS[3]), &Sh::Any)]);
            let r = chunked(c, 1 << 24, 1 << 14);
            for i in r.clone() { jjudge(sh, &[(i >> 16) as u8, (i >> 8) as u8, i as u8], DECS[i % 3])?; }
            c.bulk(r.len() as u64);
            Ok(())
        }));
    }
    v
}

// ------------------------------------------------------------------ J13
fn j13(t: bool) -> Vec<Space> {
    let lits: &'static [&'static [u8]] = &[b"\"\"", b"\"a\"", b"\"\\n\"", b"\"\\u0041b\"", b"\"\\ud83d\\ude00\"", b"\"xy\\\"z\"", b"\"\xc3\xa9\\\\\"", b"\"\\/\\/\\/\\/q\""];
    let byts: &'static [&'static [u8]] = &[b"\"\"", b"[]", b"[1]", b"[ 255 , 10,0 ]", b"\"QUJD\"", b"\"41424344\"", b"\"0aFf\"", b"[100,200,3,44,55]"];
    let n = if t { 5 } else { 4 };
    let shs: &'static [S] = leakv(vec![leak(Sh::Seq(&Sh::BStr)) as S, leak(Sh::Seq(&Sh::Bytes)), leak(Sh::Seq(&Sh::Any)), leak(Sh::Seq(leak(Sh::Opt(leak(Sh::New(&Sh::BStr)))))), leak(Sh::Seq(leak(Sh::Seq(&Sh::BStr))))]);
    let docs = Arc::new(catalog(2, &[&Sh::BStr, &Sh::Bytes], WRAPS));
    let check = |c: &mut Ctx, sh: S, doc: &[u8], d: Dec| -> R {
        
        let s = jjudge(sh, doc, d)?;
        c.outcome(match s { Seen::Accept => "accepted", Seen::Reject => "rejected", Seen::Eof => "incomplete", Seen::Free => "unspecified" });
        // the same input again, at another address
        let a = jdec(sh, doc, d)?; let _shift = vec![0u8; 1 + doc.len() % 7]; let e = jdec(sh, doc, d)?;
        let k = |o: &Out<js::de::Error>| -> Vec<(usize, Vec<u8>)> { o.lent.iter().map(|l| (l.at, l.bytes.clone())).collect() };
        ensure!(a.res.as_ref().map_err(kind) == e.res.as_ref().map_err(kind) || matches!((&a.res, &e.res), (Ok(x), Ok(y)) if veq(x, y, false)), "decoding `{}` twice differs", show(doc));
        ensure!(k(&a) == k(&e), "decoding `{}` twice lends different places", show(doc));
        Ok(())
    };
    vec![
        space("sequences", format!("sequences of up to {n} literals of 8 growth behaviours as text, bytes, untyped, optional newtypes and nested"), move |c| {
            let sh = shs[c.choose(shs.len())];
            let m = c.num(0, n);
            let l = if let Sh::Seq(Sh::Bytes) = sh { byts } else { lits };
            let items: Vec<&[u8]> = (0..m).map(|_| l[c.choose(l.len())]).collect();
            let ws: &[u8] = if m % 2 == 0 { b"" } else { b" " };
            let mut doc = vec![b'['];
            for (i, x) in items.iter().enumerate() { if i > 0 { doc.push(b',') } doc.extend(ws); if let Sh::Seq(Sh::Seq(_)) = sh { doc.push(b'['); doc.extend(*x); doc.push(b','); doc.extend(items[0]); doc.push(b']') } else { doc.extend(*x) } }
            doc.push(b']');
            c.state(&(sh as *const Sh as usize, &doc)); c.sample(|| show(&doc));
            for d in DECS { check(c, sh, &doc, d)? }
            Ok(())
        }),
        space("objects", "objects whose keys, values, ignored members and byte members all rewrite in place, up to 3 members", move |c| {
            const OB: &SD = &SD { name: "S", fields: &["a", "\n", "c"], shapes: &[&Sh::Opt(&Sh::BStr), &Sh::Opt(&Sh::Bytes), &Sh::Opt(&Sh::BStr)] };
            let sh: S = *c.pick(&[&Sh::Map(&Sh::BStr, &Sh::BStr) as S, &Sh::Map(&Sh::BStr, &Sh::Bytes), &Sh::Struct(OB), &Sh::Any]);
            let m = c.num(0, 3);
            let keys: [&[u8]; 5] = [b"\"a\"", b"\"\\n\"", b"\"\\u0063\"", b"\"zz\"", b"\"\\uD83D\\uDE00\""];
            let mut doc = vec![b'{'];
            for i in 0..m {
                if i > 0 { doc.push(b',') }
                let k = keys[c.choose(5)];
                doc.extend(k); doc.push(b':');
                let l = if matches!(sh, Sh::Map(_, Sh::Bytes)) || (matches!(sh, Sh::Struct(_)) && k == keys[1]) { byts } else { lits };
                doc.extend(l[c.choose(l.len())]);
            }
            doc.push(b'}');
            c.state(&(sh as *const Sh as usize, &doc)); c.sample(|| show(&doc));
            for d in DECS { check(c, sh, &doc, d)? }
            Ok(())
        }),
        space("catalog", "every borrowed-text and borrowed-bytes shape of the catalog, 3 encodings", move |c| {
            let i = c.choose(docs.len());
            let v = gen(c, docs[i], 1, 2);
            let e = [Enc::Arr, Enc::Hex, Enc::B64][c.choose(3)];
            let out = jser_ok(e, docs[i], &v)?;
            c.state(&(i, &out));
            let d = dec_for(e)[0];
            check(c, docs[i], &out, d)
        }),
        space("untouched-rest", "every literal as text, bytes, untyped, ignored, with 4 kinds of whitespace before it, followed by every byte, by 40 longer tails and by every other literal: the rest of the input compared with the original", move |c| {
            let all = lits.len() + byts.len() + ODD.len();
            let pick = |i: usize| if i < lits.len() { lits[i] } else if i < lits.len() + byts.len() { byts[i - lits.len()] } else { ODD[i - lits.len() - byts.len()] };
            let x = pick(c.choose(all));
            let sh: S = *c.pick(&[&Sh::BStr as S, &Sh::Bytes, &Sh::Any, &Sh::Ign, &Sh::Seq(&Sh::Bytes), &Sh::Opt(&Sh::Char), &Sh::Map(&Sh::BStr, &Sh::Bytes), &Sh::F64]);
            let ws: &[u8] = *c.pick(&[b"" as &[u8], b" ", b"\n", b"\t\r \n"]);
            let d = *c.pick(&DECS);
            let head = [ws, x].concat();
            let mut k = 0;
            let mut one = |c: &mut Ctx, tail: &[u8]| -> R { k += 1; crate::p_api::stream(c, &[&head[..], tail].concat(), &[sh], d) };
            for b in 0..=255u8 { one(c, &[b])? }
            for w in TAILS { for z in TAILS { one(c, &[*w as &[u8], z].concat())? } }
            for i in 0..all { one(c, pick(i))?; one(c, &[b" " as &[u8], pick(i), b" "].concat())?; one(c, &[b"," as &[u8], pick(i), b"]"].concat())? }
            c.bulk(k);
            Ok(())
        }),
    ]
}
const ODD: &[&[u8]] = &[b"1", b"-2.5e3", b"true", b"null", b"[\"AA\",[1],\"\"]", b"{\"\\n\":\"01\",\"b\":[7]}", b"[]", b"{}", b"[1 ]", b"[1,2]", b"[ 1,22 , 3]", b"\"QQ==\"", b"\"QUI=\"", b"\"\\\\\\\\\""];
const TAILS: &[&[u8]] = &[b" ", b"\n", b"  ", b"\t\r", b"0", b"\"", b"]", b"="];

// ------------------------------------------------------------------ J14
pub fn j14_check(c: &mut Ctx, sh: S, doc: &[u8], d: Dec) -> R {
    let top_number = matches!(base(sh), Sh::Int(_) | Sh::F32 | Sh::F64) || matches!(base(sh), Sh::Any | Sh::Ign) && doc.iter().find(|c| !c.is_ascii_whitespace()).map_or(false, |c| c.is_ascii_digit() || *c == b'-');
    let full = jref::decode(sh, doc, d);
    ensure!(matches!(full, Ok((_, false))), "harness: `{}` is not strictly valid for {sh:?}: {full:?}", show(doc));
    let end = doc.iter().rposition(|c| !b" \t\r\n".contains(c)).unwrap();
    for cut in 0..=end {
        
        let p = &doc[..cut];
        let r = jdec(sh, p, d)?.res;
        let w = jref::decode(sh, p, d);
        if top_number && !p.is_empty() {
            // a cut number: what remains, or failure
            if let (Ok((v, _)), Ok(g)) = (&w, &r) { ensure!(veq(v, g, false), "cut number `{}` reads {g:?}, want {v:?}", show(p)) }
            if let (Err(E::Rej | E::Eof), Ok(g)) = (&w, &r) { fail!("cut number `{}` accepted as {g:?}", show(p)) }
            c.outcome("number");
            continue;
        }
        let Err(e) = r else { fail!("`{}` cut to `{}` is accepted as {:?}", show(doc), show(p), r.unwrap()) };
        match w {
            Err(E::Eof) => { ensure!(kind(&e) == "UnexpectedEof", "`{}` cut to `{}` fails with {e:?}, want UnexpectedEof ({sh:?})", show(doc), show(p)); c.outcome("eof") }
            Ok(_) => fail!("harness: reference accepts the cut `{}` of `{}`", show(p), show(doc)),
            _ => c.outcome("cut-number"),
        }
    }
    Ok(())
}
fn base(sh: S) -> S { match sh { Sh::New(s) | Sh::Opt(s) => base(s), s => s } }
fn j14(t: bool) -> Vec<Space> {
    let shapes = cat(t);
    let deep = Arc::new(catalog(1, &leaves(), WRAPS));
    let d2 = deep.clone();
    vec![
        space("catalog", "every prefix of every catalog document, 3 byte encodings, compact and padded with whitespace", move |c| {
            let i = c.choose(shapes.len());
            let v = gen(c, shapes[i], 0, 2);
            let e = [Enc::Arr, Enc::Hex, Enc::B64][c.choose(3)];
            let mut out = jser_ok(e, shapes[i], &v)?;
            if c.flag() { out = lex(&out).into_iter().flat_map(|t| [b"\n ".to_vec(), t].concat()).collect(); out.extend(b" \t") }
            c.state(&(i, &out)); c.sample(|| show(&out));
            j14_check(c, shapes[i], &out, dec_for(e)[0])
        }),
        space("leaves", "every prefix of the extended leaf documents, typed, and read as ignored and untyped", move |c| {
            let i = c.choose(deep.len());
            let v = gen(c, deep[i], 2, 2);
            let out = jser_ok(Enc::Hex, deep[i], &v)?;
            c.state(&(i, &out));
            j14_check(c, deep[i], &out, Dec::Hex)?;
            j14_check(c, &Sh::Ign, &out, Dec::Nope)?;
            if matches!(jref::decode(&Sh::Any, &out, Dec::Nope), Ok((_, false))) { j14_check(c, &Sh::Any, &out, Dec::Nope)? }
            Ok(())
        }),
        space("spelled", "every prefix of documents with escapes, surrogate pairs, padded base-64, unknown members, whitespace in arrays", |c| {
            let ds: [(S, &[u8], Dec); 14] = [
                (&Sh::BStr, b"\"a\\n\\u0041\\ud83d\\ude00\\\\\\\"z\"", Dec::Nope), (&Sh::Bytes, b"\"QUI=\"", Dec::B64), (&Sh::Bytes, b"\"QQ==\"", Dec::B64), (&Sh::Bytes, b"\"0aFf\"", Dec::Hex), (&Sh::Bytes, b" [ 1 , 22 ,255 ] ", Dec::Hex),
                (&Sh::Struct(SKIPS), b"{\"u\":{\"v\":[1,\"\\\"]\",null,true,false,{}]},\"a\":7,\"w\":\"\\\\\",\"b\":null}", Dec::Nope), (&Sh::Map(&Sh::Int(ITS[3]), &Sh::Any), b"{\"-12\":{\"x\":[null,\"\\u00e9\"]},\"0\":false}", Dec::Nope),
                (&Sh::Enum(E1), b" { \"D\" : { \"x\" : 1 , \"y\" : null } } ", Dec::Nope), (&Sh::Enum(E1), b"\"A\"", Dec::Nope), (&Sh::Enum(E1), b"{\"C\":[1,true]}", Dec::Nope), (&Sh::Map(&Sh::Bool, &Sh::Unit), b"{\"true\":null,\"false\":null}", Dec::Nope),
                (&Sh::Char, b"\"\\uD83D\\uDE00\"", Dec::Nope), (&Sh::Any, b"[\"\\ud83d\\ude00\",{\"\\n\":[]},[[[]]],null]", Dec::Nope), (&Sh::Ign, b"[\"\\\\\",{\"\\\"\":[]},[[[]]],null,true]", Dec::Nope)];
            let (sh, d, dec) = ds[c.choose(ds.len())];
            c.state(&d);
            j14_check(c, sh, d, dec)
        }),
        space("strings", "every prefix of every literal of up to 3 escapes and characters", move |c| {
            let at: [&[u8]; 10] = [b"a", "é".as_bytes(), "😀".as_bytes(), b"\\\"", b"\\\\", b"\\n", b"\\u0041", b"\\ud83d\\ude00", b"\\u20ac", b" "];
            let n = c.num(0, if t { 4 } else { 3 });
            let mut s = vec![b'"'];
            for _ in 0..n { s.extend_from_slice(at[c.choose(10)]) }
            s.push(b'"');
            c.state(&s);
            for sh in [&Sh::BStr as S, &Sh::Bytes, &Sh::Ign, &Sh::Any] { j14_check(c, sh, &s, Dec::Nope)? }
            j14_check(c, &Sh::Tup(&[&Sh::BStr, &Sh::BStr]), &[b"[" as &[u8], &s, b",", &s, b"]"].concat(), Dec::Nope)
        }),
        space("whitespace-after", "trailing whitespace may be cut, anything else appended is refused", move |c| {
            let i = c.choose(d2.len());
            let v = gen(c, d2[i], 0, 1);
            let out = jser_ok(Enc::Arr, d2[i], &v)?;
            c.state(&(i, &out));
            for tail in [b" " as &[u8], b"\n\t\r ", b",", b"]", b"}", b"\"", b" 1", b"\0", b"null", b"/"] { jjudge(d2[i], &[&out[..], tail].concat(), Dec::Nope)?; }
            Ok(())
        }),
    ]
}
