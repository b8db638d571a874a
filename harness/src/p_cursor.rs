//! The public cursor interfaces of the two decoders (J15, M12): every operation sequence
//! within the bound against a cursor over plain bytes.
use crate::engine::*;
use crate::gen::*;
use crate::jref::{self, show, Dec};
use crate::mref::{self, hex};
use crate::run::*;
use crate::shape::*;
use crate::{ensure, fail};
use serde::de::DeserializeSeed;
use ser_write_json::de as jd;
use ser_write_msgpack::de as md;

// ------------------------------------------------------------------ JSON
#[derive(Clone, Copy, Debug)]
enum JOp {
    Peek, Ws, Eat(usize), Split(usize, usize), U8, U64, I8, I64, Tok(&'static [u8]),
    EatStr, Str, StrBytes, Hex, B64, Typed(S), Poke,
}
/// An integer at the cursor: value (or None when refused) and end position; the documented
/// grammar: optional minus for signed, a zero stands alone.
fn jint(b: &[u8], mut i: usize, signed: bool, lo: i128, hi: i128) -> Result<(i128, usize), bool> {
    while matches!(b.get(i), Some(b' ' | b'\t' | b'\n' | b'\r')) { i += 1 }
    let mut neg = false;
    match b.get(i) { None => return Err(true), Some(b'-') if signed => { neg = true; i += 1 } _ => {} }
    match b.get(i) { None => return Err(true), Some(b'0') => return Ok((0, i + 1)), Some(c) if c.is_ascii_digit() => {} _ => return Err(false) }
    let mut n: i128 = 0;
    while let Some(c) = b.get(i).filter(|c| c.is_ascii_digit()) { n = (n * 10 + (c - b'0') as i128).min(1 << 100); i += 1 }
    let n = if neg { -n } else { n };
    if n < lo || n > hi { Err(false) } else { Ok((n, i)) }
}
type Js<'a> = jd::Deserializer<'a, jd::StringByteNopeDecoder>;
fn jops(t: bool) -> Vec<JOp> {
    use JOp::*;
    let mut v = vec![Peek, Ws, Eat(1), Eat(2), Eat(7), Split(0, 1), Split(2, 1), Split(3, 0), U8, U64, I8, Tok(b"null"), Tok(b"tru"), EatStr, Str, Hex, B64,
        Typed(&Sh::Bool), Typed(U8S), Typed(&Sh::BStr), Typed(&Sh::Ign), Typed(&Sh::Tup(&[U8S, &Sh::BStr])), Typed(&Sh::Any)];
    if t { v.extend([Poke, I64, StrBytes, Tok(b""), Eat(0), Eat(1000), Split(0, 0), Split(1, 2), Typed(&Sh::Opt(U8S)), Typed(&Sh::Bytes), Typed(&Sh::F64), Typed(&Sh::Map(&Sh::BStr, U8S))]) }
    v
}
const JDOCS: &[&[u8]] = &[
    b"",
    b" \t\n",
    b"7",
    b" [12,\"a\\nb\"] ",
    b"\"q\\\"x\\u00e9\" tru",
    b"null true-1 -129 300",
    b"\"4142\" \"QUI=\"  0",
    b"[1,\"\"]{\"k\":2}null ",
    b"\"\\\\\"\\\"\"18446744073709551616",
    b"-0 -\"a\\",
    b"4fF\" \"Zm8\"x\"",
    b"{\"a\":[1,2,{}],\"b\":\"\\\"]\"}1",
];
fn jhist(c: &mut Ctx, doc: &'static [u8], ops: &[JOp], depth: usize) -> R {
    let mut g = Guard::new(doc);
    let n = doc.len();
    let mut pos = 0usize;
    let mut hist: Vec<JOp> = vec![];
    let rec = Rec::default();
    let mut lent: Vec<(*const u8, Vec<u8>)> = vec![];
    let base = g.doc().as_ptr() as usize;
    let r = (|| -> R {
        let mut d: Js = jd::Deserializer::from_mut_slice(unsafe { std::slice::from_raw_parts_mut(g.doc().as_mut_ptr(), n) });
        loop {
            let cx = |h: &[JOp]| format!("cursor over `{}` after {h:?}", show(doc));
            // everything observable about the position
            let rem = imp(|| d.remaining_len())?;
            ensure!(rem == n.saturating_sub(pos), "{}: remaining_len() = {rem}, want {}", cx(&hist), n.saturating_sub(pos));
            let here = imp(|| d.input_mut().map(|s| (s.as_ptr() as usize, s.to_vec())).map_err(|e| kind(&e)))?;
            match here {
                Ok((at, s)) => ensure!(pos <= n && s == doc[pos..] && (s.is_empty() || at == base + pos), "{}: the unparsed input is `{}`, want `{}`", cx(&hist), show(&s), show(doc.get(pos..).unwrap_or(b"(none)"))),
                Err(e) => ensure!(pos > n && e == "UnexpectedEof", "{}: input_mut() fails with {e}", cx(&hist)),
            }
            for (p, b) in &lent { ensure!(unsafe { std::slice::from_raw_parts(*p, b.len()) } == &b[..], "{}: a slice handed out earlier changed", cx(&hist)) }
            if c.fresh() { c.state(&(doc, pos, format!("{hist:?}"))) }
            if hist.len() == depth {
                let blank = doc.get(pos..).map(|s| s.iter().all(|b| b" \t\n\r".contains(b)));
                let e = imp(|| d.end().map_err(|e| kind(&e)))?;
                match blank {
                    Some(true) => ensure!(e.is_ok(), "{}: end() gives {e:?} with only whitespace left", cx(&hist)),
                    Some(false) => ensure!(e == Err("TrailingCharacters".into()), "{}: end() gives {e:?} with text left", cx(&hist)),
                    None => {}
                }
                return Ok(());
            }
            let op = ops[c.choose(ops.len())];
            hist.push(op);
            let at_end = pos >= n;
            let rest = doc.get(pos..).unwrap_or(b"");
            let after_ws = { let mut i = pos; while matches!(doc.get(i), Some(b' ' | b'\t' | b'\n' | b'\r')) { i += 1 } i };
            let eofe = |h: &[JOp], e: String, want: bool| -> R { ensure!(!want || e == "UnexpectedEof", "{}: at the end of input the error is {e}", cx(h)); Ok(()) };
            // a refused helper may leave the cursor anywhere ahead
            let resync = |d: &Js, pos: usize, h: &[JOp]| -> Result<usize, Bad> {
                if pos > n { return Ok(pos) }
                let rem = d.remaining_len();
                ensure!(rem <= n - pos, "{}: a refused helper moved the cursor back", cx(h));
                Ok(n - rem)
            };
            macro_rules! int { ($f:ident, $t:ty, $s:expr) => {{
                let r = imp(|| d.$f::<$t>().map_err(|e| kind(&e)))?;
                match (jint(doc, pos, $s, <$t>::MIN as i128, <$t>::MAX as i128), r) {
                    (Ok((v, e)), Ok(x)) => { ensure!(x as i128 == v, "{}: parsed {x}, want {v}", cx(&hist)); pos = e }
                    (Ok((v, _)), Err(e)) => fail!("{}: refused with {e}, want {v}", cx(&hist)),
                    (Err(_), Ok(x)) => fail!("{}: parsed {x}, must be refused", cx(&hist)),
                    (Err(eof), Err(e)) => { eofe(&hist, e, eof)?; pos = resync(&d, pos, &hist)? }
                }
            }} }
            match op {
                JOp::Peek => {
                    let r = imp(|| d.peek().map_err(|e| kind(&e)))?;
                    ensure!(r == doc.get(pos).copied().ok_or("UnexpectedEof".into()), "{}: peek() gives {r:?}", cx(&hist));
                }
                JOp::Ws => {
                    let r = imp(|| d.eat_whitespace().map_err(|e| kind(&e)))?;
                    ensure!(r == doc.get(after_ws).copied().ok_or("UnexpectedEof".into()), "{}: eat_whitespace() gives {r:?}", cx(&hist));
                    if r.is_ok() { pos = after_ws } else { pos = resync(&d, pos, &hist)? }
                }
                JOp::Eat(k) => { imp(|| d.eat_some(k))?; pos += k }
                JOp::Split(l, s) => {
                    let fits = pos <= n && l + s <= n - pos;
                    let r = imp(|| { let x = d.split_input(l, s); (x.as_ptr(), x.to_vec()) });
                    if !fits { ensure!(r.is_err(), "{}: split_input({l}, {s}) beyond the input succeeds", cx(&hist)); return Ok(()) }
                    let (p, x) = r.map_err(|b| Bad { msg: format!("{}: {}", cx(&hist), b.msg), key: b.key })?;
                    ensure!(x == doc[pos..pos + l] && p as usize == base + pos, "{}: split_input({l}, {s}) gives `{}`", cx(&hist), show(&x));
                    lent.push((p, x));
                    pos += l + s;
                }
                JOp::U8 => int!(parse_unsigned, u8, false),
                JOp::U64 => int!(parse_unsigned, u64, false),
                JOp::I8 => int!(parse_signed, i8, true),
                JOp::I64 => int!(parse_signed, i64, true),
                JOp::Tok(t) => {
                    let r = imp(|| d.parse_token_content(t).map_err(|e| kind(&e)))?;
                    if pos <= n && rest.starts_with(t) { ensure!(r.is_ok(), "{}: token refused: {r:?}", cx(&hist)); pos += t.len() }
                    else { ensure!(r.is_err(), "{}: token accepted", cx(&hist)); eofe(&hist, r.unwrap_err(), at_end)?; pos = resync(&d, pos, &hist)? }
                }
                JOp::EatStr => {
                    let r = imp(|| d.eat_str_content().map_err(|e| kind(&e)))?;
                    let want = { let q: Vec<u8> = [b"\"", rest].concat(); let mut f = jref::Ref { b: &q, i: 0, dec: Dec::Nope, f32any: false, lenient: false, lits: vec![] }; f.ign().map(|_| f.i - 1) };
                    match (want, r) {
                        (Ok(k), Ok(())) => pos += k,
                        (Ok(_), Err(e)) => fail!("{}: refused with {e}", cx(&hist)),
                        // a control character right after a backslash is read as content or refused
                        (Err(_), Ok(())) => fail!("{}: accepted, must be refused", cx(&hist)),
                        (Err(_), Err(e)) => { eofe(&hist, e, at_end)?; pos = resync(&d, pos, &hist)? }
                    }
                }
                JOp::Str | JOp::StrBytes => {
                    let r = imp(|| if let JOp::Str = op { d.parse_str_content().map(|s| (s.as_ptr(), s.as_bytes().to_vec())) } else { d.parse_str_bytes_content().map(|s| (s.as_ptr(), s.to_vec())) }.map_err(|e| kind(&e)))?;
                    let want = if pos > n { Err(jref::E::Eof) } else { jref::rfc_string(doc, pos).and_then(|(s, e, _)| if matches!(op, JOp::StrBytes) || std::str::from_utf8(&s).is_ok() { Ok((s, e)) } else { Err(jref::E::Rej) }) };
                    match (want, r) {
                        (Ok((s, e)), Ok((p, x))) => { ensure!(x == s && (x.is_empty() || (p as usize >= base + pos && p as usize + x.len() <= base + e)), "{}: gives `{}`, want `{}`", cx(&hist), show(&x), show(&s)); lent.push((p, x)); pos = e }
                        (Ok(_), Err(e)) => fail!("{}: refused with {e}", cx(&hist)),
                        (Err(_), Ok((_, x))) => fail!("{}: gives `{}`, must be refused", cx(&hist), show(&x)),
                        (Err(_), Err(e)) => { eofe(&hist, e, at_end)?; return Ok(()) }
                    }
                }
                JOp::Hex | JOp::B64 => {
                    let q: Vec<u8> = [b"\"", rest].concat();
                    let mut f = jref::Ref { b: &q, i: 0, dec: if let JOp::Hex = op { Dec::Hex } else { Dec::B64 }, f32any: false, lenient: false, lits: vec![] };
                    let want = f.val(&Sh::Bytes).map(|v| match v { V::Bytes(b) => b, _ => unreachable!() });
                    let r = imp(|| if let JOp::Hex = op { d.parse_hex_bytes_content() } else { d.parse_base64_bytes_content() }.map(|s| (s.as_ptr(), s.to_vec())).map_err(|e| kind(&e)))?;
                    match (want, r) {
                        (Ok(s), Ok((p, x))) => { let e = pos + f.i - 1; ensure!(x == s && (x.is_empty() || (p as usize >= base + pos && p as usize + x.len() <= base + e)), "{}: gives {x:02x?}, want {s:02x?}", cx(&hist)); lent.push((p, x)); pos = e }
                        (Ok(_), Err(e)) => { ensure!(f.lenient, "{}: refused with {e}", cx(&hist)); return Ok(()) }
                        (Err(jref::E::Dc), _) => return Ok(()),
                        (Err(_), Ok((_, x))) => fail!("{}: gives {x:02x?}, must be refused", cx(&hist)),
                        (Err(_), Err(e)) => { eofe(&hist, e, at_end)?; return Ok(()) }
                    }
                }
                JOp::Poke => {
                    // writing through input_mut is the caller's own business: same bytes back
                    imp(|| if let Ok(s) = d.input_mut() { for b in s { let x = *b; *b = 0; *b = x } })?;
                }
                JOp::Typed(sh) => {
                    let mut f = jref::Ref { b: rest, i: 0, dec: Dec::Nope, f32any: cfg!(feature = "f32"), lenient: false, lits: vec![] };
                    let want = if pos > n { Err(jref::E::Eof) } else { f.val(sh) };
                    let before = rec.lent.borrow().len();
                    let r = imp(|| Sd(sh, &rec).deserialize(&mut d).map_err(|e| kind(&e)))?;
                    match (want, r) {
                        (Ok(v), Ok(x)) => {
                            ensure!(veq(&v, &x, false), "{}: decodes {x:?}, want {v:?}", cx(&hist));
                            for (a, b, _) in &rec.lent.borrow()[before..] { lent.push((*a as *const u8, b.clone())) }
                            pos += f.i;
                        }
                        (Ok(v), Err(e)) => { ensure!(f.lenient, "{}: refused with {e}, want {v:?}", cx(&hist)); return Ok(()) }
                        (Err(jref::E::Dc), _) => return Ok(()),
                        (Err(_), Ok(x)) => fail!("{}: decodes {x:?}, must be refused", cx(&hist)),
                        (Err(_), Err(e)) => { eofe(&hist, e, at_end)?; return Ok(()) }
                    }
                }
            }
        }
    })();
    r.map_err(|b| if b.msg.starts_with("panic") { Bad { msg: format!("{}: cursor over `{}` after {hist:?}", b.msg, show(doc)), key: b.key } } else { b })?;
    g.check()
}

/// A byte decoder of our own, using every cursor operation a decoder may use.
struct Custom;
impl<'de> jd::StringByteDecoder<'de> for Custom {
    fn decode_string_to_bytes(d: &mut jd::Deserializer<'de, Self>) -> jd::Result<&'de [u8]> {
        match d.peek()? {
            b'#' => { d.eat_some(1); d.parse_hex_bytes_content() }
            b'$' => { d.eat_some(1); d.parse_base64_bytes_content() }
            b'!' => {
                // length digit, raw bytes, closing quote
                d.eat_some(1);
                let n: u8 = d.parse_unsigned()?;
                if d.remaining_len() < n as usize + 1 { return Err(jd::Error::UnexpectedEof) }
                let s = d.input_mut()?;
                if s[n as usize] != b'"' { return Err(jd::Error::UnexpectedChar) }
                for b in &mut s[..n as usize] { *b ^= 0x20 }
                Ok(d.split_input(n as usize, 1))
            }
            b'~' => { d.eat_some(1); d.eat_str_content()?; Ok(b"~") }
            b'0'..=b'9' => { let n: u64 = d.parse_unsigned()?; d.parse_token_content(b"\"")?; Ok(if n == 300 { b"three hundred" } else { b"number" }) }
            b' ' => { d.eat_whitespace()?; d.parse_str_content().map(str::as_bytes) }
            _ => d.parse_str_bytes_content(),
        }
    }
}
const CUSTOM: &[(&str, &[u8], bool)] = &[
    ("\"#4142\"", b"AB", true), ("\"#\"", b"", true), ("\"$QUI=\"", b"AB", true), ("\"$Qg\"", b"B", true), ("\"!2ab\"", b"AB", true), ("\"!0\"", b"", true), ("\"!3\"\\\"\"", b"\x02\x7c\x02", true),
    ("\"~x\\\"]\"", b"~", true), ("\"300\"", b"three hundred", true), ("\"18446744073709551615\"", b"number", true), ("\"18446744073709551616\"", b"", false),
    ("\"  \\u00e9\"", "é".as_bytes(), true), ("\"\\n\"", b"\n", true), ("\"\"", b"", true), ("[1,2]", b"\x01\x02", true), ("[]", b"", true),
    ("\"#4\"", b"", false), ("\"!x\"", b"", false), ("\"$Q!\"", b"", false), ("\"7 \"", b"", false), ("\"~", b"", false),
];
fn custom(c: &mut Ctx) -> R {
    static SHAPES: [(Sh, &str, usize); 5] = [
        (Sh::Bytes, "@", 1), (Sh::Seq(&Sh::Bytes), "[@, @]", 2), (Sh::Tup(&[&Sh::BStr, &Sh::Bytes, &Sh::Bool]), "[\"s\\n\",@,true]", 1),
        (Sh::Map(&Sh::BStr, &Sh::Bytes), "{\"k\" :@,\"\\\"\":@ }", 2), (Sh::Tup(&[&Sh::Ign, &Sh::Bytes, &Sh::Opt(&Sh::Bytes)]), " [\"$#!\",@,@] ", 2),
    ];
    let k = c.choose(5);
    let (sh, tpl, n) = &SHAPES[k];
    let picks: Vec<usize> = (0..*n).map(|_| c.choose(CUSTOM.len())).collect();
    let mut doc = String::new();
    let mut it = picks.iter();
    for ch in tpl.chars() { if ch == '@' { doc += CUSTOM[*it.next().unwrap()].0 } else { doc.push(ch) } }
    c.state(&doc); c.sample(|| doc.clone());
    let o = jdec_with(sh, doc.as_bytes(), "custom", |d| jd::from_mut_slice_with_decoder::<Custom, Dyn>(d).map(|d| d.0))?;
    let ok = picks.iter().all(|p| CUSTOM[*p].2);
    let cx = || format!("`{}` as {sh:?} with a custom byte decoder", show(doc.as_bytes()));
    let x = |i: usize| V::Bytes(CUSTOM[picks[i]].1.to_vec());
    match o.res {
        Ok(v) => {
            ensure!(ok, "accepted {} as {v:?}", cx());
            let want = match k {
                0 => x(0), 1 => V::Seq(vec![x(0), x(1)]), 2 => V::Seq(vec![V::s("s\n"), x(0), V::Bool(true)]),
                3 => V::Map(vec![(V::s("k"), x(0)), (V::s("\""), x(1))]),
                _ => V::Seq(vec![V::Ign, x(0), V::Some(Box::new(x(1)))]),
            };
            ensure!(v == want, "{} gives {v:?}, want {want:?}", cx());
        }
        Err(e) => ensure!(!ok, "rejected {} with {e:?}", cx()),
    }
    Ok(())
}
pub fn j15(t: bool) -> Vec<Space> {
    let d = if cfg!(debug_assertions) { 4 } else { 5 };
    let ops = jops(t);
    vec![
        space("cursor", format!("every sequence of {d} of {} cursor operations on {} inputs, ended by end()", ops.len(), JDOCS.len()), move |c| {
            let doc = JDOCS[c.choose(JDOCS.len())];
            jhist(c, doc, &ops, d)
        }),
        space("shorter", "every sequence of 0..=3 cursor operations out of the full set", move |c| {
            let ops = jops(true);
            let doc = JDOCS[c.choose(JDOCS.len())];
            let d = c.num(0, 3);
            jhist(c, doc, &ops, d)
        }),
        space("custom-decoder", "a custom byte decoder using the cursor, mixed with ordinary decoding: all pairs of 21 literals in 5 documents", custom),
    ]
}

// ------------------------------------------------------------------ MessagePack
#[derive(Clone, Copy, Debug)]
enum MOp { Peek, Fetch, Eat(usize), Split(usize), Message, Typed(S) }
const MDOCS: &[&[u8]] = &[
    b"",
    b"\x07",
    b"\x92\x01\xa1a\xc0\xcc\xff",
    b"\xa2\xc3\xa9\xc4\x02\xff\x00\xc3\xcd\x01\x2c",
    b"\x81\x01\xa1x\x93\xc2\xc0\x90\xd1\xff\x7f",
    b"\xc1\xd4\x05\xaa\xc7\x01\x05\xaa\x80",
    b"\xdc\x00\x02\xda\x00\x01z\xdf\x00\x00\x00\x01\x05\x06\xca\x3f\x80\x00\x00",
    b"\xd9\x04ab",
    b"\x92\x91\x92\xc0",
    b"\xde\x00\x02\x01\xc3\xa1b\x94\x01\x02\x03\x04\xcf\x00\x00\x00\x00\x00\x00\x01\x00",
];
fn mops(t: bool) -> Vec<MOp> {
    use MOp::*;
    let mut v = vec![Peek, Fetch, Eat(1), Eat(3), Eat(40), Split(0), Split(1), Split(3), Split(50), Message, Typed(U8S), Typed(&Sh::BStr), Typed(&Sh::Bytes), Typed(&Sh::Ign), Typed(&Sh::Any),
        Typed(&Sh::Tup(&[U8S, &Sh::BStr])), Typed(&Sh::Map(U8S, &Sh::Ign)), Typed(&Sh::Opt(&Sh::Bool))];
    if t { v.extend([Eat(0), Eat(2), Split(2), Split(usize::MAX), Typed(&Sh::Unit), Typed(&Sh::F32), Typed(&Sh::Seq(&Sh::Any)), Typed(&Sh::Int(IT::I64)), Typed(&Sh::Char)]) }
    v
}
fn mhist(c: &mut Ctx, doc: &'static [u8], ops: &[MOp], depth: usize) -> R {
    let g = Guard::new(doc);
    let n = doc.len();
    let input = &g.buf[PAD..PAD + n];
    let base = input.as_ptr() as usize;
    let mut pos = 0usize;
    let mut hist: Vec<MOp> = vec![];
    let r = (|| -> R {
        let rec = Rec::default();
        let mut d = md::Deserializer::from_slice(input);
        loop {
            let cx = |h: &[MOp]| format!("cursor over [{}] after {h:?}", hex(doc));
            let rem = imp(|| d.remaining_len())?;
            ensure!(rem == n.saturating_sub(pos), "{}: remaining_len() = {rem}, want {}", cx(&hist), n.saturating_sub(pos));
            match imp(|| d.input_ref().map_err(|e| kind(&e)))? {
                Ok(s) => ensure!(pos <= n && s == &doc[pos..] && (s.is_empty() || s.as_ptr() as usize == base + pos), "{}: the unparsed input is [{}]", cx(&hist), hex(s)),
                Err(e) => ensure!(pos > n && e == "UnexpectedEof", "{}: input_ref() fails with {e}", cx(&hist)),
            }
            if c.fresh() { c.state(&(doc, pos, format!("{hist:?}"))) }
            if hist.len() == depth {
                let e = imp(|| d.end().map_err(|e| kind(&e)))?;
                ensure!(e == if pos <= n { Ok(n - pos) } else { Err("UnexpectedEof".into()) }, "{}: end() gives {e:?}", cx(&hist));
                return Ok(());
            }
            let op = ops[c.choose(ops.len())];
            hist.push(op);
            let rest = doc.get(pos..).unwrap_or(b"");
            let at_end = pos >= n;
            let resync = |d: &md::Deserializer, h: &[MOp]| -> Result<usize, Bad> {
                if pos > n { return Ok(pos) }
                let rem = d.remaining_len();
                ensure!(rem <= n - pos, "{}: a refused operation moved the cursor back", cx(h));
                if rem == 0 { Ok(usize::MAX) } else { Ok(n - rem) }
            };
            match op {
                MOp::Peek | MOp::Fetch => {
                    let f = matches!(op, MOp::Fetch);
                    let r = imp(|| if f { d.fetch() } else { d.peek() }.map_err(|e| kind(&e)))?;
                    ensure!(r == doc.get(pos).copied().ok_or("UnexpectedEof".into()), "{}: gives {r:?}", cx(&hist));
                    if f && r.is_ok() { pos += 1 }
                }
                MOp::Eat(k) => { imp(|| d.eat_some(k))?; pos += k }
                MOp::Split(l) => {
                    let r = imp(|| d.split_input(l).map(|x| (x.as_ptr() as usize, x.to_vec())).map_err(|e| kind(&e)))?;
                    if pos <= n && l <= n - pos {
                        match r { Ok((p, x)) => ensure!(x == doc[pos..pos + l] && (l == 0 || p == base + pos), "{}: gives [{}]", cx(&hist), hex(&x)), Err(e) => fail!("{}: refused with {e}", cx(&hist)) }
                        pos += l;
                    } else { ensure!(r == Err("UnexpectedEof".into()), "{}: gives {r:?}", cx(&hist)) }
                }
                MOp::Message => {
                    let r = imp(|| d.eat_message().map_err(|e| kind(&e)))?;
                    match (if pos > n { Err(jref::E::Eof) } else { mref::skip(rest, 0) }, r) {
                        (Ok(k), Ok(())) => pos += k,
                        (Ok(_), Err(e)) => fail!("{}: refused with {e}", cx(&hist)),
                        (Err(e), Ok(())) => fail!("{}: accepted, must be refused ({e:?})", cx(&hist)),
                        (Err(_), Err(e)) => { ensure!(!at_end || e == "UnexpectedEof", "{}: at the end of input the error is {e}", cx(&hist)); pos = resync(&d, &hist)?; if pos == usize::MAX { return Ok(()) } }
                    }
                }
                MOp::Typed(sh) => {
                    let mut f = mref::Ref { b: rest, i: 0, lits: vec![] };
                    let want = if pos > n { Err(jref::E::Eof) } else { f.val(sh) };
                    let r = imp(|| Sd(sh, &rec).deserialize(&mut d).map_err(|e| kind(&e)))?;
                    match (want, r) {
                        (Ok(v), Ok(x)) => { ensure!(veq(&v, &x, false), "{}: decodes {x:?}, want {v:?}", cx(&hist)); pos += f.i }
                        (Ok(v), Err(e)) => fail!("{}: refused with {e}, want {v:?}", cx(&hist)),
                        (Err(jref::E::Dc), _) => return Ok(()),
                        (Err(_), Ok(x)) => fail!("{}: decodes {x:?}, must be refused", cx(&hist)),
                        (Err(_), Err(e)) => { ensure!(!at_end || e == "UnexpectedEof", "{}: at the end of input the error is {e}", cx(&hist)); pos = resync(&d, &hist)?; if pos == usize::MAX { return Ok(()) } }
                    }
                }
            }
        }
    })();
    r.map_err(|b| if b.msg.starts_with("panic") { Bad { msg: format!("{}: cursor over [{}] after {hist:?}", b.msg, hex(doc)), key: b.key } } else { b })?;
    g.check()
}
pub fn m12(t: bool) -> Vec<Space> {
    let d = if cfg!(debug_assertions) { 4 } else { 5 };
    let ops = mops(t);
    vec![
        space("cursor", format!("every sequence of {d} of {} cursor operations on {} inputs, ended by end()", ops.len(), MDOCS.len()), move |c| {
            let doc = MDOCS[c.choose(MDOCS.len())];
            mhist(c, doc, &ops, d)
        }),
        space("shorter", "every sequence of 0..=3 operations out of the full set", move |c| {
            let ops = mops(true);
            let doc = MDOCS[c.choose(MDOCS.len())];
            let d = c.num(0, 3);
            mhist(c, doc, &ops, d)
        }),
    ]
}
