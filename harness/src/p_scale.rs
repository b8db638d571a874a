//! Spaces that reach past the small scope: long literals, long chains of nesting, long numbers.
//! Each enumerates one size parameter completely up to a bound together with a position in it.
use crate::engine::*;
use crate::gen::*;
use crate::jref::*;
use crate::mref::{hex, FLS};
use crate::p_json::*;
use crate::p_mp;
use crate::run::*;
use crate::shape::*;
use crate::ensure;
use std::sync::Arc;

pub const CHAIN: usize = 24;
/// two containers alternating to every depth up to CHAIN, around three leaves
pub fn chains(maxd: usize) -> Arc<Vec<S>> {
    static ALL: std::sync::OnceLock<Vec<Vec<S>>> = std::sync::OnceLock::new();
    let all = ALL.get_or_init(|| {
        let mut levels: Vec<Vec<S>> = vec![];
        // level n holds, for each leaf and pair (i, j), the chain of n containers that starts with i
        for n in 0..=64usize {
            let mut l = vec![];
            for (x, leaf) in [&Sh::Bool as S, &Sh::BStr, &Sh::Bytes].into_iter().enumerate() {
                for i in 0..9 { for j in 0..9 {
                    l.push(if n == 0 { leaf } else { wrap(i, levels[n - 1][x * 81 + j * 9 + i]) });
                } }
            }
            levels.push(l);
        }
        levels
    });
    Arc::new((3..=maxd).flat_map(|n| all[n].iter().copied()).collect())
}
/// the value that follows the chain inwards, siblings minimal; enums take variant 1 + `ev`
pub fn line(sh: S, ev: usize, leaf: usize) -> V {
    let small = |s: S| match s { Sh::Opt(_) => V::None, Sh::Bool => V::Bool(true), Sh::BStr => V::s("k"), _ => V::Int(7) };
    let many = |ss: &[S], at: usize| -> Vec<V> { ss.iter().enumerate().map(|(i, s)| if i == at { line(s, ev, leaf) } else { small(s) }).collect() };
    match sh {
        Sh::Opt(s) => V::Some(Box::new(line(s, ev, leaf))),
        Sh::New(s) => V::New(Box::new(line(s, ev, leaf))),
        Sh::Seq(s) => V::Seq(vec![line(s, ev, leaf)]),
        Sh::Tup(ss) => V::Seq(many(ss, 0)),
        Sh::TupS(ss) => V::Seq(many(ss, 1)),
        Sh::Map(k, s) => V::Map(vec![(key_val(k, 0), line(s, ev, leaf))]),
        Sh::Struct(d) => V::Struct(many(d.shapes, 0).into_iter().map(Some).collect()),
        Sh::Enum(d) => V::Var(1 + ev, Box::new(match &d.vars[1 + ev] { Var::New(s) => line(s, ev, leaf), Var::Tup(ss) => V::Seq(many(ss, 0)), Var::Struct(_, ss) => V::Struct(many(ss, 0).into_iter().map(Some).collect()), Var::Unit => unreachable!() })),
        _ => { let v = leaf_vals(sh, 1); v[leaf % v.len()].clone() }
    }
}
fn is_enum(s: S) -> bool { matches!(s, Sh::Enum(_)) }
fn child(s: S) -> S { match s { Sh::Opt(s) | Sh::New(s) | Sh::Seq(s) | Sh::Map(_, s) => s, Sh::Tup(ss) => ss[0], Sh::TupS(ss) => ss[1], Sh::Struct(d) => d.shapes[0], Sh::Enum(d) => match &d.vars[1] { Var::New(s) => s, _ => s }, s => s } }
fn pick_line(c: &mut Ctx, ch: &[S]) -> (S, V) {
    let sh = ch[c.choose(ch.len())];
    let ev = if is_enum(sh) || is_enum(child(sh)) { c.choose(3) } else { 0 };
    let leaf = c.choose(2);
    (sh, line(sh, ev, leaf))
}
fn chain_space(maxd: usize, what: &str, f: impl Fn(&mut Ctx, S, &V) -> R + Send + Sync + 'static) -> Space {
    let ch = chains(maxd);
    space("chains", format!("chains of two alternating containers (all 81 pairs, every enum variant kind) to every depth 3..={maxd} around 3 leaf kinds: {what}"), move |c| {
        let (sh, v) = pick_line(c, &ch);
        c.state(&(sh as *const Sh as usize, &v));
        f(c, sh, &v)
    })
}

pub fn extra(prop: &str, t: bool) -> Vec<Space> {
    let d = if t { 64 } else { CHAIN };
    match prop {
        "J01" => vec![chain_space(d, "output in 4 byte encodings", |c, sh, v| { let e = ENCS[c.choose(4)]; j01_check(sh, v, e) })],
        "J05" => vec![chain_space(d, "round trip in 4 byte encodings", |c, sh, v| { let e = ENCS[c.choose(4)]; j05_check(sh, v, e) })],
        "J06" => vec![chain_space(if t { 32 } else { 12 }, "one token deleted, doubled, or padded with whitespace", |_, sh, v| {
            let out = jser_ok(Enc::Arr, sh, v)?;
            let toks = lex(&out);
            for i in 0..toks.len() {
                let join = |f: &dyn Fn(usize) -> usize| -> Vec<u8> { toks.iter().enumerate().flat_map(|(k, t)| t.repeat(f(k))).collect() };
                jjudge(sh, &join(&|k| (k != i) as usize), Dec::Nope)?;
                jjudge(sh, &join(&|k| 1 + (k == i) as usize), Dec::Nope)?;
                let w: Vec<u8> = toks.iter().enumerate().flat_map(|(k, t)| if k == i { [b"\r\n\t " as &[u8], t].concat() } else { t.clone() }).collect();
                ensure!(jjudge(sh, &w, Dec::Nope)? == Seen::Accept, "harness: `{}`", show(&w));
            }
            Ok(())
        })],
        "J09" => vec![
            chain_space(d, "read without a type hint", |c, sh, v| {
                let e = [Enc::Arr, Enc::Hex, Enc::B64][c.choose(3)];
                let out = jser_ok(e, sh, v)?;
                for d in DECS { let s = jjudge(&Sh::Any, &out, d)?; ensure!(matches!(s, Seen::Accept | Seen::Free), "harness: {}", show(&out)); }
                Ok(())
            }),
            long_numbers(t),
        ],
        "J10" => vec![
            chain_space(d, "ignored as unknown member, element, value", |c, sh, v| { let out = jser_ok(Enc::Arr, sh, v)?; j10_check(c, &out) }),
            long_skipped(t),
        ],
        "J11" => vec![foreign_bytes(t)],
        "J12" => vec![long_literals(t)],
        "J13" => vec![literal_pairs(t)],
        "J14" => vec![
            chain_space(if t { 32 } else { 16 }, "every prefix", |c, sh, v| {
                let e = [Enc::Arr, Enc::Hex, Enc::B64][c.choose(3)];
                let out = jser_ok(e, sh, v)?;
                j14_check(c, sh, &out, dec_for(e)[0])
            }),
            long_prefixes(t),
        ],
        "M08" => vec![long_streams(t)],
        "M01" => vec![chain_space(d, "output in 3 flavours", |c, sh, v| { let f = *c.pick(&FLS); p_mp::m01_check(sh, v, f).map(|_| ()) })],
        "M02" => vec![chain_space(d, "round trip in 3 flavours", |c, sh, v| { let f = *c.pick(&FLS); p_mp::m02_check(sh, v, f) })],
        "M03" => vec![
            chain_space(if t { 24 } else { 9 }, "13 uniform encodings, and each byte deleted, doubled or inverted", |c, sh, v| {
                let k = c.num(0, 13);
                let doc = p_mp::encode_uniform(sh, v, k);
                p_mp::agreed(sh, v, &doc)?;
                for i in 0..doc.len() {
                    mjudge(sh, &[&doc[..i], &doc[i + 1..]].concat())?;
                    mjudge(sh, &[&doc[..=i], &doc[i..]].concat())?;
                    let mut d = doc.clone(); d[i] = !d[i]; mjudge(sh, &d)?;
                }
                Ok(())
            }),
            insertions(t),
        ],
        "M05" => vec![chain_space(d, "skipped in 8 contexts and truncated everywhere, 13 uniform encodings", |c, sh, v| { let k = c.num(0, 13); p_mp::skip_check(&p_mp::encode_uniform(sh, v, k), true) })],
        "M06" => vec![chain_space(if t { 40 } else { 20 }, "every strict prefix, 3 flavours", |c, sh, v| { let f = *c.pick(&FLS); let doc = mser_ok(f, sh, v)?; p_mp::prefix_check(sh, &doc, 0) })],
        "M10" => vec![chain_space(d, "read without a type hint, 13 uniform encodings", |c, sh, v| { let k = c.num(0, 13); p_mp::any_judge(&p_mp::encode_uniform(sh, v, k)) })],
        _ => vec![],
    }
}

/// decimal literals longer than any machine integer or float needs
fn long_numbers(t: bool) -> Space {
    let max = if t { 400 } else { 120 };
    space("long-numbers", format!("numbers with 1..={max} integer digits, 0..=40 or 300 fraction digits, 19 exponents, both signs: exact kind and nearest value, untyped and as f64, f32 and integers"), move |c| {
        let n = c.num(1, max);
        let fr = { let k = c.choose(42); if k == 41 { 300 } else { k } };
        let neg = c.flag();
        let pat = c.choose(4);
        let dig = |i: usize| -> char { match pat { 0 => '9', 1 => if i == 0 { '1' } else { '0' }, 2 => (b'1' + (i * 7 % 9) as u8) as char, _ => if i == 0 || i == 15 { '1' } else if i + 1 == n { '5' } else { '0' } } };
        let mut s = String::new();
        if neg { s.push('-') }
        for i in 0..n { s.push(dig(i)) }
        if fr > 0 { s.push('.'); for i in 0..fr { s.push(if pat == 1 && i + 1 < fr { '0' } else { dig(i + 1) }) } }
        let mut k = 0;
        for e in ["", "e0", "E+1", "e-1", "e10", "e-10", "e22", "e-22", "e-300", "e300", "e308", "e-324", "e00012", "E-0019", "e309", "e-400", "e9999", "e-9999", "e99999999999999999999"] {
            let x = format!("{s}{e}");
            for sh in [&Sh::Any as S, &Sh::F64, &Sh::F32, &INTS[7], &INTS[3], &INTS[0]] { jjudge(sh, x.as_bytes(), Dec::Nope)?; k += 1 }
            jjudge(&Sh::Any, format!("[{x},{{\"a\":{x} }}]").as_bytes(), Dec::Nope)?;
        }
        c.bulk(k);
        Ok(())
    })
}
fn long_skipped(t: bool) -> Space {
    let max = if t { 700 } else { 280 };
    space("long-strings", format!("ignored strings of every length 0..={max} with each of 9 atoms at every position, followed by what must not be swallowed"), move |c| {
        let n = c.num(0, max);
        let a: &[u8] = *c.pick(&[b"" as &[u8], b"\\\"", b"\\\\", b"\\u0022", b"]", b"}", b",\\\\\\\"", "é".as_bytes(), b"\xff"]);
        for p in 0..=n {
            let s = [b"\"" as &[u8], &b"x".repeat(p), a, &b"y".repeat(n - p), b"\""].concat();
            let k = p % 5;
            let (sh, d, _) = skip_docs(&s).swap_remove([0, 2, 4, 5, 8][k]);
            let s = jjudge(sh, &d, Dec::Nope)?;
            ensure!(s != Seen::Reject, "harness: `{}`", show(&d));
        }
        c.bulk(n as u64 + 1);
        Ok(())
    })
}
fn foreign_bytes(t: bool) -> Space {
    let max = if t { 200 } else { 72 };
    space("foreign-bytes", format!("hexadecimal and base-64 texts of every length 0..={max} with a foreign byte (16 kinds) at every position, and none"), move |c| {
        let n = c.num(0, max);
        let hexd = c.flag();
        let x = *c.pick(b"=\"\\g G-_\x00\x1f\x80\xff+/:@");
        let base: Vec<u8> = if hexd { (0..n).map(|i| b"0123456789abcdefABCDEF"[(i * 5 + i / 7) % 22]).collect() } else { (0..n).map(|i| AL[(i * 11 + i / 5) % 64]).collect() };
        let dec = if hexd { Dec::Hex } else { Dec::B64 };
        j11_dec(&base, dec)?;
        for p in 0..n {
            let mut s = base.clone();
            s[p] = x;
            j11_dec(&s, dec)?;
            if !hexd { j11_b64(&s)? }
        }
        c.bulk(n as u64 + 1);
        Ok(())
    })
}
fn long_literals(t: bool) -> Space {
    let max = if t { 1100 } else { 300 };
    space("long-literals", format!("text, hexadecimal, base-64, escaped, backslash and number-array bodies of every length 0..={max} with each of 16 endings (none, closed, cut escapes, foreign bytes), as 7 types under 3 decoders"), move |c| {
        let n = c.num(0, max);
        let body = c.choose(7);
        let end: &[u8] = *c.pick(&[b"" as &[u8], b"\"", b"\\", b"\\\"", b"x\"", b"=\"", b"==\"", b"\xff\"", b"\\u", b"\\u00\"", b"\\ud83d\\u\"", b"\0\"", b"]", b"\"]", b",", b"0"]);
        let mut d: Vec<u8> = vec![if body == 6 { b'[' } else { b'"' }];
        for i in 0..n {
            match body {
                0 => d.push(b"0123456789abcdefABCDEF"[i % 22]),
                1 => d.push(AL[i * 7 % 64]),
                2 => d.push(b'x'),
                3 => d.extend_from_slice(b"\\n"),
                4 => d.push(b'\\'),
                5 => d.extend_from_slice(if i % 2 == 0 { b"\\u00e9" } else { b"\\ud83d\\ude00" }),
                _ => { if i > 0 { d.push(b',') } d.extend_from_slice([b"255" as &[u8], b"0", b"17"][i % 3]) }
            }
        }
        d.extend_from_slice(end);
        let mut k = 0;
        for dec in DECS {
            for sh in [&Sh::Bytes as S, &Sh::BStr, &Sh::Any, &Sh::Ign, &Sh::Char] { jjudge(sh, &d, dec)?; k += 1 }
            let w = [b"[" as &[u8], &d].concat();
            jjudge(&Sh::Seq(&Sh::Bytes), &w, dec)?;
            let w = [b"{\"a\":1,\"q\":" as &[u8], &d].concat();
            jjudge(&Sh::Struct(SKIPS), &w, dec)?;
            k += 2;
        }
        c.bulk(k);
        Ok(())
    })
}
fn literal_pairs(t: bool) -> Space {
    let max = if t { 70 } else { 40 };
    space("pairs", format!("two borrowed literals of every pair of lengths 0..={max} whose bodies shrink while decoding (2- and 6-byte escapes, numbers, digits), in sequences and objects"), move |c| {
        let (n, m) = (c.num(0, max), c.num(0, max));
        let kind = c.choose(5);
        let lit = |n: usize, k: usize| -> Vec<u8> {
            let mut d = vec![b'"'];
            match kind {
                0 => for i in 0..n { d.extend_from_slice(if (i + k) % 3 == 0 { b"\\n" } else { b"x" }) },
                1 => for i in 0..n { d.extend_from_slice(if (i + k) % 4 == 1 { b"\\u20ac" } else { b"y" }) },
                2 => for i in 0..n { d.extend(format!("{:02x}", (i * 7 + k) % 256).bytes()) },
                3 => { let b: Vec<u8> = (0..n).map(|i| (i * 5 + k) as u8).collect(); d.extend(b64(&b)) }
                _ => { d[0] = b'['; for i in 0..n { if i > 0 { d.push(b',') } d.extend(format!("{}", (i * 31 + k) % 256).bytes()) } d.push(b']'); return d }
            }
            d.push(b'"');
            d
        };
        let (a, b) = (lit(n, 0), lit(m, 1));
        let (sh, dec) = [(&Sh::BStr as S, Dec::Nope), (&Sh::BStr, Dec::Hex), (&Sh::Bytes, Dec::Hex), (&Sh::Bytes, Dec::B64), (&Sh::Bytes, Dec::Nope)][kind];
        let seq = match sh { Sh::BStr => &Sh::Seq(&Sh::BStr), _ => &Sh::Seq(&Sh::Bytes) };
        let map = match sh { Sh::BStr => &Sh::Map(&Sh::BStr, &Sh::BStr), _ => &Sh::Map(&Sh::BStr, &Sh::Bytes) };
        let s = jjudge(seq, &[b"[" as &[u8], &a, b",", &b, b",", &a, b"]"].concat(), dec)?;
        ensure!(s == Seen::Accept, "harness");
        let s = jjudge(map, &[b"{\"k\\n\":" as &[u8], &a, b", \"\\u0041\" :", &b, b"}"].concat(), dec)?;
        ensure!(s == Seen::Accept, "harness");
        c.state(&(n, m, kind));
        Ok(())
    })
}
fn long_prefixes(t: bool) -> Space {
    let max = if t { 400 } else { 150 };
    space("long-prefixes", format!("every prefix of strings, escaped strings, hexadecimal, base-64, number arrays, sequences, objects of every length 0..={max}, typed and ignored"), move |c| {
        let n = c.num(0, max);
        let k = c.choose(8);
        let s = |b: Vec<u8>| [b"\"" as &[u8], &b, b"\""].concat();
        let bytes: Vec<u8> = (0..n).map(|i| (i * 13 + 7) as u8).collect();
        let (sh, doc, dec): (S, Vec<u8>, Dec) = match k {
            0 => (&Sh::BStr, s(b"x".repeat(n)), Dec::Nope),
            1 => (&Sh::BStr, s((0..n).flat_map(|i| [b"\\n" as &[u8], b"z", b"\\\\", b"\\u00e9"][i % 4].to_vec()).collect()), Dec::Nope),
            2 => (&Sh::Bytes, s(hexs(&bytes)), Dec::Hex),
            3 => (&Sh::Bytes, s(b64(&bytes)), Dec::B64),
            4 => (&Sh::Bytes, [b"[".to_vec(), bytes.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(", ").into_bytes(), b"]".to_vec()].concat(), Dec::Hex),
            5 => (&Sh::Seq(&Sh::Bool), [b"[".to_vec(), (0..n).map(|i| if i % 2 == 0 { "true" } else { "false" }).collect::<Vec<_>>().join(",").into_bytes(), b"]".to_vec()].concat(), Dec::Nope),
            6 => (&Sh::Map(&Sh::BStr, &Sh::Unit), [b"{".to_vec(), (0..n).map(|i| format!("\"k{i}\":null")).collect::<Vec<_>>().join(",").into_bytes(), b"}".to_vec()].concat(), Dec::Nope),
            _ => (&Sh::Struct(SKIPS), [b"{\"a\":1,\"zz\":[\"".to_vec(), b"\\\\]".repeat(n), b"\"],\"b\":null}".to_vec()].concat(), Dec::Nope),
        };
        c.state(&(n, k));
        j14_check(c, sh, &doc, dec)?;
        j14_check(c, &Sh::Ign, &doc, Dec::Nope)
    })
}
/// every byte inserted anywhere in a message
fn insertions(t: bool) -> Space {
    let shapes = Arc::new(if t { catalog(2, &leaves_small()[..], &[0, 2, 3, 5, 7, 8]) } else { p_mp::small_shapes() });
    space("insertions", format!("every serialized message of {} shapes in 3 flavours with each of the 256 bytes inserted at every position", shapes.len()), move |c| {
        let i = c.choose(shapes.len());
        if matches!(shapes[i], Sh::Any | Sh::Ign) || has(shapes[i], &|s| matches!(s, Sh::Any | Sh::Ign)) { return Ok(()) }
        let v = gen(c, shapes[i], 0, 2);
        let fl = *c.pick(&FLS);
        let doc = mser_ok(fl, shapes[i], &v)?;
        let p = c.num(0, doc.len());
        for x in 0..=255u8 { mjudge(shapes[i], &[&doc[..p], &[x], &doc[p..]].concat()).map_err(|e| Bad { msg: format!("{} (0x{x:02x} inserted at {p} of [{}])", e.msg, hex(&doc)), key: e.key })?; }
        c.bulk(256);
        Ok(())
    })
}

/// many messages in a row, and long first messages in front of others
fn long_streams(t: bool) -> Space {
    let msgs = Arc::new(p_mp::m08_msgs());
    let max = if t { 400 } else { 120 };
    let lens: &'static [usize] = &[0, 1, 15, 16, 17, 31, 32, 33, 127, 128, 255, 256, 257, 65535, 65536];
    space("long-streams", format!("streams of every length 1..={max} starting at each kind and stepping through the kinds by 1, 5 or 7, and streams opened by a string, binary, array or map of {} sizes; read by length, by tail, by skipping and through one decoder", lens.len()), move |c| {
        let long = c.flag();
        let mut items: Vec<(S, V)> = vec![];
        if long {
            let n = *c.pick(lens);
            items.push(match c.choose(4) { 0 => (&Sh::BStr, V::Str("x".repeat(n))), 1 => (&Sh::Bytes, V::Bytes(vec![0x91; n])), 2 => (&Sh::Seq(&Sh::Bool), V::Seq(vec![V::Bool(true); n])), _ => (&Sh::Map(&Sh::Bool, &Sh::Unit), V::Map(vec![(V::Bool(true), V::Unit); n])) });
            let i = c.choose(msgs.len());
            items.extend([msgs[i].clone(), items[0].clone(), msgs[(i + 1) % msgs.len()].clone()]);
        } else {
            let n = c.num(1, max);
            let (s, st) = (c.choose(msgs.len()), *c.pick(&[1usize, 5, 7]));
            items.extend((0..n).map(|k| msgs[(s + k * st) % msgs.len()].clone()));
        }
        let fl = *c.pick(&FLS);
        let mut doc = vec![];
        let mut ends = vec![];
        for (sh, v) in &items { doc.extend(mser_ok(fl, sh, v)?); ends.push(doc.len()) }
        c.state(&h64(&doc));
        c.sample(|| format!("{} messages, {} bytes", items.len(), doc.len()));
        doc.extend_from_slice(&[0xc1, 0x93]);
        p_mp::stream_check(&items, &doc, &ends)
    })
}
