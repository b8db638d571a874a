//! Bounded universes of shapes and values.
use crate::engine::Ctx;
use crate::shape::*;

pub fn leaves() -> Vec<S> {
    let mut v: Vec<S> = vec![&Sh::Unit, &Sh::UnitStruct, &Sh::Bool];
    for t in ITS { v.push(leak(Sh::Int(t))) }
    v.extend([&Sh::F32 as S, &Sh::F64, &Sh::Char, &Sh::Str, &Sh::BStr, &Sh::Bytes, &Sh::ByteBuf, &Sh::Disp]);
    v
}
/// a smaller set of leaves: one per wire kind
pub fn leaves_small() -> Vec<S> {
    vec![&Sh::Unit, &Sh::Bool, leak(Sh::Int(IT::I16)), leak(Sh::Int(IT::U64)), &Sh::F64, &Sh::Char, &Sh::BStr, &Sh::Bytes, &Sh::Disp]
}
pub const U8S: S = &Sh::Int(IT::U8);
pub const I32S: S = &Sh::Int(IT::I32);
pub const NWRAP: usize = 10;
/// k-th container around `c`; siblings of fixed kinds make loss of synchronisation visible
pub fn wrap(k: usize, c: S) -> S {
    leak(match k {
        0 => Sh::Opt(c),
        1 => Sh::New(c),
        2 => Sh::Seq(c),
        3 => Sh::Tup(leakv(vec![c, U8S])),
        4 => Sh::TupS(leakv(vec![U8S, c, &Sh::Bool])),
        5 => Sh::Map(&Sh::BStr, c),
        6 => Sh::Map(I32S, c),
        7 => Sh::Struct(leak(SD { name: "S", fields: &["a", "b\"q", "cc"], shapes: leakv(vec![c, &Sh::BStr, leak(Sh::Opt(U8S))]) })),
        8 => Sh::Enum(leak(ED { name: "E", names: &["Un", "Ne\\w", "Tu", "St", "Ze"], vars: leakv(vec![
            Var::Unit, Var::New(c), Var::Tup(leakv(vec![c, U8S])), Var::Struct(&["x", "yé"], leakv(vec![c, &Sh::Bool])), Var::Struct(&[], &[])]) })),
        9 => Sh::Tup(&[]),
        _ => unreachable!(),
    })
}
pub fn catalog(depth: usize, base: &[S], inner: &[usize]) -> Vec<S> {
    let mut all: Vec<S> = base.to_vec();
    let mut last: Vec<S> = base.to_vec();
    for d in 0..depth {
        let mut next = vec![];
        let ks: Vec<usize> = if d + 1 == depth { (0..NWRAP).collect() } else { inner.to_vec() };
        for &k in &ks {
            if k == 9 { if d + 1 == depth { next.push(wrap(9, &Sh::Unit)) } continue }
            for c in &last { next.push(wrap(k, c)) }
        }
        all.extend(&next);
        last = next;
    }
    all
}

pub const STR1: &[&str] = &["", "a\"\\\n", "é😀z"];
pub const STR2: &[&str] = &["", "a", "\"", "\\", "\u{0}", "\u{1f}\u{8}", "\u{7f}é", "\u{2028}😀", "a\nb\tc", "|x|", "null", "0123456789abcdef0123456789abcdef"];
fn bytes1() -> Vec<Vec<u8>> { vec![vec![], vec![0x22, 0xff], vec![0, 1, 0x5c, 9, 200]] }
pub fn leaf_vals(sh: S, lvl: usize) -> Vec<V> {
    let mut v = match sh {
        Sh::Unit | Sh::UnitStruct => vec![V::Unit],
        Sh::Bool => vec![V::Bool(true), V::Bool(false)],
        Sh::Int(t) => {
            let (lo, hi) = (t.min(), t.max());
            let mut v = vec![hi, lo, 7];
            if lvl >= 2 { v.extend([0, 1, 127, 100, hi - 1, lo + 1]); if t.signed() { v.extend([-1, -32, -33]) } if hi > 1000 { v.extend([128, 255, 256, 1000]) } }
            v.dedup();
            v.into_iter().map(V::Int).collect()
        }
        Sh::F32 => { let mut v = vec![1.5f32, -0.1, f32::NAN]; if lvl >= 2 { v.extend([0.0, -0.0, f32::MAX, f32::MIN_POSITIVE, f32::INFINITY, 1e21, 16777216.0]) } v.into_iter().map(V::f32).collect() }
        Sh::F64 => { let mut v = vec![-2.5f64, 0.1, f64::INFINITY]; if lvl >= 2 { v.extend([0.0, -0.0, 1e300, 5e-324, f64::NAN, 1e21, 1e20, 9007199254740993.0, f64::MAX]) } v.into_iter().map(V::f64).collect() }
        Sh::Char => { let mut v = vec!['x', '"', '😀']; if lvl >= 2 { v.extend(['\0', '\u{7f}', 'é', '\u{ffff}', '\n', '\\']) } v.into_iter().map(V::Char).collect() }
        Sh::Str | Sh::BStr | Sh::Disp => (if lvl >= 2 { STR2 } else { STR1 }).iter().map(|s| V::s(s)).collect(),
        Sh::Bytes | Sh::ByteBuf => { let mut v = bytes1(); if lvl >= 2 { v.extend([vec![0x7f], vec![1, 2, 3], vec![255; 4], (0..=255u8).collect()]) } v.into_iter().map(V::Bytes).collect() }
        _ => unreachable!("not a leaf: {sh:?}"),
    };
    if lvl == 0 { v.truncate(2); if v.len() == 2 && !matches!(sh, Sh::Bool) { v.remove(0); } v.truncate(1) }
    v
}
/// All values of the shape within the bound (`lvl` 0: one per leaf, 1: about three, 2: many).
pub fn gen(c: &mut Ctx, sh: S, lvl: usize, width: usize) -> V {
    match sh {
        Sh::Opt(s) => if c.flag() { V::Some(Box::new(gen(c, s, lvl, width))) } else { V::None },
        Sh::New(s) => V::New(Box::new(gen(c, s, lvl, width))),
        Sh::Seq(s) => { let n = c.num(0, width); V::Seq((0..n).map(|i| gen(c, s, if i == 0 { lvl } else { 0 }, if i == 0 { width } else { 1 })).collect()) }
        Sh::Tup(ss) | Sh::TupS(ss) => V::Seq(ss.iter().map(|s| gen_sib(c, s, lvl, width, ss[0])).collect()),
        Sh::Map(k, s) => {
            let n = c.num(0, width);
            V::Map((0..n).map(|i| (key_val(k, i), gen(c, s, if i == 0 { lvl } else { 0 }, if i == 0 { width } else { 1 }))).collect())
        }
        Sh::Struct(d) => V::Struct(d.shapes.iter().map(|s| Some(gen_sib(c, s, lvl, width, d.shapes[0]))).collect()),
        Sh::Enum(d) => {
            let i = c.choose(d.vars.len());
            V::Var(i, Box::new(match &d.vars[i] {
                Var::Unit => V::Unit,
                Var::New(s) => gen(c, s, lvl, width),
                Var::Tup(ss) => V::Seq(ss.iter().map(|s| gen_sib(c, s, lvl, width, ss[0])).collect()),
                Var::Struct(_, ss) => V::Struct(ss.iter().map(|s| Some(gen_sib(c, s, lvl, width, ss[0]))).collect()),
            }))
        }
        _ => { let v = leaf_vals(sh, lvl); let i = c.choose(v.len()); v.into_iter().nth(i).unwrap() }
    }
}
/// fixed siblings take one value unless they are the subject
fn gen_sib(c: &mut Ctx, s: S, lvl: usize, width: usize, subject: S) -> V {
    let l = if std::ptr::eq(s, subject) || !matches!(s, Sh::Int(IT::U8) | Sh::Bool | Sh::BStr | Sh::Opt(Sh::Int(IT::U8))) { lvl } else { 0 };
    if l == 0 { if let Sh::Opt(i) = s { return V::Some(Box::new(gen(c, i, 0, 1))) } }
    gen(c, s, l, width)
}
pub fn key_val(k: S, i: usize) -> V {
    match k {
        Sh::Int(_) => V::Int([7, 5][i % 2]),
        Sh::BStr | Sh::Str | Sh::Disp => V::s(["k\"", "é"][i % 2]),
        Sh::Bool => V::Bool(i % 2 == 0),
        Sh::Char => V::Char(['"', 'c'][i % 2]),
        Sh::New(s) => V::New(Box::new(key_val(s, i))),
        Sh::Enum(d) => { let us: Vec<usize> = (0..d.vars.len()).filter(|&i| matches!(d.vars[i], Var::Unit)).collect(); V::Var(us[i % us.len()], Box::new(V::Unit)) }
        _ => unreachable!(),
    }
}

pub fn has(sh: S, f: &dyn Fn(S) -> bool) -> bool {
    f(sh) || match sh {
        Sh::Opt(s) | Sh::New(s) | Sh::Seq(s) => has(s, f),
        Sh::Tup(ss) | Sh::TupS(ss) => ss.iter().any(|s| has(s, f)),
        Sh::Map(a, b) => has(a, f) || has(b, f),
        Sh::Struct(d) => d.shapes.iter().any(|s| has(s, f)),
        Sh::Enum(d) => d.vars.iter().any(|v| match v { Var::Unit => false, Var::New(s) => has(s, f), Var::Tup(ss) => ss.iter().any(|s| has(s, f)), Var::Struct(_, ss) => ss.iter().any(|s| has(s, f)) }),
        _ => false,
    }
}

/// does this value serialize as null/nil?
fn nullish(sh: S, v: &V, json: bool) -> bool {
    match (sh, v) {
        (Sh::Unit | Sh::UnitStruct, _) | (_, V::None) => true,
        (Sh::F32, V::F32(b)) => json && !f32::from_bits(*b).is_finite(),
        (Sh::F64, V::F64(b)) => json && !f64::from_bits(*b).is_finite(),
        (Sh::New(s), V::New(x)) | (Sh::Opt(s), V::Some(x)) => nullish(s, x, json),
        _ => false,
    }
}
/// The value a lossless decoder gives back: the documented ambiguities resolved, fragments joined.
pub fn canon(sh: S, v: &V, json: bool) -> V {
    match (sh, v) {
        (Sh::Opt(s), V::Some(x)) => if nullish(s, x, json) { V::None } else { V::Some(Box::new(canon(s, x, json))) },
        (Sh::New(s), V::New(x)) => V::New(Box::new(canon(s, x, json))),
        (Sh::Seq(s), V::Seq(xs)) => V::Seq(xs.iter().map(|x| canon(s, x, json)).collect()),
        (Sh::Tup(ss) | Sh::TupS(ss), V::Seq(xs)) => V::Seq(ss.iter().zip(xs).map(|(s, x)| canon(s, x, json)).collect()),
        (Sh::Map(k, s), V::Map(m)) => V::Map(m.iter().map(|(a, b)| (canon(k, a, json), canon(s, b, json))).collect()),
        (Sh::Struct(d), V::Struct(f)) => canon_fields(d.shapes, f, json),
        (Sh::Enum(d), V::Var(i, x)) => V::Var(*i, Box::new(match (&d.vars[*i], &**x) {
            (Var::New(s), x) => canon(s, x, json),
            (Var::Tup(ss), V::Seq(xs)) => V::Seq(ss.iter().zip(xs).map(|(s, x)| canon(s, x, json)).collect()),
            (Var::Struct(_, ss), V::Struct(f)) => canon_fields(ss, f, json),
            _ => V::Unit,
        })),
        (Sh::Disp, V::Str(s)) => V::Str(s.replace('|', "")),
        (Sh::F32, V::F32(b)) if json && !f32::from_bits(*b).is_finite() => V::f32(f32::NAN),
        (Sh::F64, V::F64(b)) if json && !f64::from_bits(*b).is_finite() => V::f64(f64::NAN),
        _ => v.clone(),
    }
}
fn canon_fields(ss: &[S], f: &[Option<V>], json: bool) -> V {
    V::Struct(ss.iter().zip(f).map(|(s, x)| Some(match x { Some(x) => canon(s, x, json), None => V::None })).collect())
}
/// maps keyed by everything both formats take as a key
pub fn keyed() -> Vec<S> {
    let e = leak(Sh::Enum(leak(ED { name: "K", names: &["A", "b\"q", "\u{e9}"], vars: leakv(vec![Var::Unit, Var::New(U8S), Var::Unit]) })));
    let mut k: Vec<S> = vec![&Sh::Bool, &Sh::Char, &Sh::BStr, &Sh::Disp, e, &Sh::Str];
    for t in ITS { k.push(leak(Sh::Int(t))) }
    let n: Vec<S> = k.iter().map(|k| leak(Sh::New(k)) as S).collect();
    k.extend(n);
    k.iter().flat_map(|k| [leak(Sh::Map(k, U8S)) as S, leak(Sh::Map(k, leak(Sh::Map(k, &Sh::Unit))))]).collect()
}
