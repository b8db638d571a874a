//! Property spaces for the MessagePack format.
use crate::engine::*;
use crate::gen::*;
use crate::jref::E;
use crate::mref::{self, brief, hex, match_out, Fl, FLS};
use crate::p_json::{b, cat, chunked, edges, f32_grid, f64_grid, it, memo, skip_value, wide_shapes, wide_value, Hinted, INTS, WRAPS};
use crate::run::*;
use crate::shape::*;
use crate::{ensure, fail, mem};
use serde::ser::{Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer};
use ser_write_msgpack as mp;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::Arc;

pub fn spaces(prop: &str, t: bool) -> Vec<Space> {
    match prop {
        "M01" => m01(t), "M02" => m02(t), "M03" => m03(t), "M04" => m04(t), "M05" => m05(t), "M06" => m06(t), "M07" => m07(t), "M08" => m08(t),
        "M09" => m09(t), "M10" => m10(t), "M11" => m11(t), "M12" => crate::p_cursor::m12(t),
        _ => vec![],
    }
}

// ------------------------------------------------------------------ shared: shapes and documents
/// one leading byte of every class and width
pub fn lead_alphabet() -> Vec<u8> {
    vec![0x00, 0x01, 0x02, 0x05, 0x1f, 0x20, 0x61, 0x7f, 0x80, 0x81, 0x82, 0x8f, 0x90, 0x91, 0x92, 0x93, 0x9f, 0xa0, 0xa1, 0xa2, 0xa4, 0xbf, 0xc0, 0xc1, 0xc2, 0xc3, 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xcb,
        0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd1, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xe0, 0xff]
}
/// target types used by the byte-level searches
pub fn fuzz_shapes() -> Vec<S> {
    let mut v = leaves();
    v.extend([&Sh::Any as S, &Sh::Ign]);
    let o: S = leak(Sh::Opt(U8S));
    v.extend([o, leak(Sh::New(&Sh::BStr)), leak(Sh::Seq(U8S)), leak(Sh::Seq(&Sh::BStr)), leak(Sh::Seq(leak(Sh::Seq(&Sh::Unit)))), leak(Sh::Map(U8S, U8S)), leak(Sh::Map(&Sh::BStr, &Sh::Any)),
        &Sh::Tup(&[]), leak(Sh::Tup(leakv(vec![U8S, &Sh::Ign, &Sh::BStr]))), leak(Sh::Map(&Sh::Ign, &Sh::Ign)), leak(Sh::Seq(&Sh::Bytes)),
        wrap(7, U8S), wrap(7, o), wrap(8, U8S), wrap(8, &Sh::Unit), leak(Sh::Seq(wrap(8, U8S))), wrap(7, &Sh::Any), leak(Sh::Opt(leak(Sh::Seq(wrap(7, &Sh::Bytes)))))]);
    v
}
pub fn small_shapes() -> Vec<S> {
    let mut v = catalog(1, &leaves(), WRAPS);
    v.extend([leak(Sh::Seq(&Sh::Any)) as S, &Sh::Any, &Sh::Ign, leak(Sh::Tup(leakv(vec![&Sh::Ign as S, U8S]))), wrap(7, &Sh::Any), wrap(7, &Sh::Ign)]);
    v
}
/// wide struct / enum types
fn names(n: usize, pre: &str) -> &'static [&'static str] { leakv((0..n).map(|i| &*Box::leak(format!("{pre}{i}").into_boxed_str())).collect()) }
const WIDE_FIELDS: &[usize] = &[0, 1, 2, 14, 15, 16, 17, 31, 32, 127, 128, 129, 255, 256, 257, 300, 65535, 65536, 65537];
pub fn wide_struct(n: usize) -> S {
    memo_n(n, 0, |n| {
        let (f, s) = (names(n, "f"), leakv(vec![&Sh::Bool as S; n]));
        leak(Sh::Tup(leakv(vec![leak(Sh::Struct(leak(SD { name: "W", fields: f, shapes: s }))) as S, U8S])))
    })
}
pub fn wide_struct_variant(n: usize) -> S {
    memo_n(n, 1, |n| {
        let (f, s) = (names(n, "f"), leakv(vec![&Sh::Bool as S; n]));
        leak(Sh::Enum(leak(ED { name: "E", names: &["V"], vars: leakv(vec![Var::Struct(f, s)]) })))
    })
}
pub fn wide_tuple(n: usize, k: usize) -> S {
    memo_n(n, 2 + k, |n| {
        let ss = leakv(vec![U8S; n]);
        match k { 0 => leak(Sh::Tup(ss)), 1 => leak(Sh::TupS(ss)), _ => leak(Sh::Enum(leak(ED { name: "E", names: &["V"], vars: leakv(vec![Var::Tup(ss)]) }))) }
    })
}
fn memo_n(n: usize, tag: usize, f: impl Fn(usize) -> S) -> S {
    static KEYS: std::sync::Mutex<BTreeMap<(usize, usize), S>> = std::sync::Mutex::new(BTreeMap::new());
    let mut g = KEYS.lock().unwrap();
    *g.entry((n, tag)).or_insert_with(|| f(n))
}
pub fn wide_enum() -> S {
    memo_n(0, 9, |_| {
        let n = 65540;
        let vars = (0..n).map(|i| match i % 4 { 0 => Var::Unit, 1 => Var::New(U8S), 2 => Var::Tup(leakv(vec![U8S as S, U8S])), _ => Var::Struct(&["x"], leakv(vec![U8S as S])) }).collect();
        leak(Sh::Enum(leak(ED { name: "E", names: names(n, "v"), vars: leakv(vars) })))
    })
}
pub fn wide_variant(i: usize) -> V { V::Var(i, Box::new(match i % 4 { 0 => V::Unit, 1 => V::Int(1), 2 => V::Seq(vec![V::Int(1), V::Int(200)]), _ => V::Struct(vec![Some(V::Int(9))]) })) }
const LADDER: &[(usize, usize)] = &[(0, 70), (120, 140), (250, 260), (65530, 65540), (131072, 131072)];
fn ladder() -> Vec<usize> { LADDER.iter().flat_map(|(a, b)| *a..=*b).collect() }
/// a value with length `n` of each length-carrying kind
pub fn long_value(k: usize, n: usize) -> (S, V) {
    let s = |n: usize| -> String { (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect() };
    match k {
        0 => (&Sh::BStr, V::Str(s(n))),
        1 => (&Sh::Str, V::Str(s(n))),
        2 => (&Sh::Bytes, V::Bytes((0..n).map(|i| i as u8).collect())),
        3 => (&Sh::ByteBuf, V::Bytes((0..n).map(|i| !(i as u8)).collect())),
        4 => (&Sh::Disp, V::Str(s(n).as_bytes().chunks(7.max(n / 40)).map(|c| std::str::from_utf8(c).unwrap().to_string()).collect::<Vec<_>>().join("|"))),
        _ => { let w = wides()[k - 5]; (w, wide_value(w, n)) }
    }
}
pub const NLONG: usize = 9;
fn wides() -> Vec<S> { static W: std::sync::OnceLock<Vec<S>> = std::sync::OnceLock::new(); W.get_or_init(wide_shapes).clone() }

// ------------------------------------------------------------------ M01
/// the vector functions must agree with the writer functions
fn agree(fl: Fl, x: &(impl Serialize + ?Sized), out: &[u8]) -> R {
    #[cfg(feature = "heap")]
    {
        let v = imp(|| match fl { Fl::Compact => mp::to_vec_compact(x), Fl::Idx => mp::to_vec(x), Fl::Named => mp::to_vec_named(x) })?;
        match v { Ok(v) => ensure!(v == out, "to_vec gives [{}], to_writer [{}]", hex(&v), hex(out)), Err(e) => fail!("to_vec failed with {e:?}") }
    }
    let _ = (fl, x, out);
    Ok(())
}
pub fn m01_check(sh: S, v: &V, fl: Fl) -> Result<Vec<u8>, Bad> {
    let out = mser_ok(fl, sh, v)?;
    match_out(sh, v, fl, &out).map_err(b)?;
    Ok(out)
}
fn all_flavours(c: &mut Ctx, sh: S, v: &V) -> R {
    let fl = *c.pick(&FLS);
    let out = m01_check(sh, v, fl)?;
    agree(fl, &SV(sh, v), &out)
}
/// every value class that the two serialization properties share; `check` gets shape, value and flavour
fn value_spaces(t: bool, check: fn(&mut Ctx, S, &V) -> R, one: fn(S, &V, Fl) -> R) -> Vec<Space> {
    let shapes = cat(t);
    let n = shapes.len();
    let deep = Arc::new(catalog(1, &leaves(), WRAPS));
    let lens = Arc::new(ladder());
    let step = if t { 1 } else { 1 };
    let f32s = Arc::new(f32_grid());
    let f64s = Arc::new(f64_grid());
    let eds = Arc::new(edges());
    let full16 = 65536 / 1024;
    vec![
        space("catalog", format!("{n} shapes (every wire kind under every container, nested), all values within width 2, 3 flavours"), move |c| {
            let i = c.choose(shapes.len());
            let v = gen(c, shapes[i], (t as usize) + (i < 220) as usize, 2);
            c.state(&(i, &v)); c.sample(|| brief(&v));
            check(c, shapes[i], &v)
        }),
        space("leaves", "every leaf and single container with the extended value lists, 3 flavours", move |c| {
            let i = c.choose(deep.len());
            let v = gen(c, deep[i], 2, 1);
            c.state(&(i, &v));
            check(c, deep[i], &v)
        }),
        space("integers", "all values of the 8- and 16-bit types and of the first 2^16 values of wider ones, plus all power-of-two and power-of-ten edges, bare and as element", move |c| {
            let k = c.choose(8);
            let (sh, ty) = (&INTS[k], it(&INTS[k]));
            let ch = c.choose(full16 + 1);
            let vals: Vec<i128> = if ch == full16 { eds.iter().copied().filter(|n| ty.has(*n)).collect() } else { (0..1024).map(|d| (ch * 1024 + d) as i128 - if ty.signed() { 32768 } else { 0 }).filter(|n| ty.has(*n)).collect() };
            let tup: S = memo(sh, 20, |s| leak(Sh::Tup(leakv(vec![s, U8S]))));
            for n in &vals {
                one(sh, &V::Int(*n), FLS[(*n as usize) % 3])?;
                one(tup, &V::Seq(vec![V::Int(*n), V::Int(5)]), Fl::Idx)?;
            }
            c.bulk(2 * vals.len() as u64);
            Ok(())
        }),
        space("floats", format!("{} f32 and {} f64 bit patterns: every exponent with structured mantissas, infinities and NaN payloads", f32s.len(), f64s.len()), move |c| {
            let w = c.flag();
            let total = if w { f64s.len() } else { f32s.len() };
            for i in chunked(c, total, 4096) {
                if w { one(&Sh::F64, &V::F64(f64s[i]), Fl::Idx)? } else { one(&Sh::F32, &V::F32(f32s[i]), Fl::Named)? }
            }
            c.bulk(4096);
            Ok(())
        }),
        space("chars", "every Unicode scalar value as char, string and map key", move |c| {
            let key: S = &Sh::Map(&Sh::Char, &Sh::BStr);
            let r = chunked(c, 0x110000, 4096);
            let mut n = 0;
            for ch in r.filter_map(|x| char::from_u32(x as u32)) {
                one(&Sh::Char, &V::Char(ch), Fl::Compact)?;
                one(key, &V::Map(vec![(V::Char(ch), V::Str(format!("{ch}{ch}")))]), Fl::Idx)?;
                n += 2;
            }
            c.bulk(n);
            Ok(())
        }),
        space("lengths", format!("strings, byte arrays, formatted values, sequences and maps of each length in {LADDER:?}"), move |c| {
            let k = c.choose(NLONG);
            let n = *c.pick(&lens);
            let (sh, v) = long_value(k, n);
            c.state(&(k, n));
            for fl in FLS.iter().step_by(if n > 1000 { 2 } else { step }) { one(sh, &v, *fl)? }
            Ok(())
        }),
        space("wide-structs", format!("structs and struct variants with {WIDE_FIELDS:?} fields, 3 flavours"), move |c| {
            let n = *c.pick(WIDE_FIELDS);
            let var = c.flag();
            let fl = *c.pick(&FLS);
            let fields = V::Struct((0..n).map(|i| Some(V::Bool(i % 3 == 1))).collect());
            c.state(&(n, var, fl));
            if var { one(wide_struct_variant(n), &V::Var(0, Box::new(fields)), fl) } else { one(wide_struct(n), &V::Seq(vec![fields, V::Int(77)]), fl) }
        }),
        space("wide-enums", "variant indexes up to 65539 of every kind, around each integer width, 3 flavours", move |c| {
            let i = [0usize, 1, 2, 3, 124, 125, 126, 127, 128, 129, 130, 131, 252, 253, 254, 255, 256, 257, 258, 259, 1000, 65532, 65533, 65534, 65535, 65536, 65537, 65538, 65539][c.choose(29)];
            c.state(&i);
            check(c, wide_enum(), &wide_variant(i))
        }),
        space("tuples", "tuples, tuple structs and tuple variants of 0..=40 and boundary arities", move |c| {
            let n = c.choose(43);
            let n = [n, 255, 256, 65536][n.saturating_sub(39).min(3)];
            let k = c.choose(3);
            let sh = wide_tuple(n, k);
            let xs = V::Seq((0..n).map(|i| V::Int(i as i128 * 7 % 256)).collect());
            c.state(&(n, k));
            check(c, sh, &if k == 2 { V::Var(0, Box::new(xs)) } else { xs })
        }),
    ]
}
fn m01(t: bool) -> Vec<Space> {
    let mut v = value_spaces(t, all_flavours, |sh, v, fl| m01_check(sh, v, fl).map(|_| ()));
    v.push(wide_skips());
    v.push(space("serializer-object", "two values in a row through each serializer type's own interface (new, writer, writer_ref, into_inner)", |c| {
        let sh = small_shapes();
        let i = c.choose(sh.len());
        if has(sh[i], &|s| matches!(s, Sh::Any | Sh::Ign)) { return Ok(()) }
        let v = gen(c, sh[i], 0, 1);
        let fl = *c.pick(&FLS);
        let one = mser_ok(fl, sh[i], &v)?;
        let mut sink = Sink::default();
        let x = SV(sh[i], &v);
        macro_rules! go { ($t:ident) => {{
            let n = imp(|| { let mut s = mp::ser::$t::new(&mut sink); x.serialize(&mut s).unwrap(); let n = s.writer_ref().buf.len(); s.writer().buf.push(0xc1); x.serialize(&mut s).unwrap(); s.into_inner().buf.push(0xc1); n })?;
            ensure!(n == one.len(), "writer_ref sees {n} bytes after one message of {}", one.len());
        }} }
        match fl { Fl::Compact => go!(CompactSerializer), Fl::Idx => go!(StructMapIdxSerializer), Fl::Named => go!(StructMapStrSerializer) }
        let want = [&one[..], &[0xc1], &one[..], &[0xc1]].concat();
        ensure!(sink.buf == want, "two messages through one serializer give [{}], want [{}]", hex(&sink.buf), hex(&want));
        c.state(&(i, &v, fl));
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------ M02
fn same(a: &V, b: &V) -> bool { a == b || veq(a, b, false) }
pub fn m02_check(sh: S, v: &V, fl: Fl) -> R {
    inj::arm(0, false);
    let mut out = mser_ok(fl, sh, v)?;
    let n = out.len();
    let want = canon(sh, v, false);
    let cx = |o: &[u8]| format!("for {} as {sh:?} ({fl:?}) from [{}]", brief(v), hex(o));
    for tail in [&[][..], &[0xc1], &[0x93, 0xa5]] {
        out.truncate(n);
        out.extend_from_slice(tail);
        if n > 1000 && !tail.is_empty() { break }
        let o = mdec(sh, &out)?;
        match o.res {
            Ok(g) => {
                ensure!(same(&want, &g), "round trip gives {}, want {} {}", brief(&g), brief(&want), cx(&out));
                ensure!(o.used == n, "consumed {} of {n} {}", o.used, cx(&out));
            }
            Err(e) => fail!("round trip rejected with {e:?} {}", cx(&out)),
        }
    }
    crate::p_json::human_agrees(sh, v)
}
/// floats must come back bit for bit
fn m02_one(sh: S, v: &V, fl: Fl) -> R {
    m02_check(sh, v, fl)?;
    if matches!(sh, Sh::F32 | Sh::F64) {
        let out = mser_ok(fl, sh, v)?;
        let g = mdec(sh, &out)?.res.map_err(|e| b(format!("{e:?}")))?;
        ensure!(g == *v, "float bits {v:?} come back as {g:?}");
    }
    Ok(())
}
fn m02(t: bool) -> Vec<Space> {
    let mut v = value_spaces(t, |c, sh, v| { let fl = *c.pick(&FLS); m02_one(sh, v, fl) }, m02_one);
    #[cfg(feature = "realm")]
    v.extend(crate::real::msgpack_spaces(t));
    v
}

// ------------------------------------------------------------------ width-choosing encoder
/// Encodes a value using any legal width of every header and any legal form of structs and enums.
/// `pick(n)` selects among n alternatives; 0 is always the minimal/default one.
pub struct Enc2<'a> { pub out: Vec<u8>, pub pick: &'a mut dyn FnMut(usize) -> usize, pub forms: bool }
impl Enc2<'_> {
    fn be(&mut self, c: u8, n: u64, w: usize) { self.out.push(c); self.out.extend_from_slice(&n.to_be_bytes()[8 - w..]) }
    pub fn int(&mut self, n: i128) {
        let mut o: Vec<(u8, usize)> = vec![];
        if (-32..=127).contains(&n) { o.push((0, 0)) }
        for (k, bits) in [8u32, 16, 32, 64].into_iter().enumerate() {
            if n >= 0 && n < 1i128 << bits { o.push((0xcc + k as u8, 1 << k)) }
            if n >= -(1i128 << (bits - 1)) && n < 1i128 << (bits - 1) { o.push((0xd0 + k as u8, 1 << k)) }
        }
        let k = (self.pick)(o.len());
        match o[k] { (_, 0) => self.out.push(n as u8), (c, w) => self.be(c, n as u64, w) }
    }
    /// identifiers: unsigned encodings only
    fn idx(&mut self, n: usize) {
        let k = (self.pick)(5);
        let min = match n { 0..=255 => 1, 256..=65535 => 2, _ => 3 };
        match k { 0 if n < 128 => self.out.push(n as u8), 0 => self.be(0xcf, n as u64, 8), k => { let w = k.max(min); self.be(0xcb + w as u8, n as u64, 1 << (w - 1)) } }
    }
    fn len(&mut self, n: usize, fix: Option<(u8, usize)>, w: &[(u8, usize)]) {
        let mut o: Vec<(u8, usize)> = vec![];
        if let Some((c, max)) = fix { if n <= max { o.push((c | n as u8, 0)) } }
        for (c, b) in w { if *b == 4 || n < 1 << (8 * b) { o.push((*c, *b)) } }
        let k = (self.pick)(o.len());
        match o[k] { (c, 0) => self.out.push(c), (c, b) => self.be(c, n as u64, b) }
    }
    pub fn text(&mut self, s: &[u8]) { self.len(s.len(), Some((0xa0, 31)), &[(0xd9, 1), (0xda, 2), (0xdb, 4)]); self.out.extend_from_slice(s) }
    pub fn bin(&mut self, s: &[u8]) { self.len(s.len(), None, &[(0xc4, 1), (0xc5, 2), (0xc6, 4)]); self.out.extend_from_slice(s) }
    pub fn arr(&mut self, n: usize) { self.len(n, Some((0x90, 15)), &[(0xdc, 2), (0xdd, 4)]) }
    pub fn map(&mut self, n: usize) { self.len(n, Some((0x80, 15)), &[(0xde, 2), (0xdf, 4)]) }
    fn f64(&mut self, bits: u64) {
        let x = f64::from_bits(bits);
        let small = (x as f32) as f64 == x;
        if small && (self.pick)(2) == 1 { self.be(0xca, (x as f32).to_bits() as u64, 4) } else { self.be(0xcb, bits, 8) }
    }
    fn f32(&mut self, bits: u32) {
        if (self.pick)(2) == 1 { self.be(0xcb, (f32::from_bits(bits) as f64).to_bits(), 8) } else { self.be(0xca, bits as u64, 4) }
    }
    fn fields(&mut self, names: &[&str], ss: &[S], fs: &[Option<V>]) {
        let full = fs.iter().all(|f| f.is_some());
        let n = fs.len();
        // 0: array, 1: map by index, 2: by name, 3: mixed, 4: reversed by name, 5: rotated by index,
        // 6..8: unknown entry first / middle / last (unknown name), 9..: unknown index
        let form = if !self.forms { 0 } else { (self.pick)(12) };
        if form == 0 && full {
            self.arr(n);
            for k in 0..n { self.val(ss[k], fs[k].as_ref().unwrap()) }
            return
        }
        let mut order: Vec<usize> = (0..n).filter(|k| fs[*k].is_some()).collect();
        if form == 4 { order.reverse() }
        if form == 5 && !order.is_empty() { order.rotate_left(1) }
        let mut items: Vec<Option<usize>> = order.into_iter().map(Some).collect();
        let m = items.len();
        match form { 6 | 9 => items.insert(0, None), 7 | 10 => items.insert(m / 2, None), 8 | 11 => items.push(None), _ => {} }
        self.map(items.len());
        for (j, x) in items.iter().enumerate() {
            match x {
                Some(k) => {
                    let by_name = match form { 1 | 5 | 9 | 10 | 11 => false, 2 | 4 | 6 | 7 | 8 => true, _ => j % 2 == 0 };
                    if by_name { self.text(names[*k].as_bytes()) } else { self.idx(*k) }
                    self.val(ss[*k], fs[*k].as_ref().unwrap());
                }
                None => {
                    if form < 9 { self.text(b"zz?") } else { self.idx(ss.len() + [99, 300, 70000][form - 9]) }
                    let junk: &[&[u8]] = &[&[0x92, 0xc0, 0x81, 0xa1, 0x61, 0xd4, 0x05, 0xff], &[0xc0], &[0xd9, 2, 0xff, 0xfe], &[0xc7, 3, 1, 0, 0, 0], &[0xdc, 0, 2, 0xcb, 0, 0, 0, 0, 0, 0, 0, 0, 0x80]];
                    let k = (self.pick)(junk.len());
                    self.out.extend_from_slice(junk[k]);
                }
            }
        }
    }
    pub fn val(&mut self, sh: S, v: &V) {
        match (sh, v) {
            (Sh::Unit | Sh::UnitStruct, _) | (_, V::None) => self.out.push(0xc0),
            (_, V::Bool(x)) => self.out.push(0xc2 + *x as u8),
            (_, V::Int(n)) => self.int(*n),
            (_, V::F32(x)) => self.f32(*x),
            (_, V::F64(x)) => self.f64(*x),
            (_, V::Char(c)) => self.text(c.to_string().as_bytes()),
            (Sh::Disp, V::Str(s)) => self.text(s.replace('|', "").as_bytes()),
            (_, V::Str(s)) => self.text(s.as_bytes()),
            (_, V::Bytes(x)) => self.bin(x),
            (Sh::Opt(s), V::Some(x)) | (Sh::New(s), V::New(x)) => self.val(s, x),
            (Sh::Seq(s), V::Seq(xs)) => { self.arr(xs.len()); for x in xs { self.val(s, x) } }
            (Sh::Tup(ss) | Sh::TupS(ss), V::Seq(xs)) => { self.arr(ss.len()); for (s, x) in ss.iter().zip(xs) { self.val(s, x) } }
            (Sh::Map(k, s), V::Map(m)) => { self.map(m.len()); for (a, x) in m { self.val(k, a); self.val(s, x) } }
            (Sh::Struct(d), V::Struct(fs)) => self.fields(d.fields, d.shapes, fs),
            (Sh::Enum(d), V::Var(i, x)) => {
                if !matches!(d.vars[*i], Var::Unit) { self.map(1) }
                if (self.pick)(2) == 1 { self.text(d.names[*i].as_bytes()) } else { self.idx(*i) }
                match (&d.vars[*i], &**x) {
                    (Var::Unit, _) => {}
                    (Var::New(s), x) => self.val(s, x),
                    (Var::Tup(ss), V::Seq(xs)) => { self.arr(ss.len()); for (s, x) in ss.iter().zip(xs) { self.val(s, x) } }
                    (Var::Struct(n, ss), V::Struct(fs)) => self.fields(n, ss, fs),
                    _ => unreachable!(),
                }
            }
            _ => unreachable!("{sh:?} {v:?}"),
        }
    }
}
/// encode with at most `dev` departures from the default encoding, all of them explored
pub fn encode_dev(c: &mut Ctx, sh: S, v: &V, dev: usize) -> Vec<u8> {
    let mut left = dev;
    let mut pick = |n: usize| -> usize { if left == 0 || n == 1 { return 0 } let k = c.choose(n); if k != 0 { left -= 1 } k };
    let mut e = Enc2 { out: vec![], pick: &mut pick, forms: true };
    e.val(sh, v);
    e.out
}
/// encode with the k-th alternative everywhere
pub fn encode_uniform(sh: S, v: &V, k: usize) -> Vec<u8> {
    let mut pick = |n: usize| k % n;
    let mut e = Enc2 { out: vec![], pick: &mut pick, forms: true };
    e.val(sh, v);
    e.out
}
pub fn agreed(sh: S, v: &V, doc: &[u8]) -> R {
    let seen = mjudge(sh, doc)?;
    ensure!(seen == Seen::Accept, "reference: valid encoding [{}] of {} as {sh:?} not accepted ({seen:?})", hex(doc), brief(v));
    let o = mdec(sh, doc)?;
    let want = canon(sh, v, false);
    match o.res { Ok(g) => ensure!(same(&want, &g), "[{}] as {sh:?} reads {}, want {}", hex(doc), brief(&g), brief(&want)), Err(e) => fail!("[{}] as {sh:?} rejected with {e:?}", hex(doc)) }
    Ok(())
}

// ------------------------------------------------------------------ M03
/// complete or partial tokens: every header class and width with small contents
fn mtoks() -> Vec<&'static [u8]> {
    vec![&[0xc0], &[0xc3], &[0x00], &[0x01], &[0x02], &[0x05], &[0xff], &[0xcc, 1], &[0xcd, 0, 2], &[0xce, 0, 0, 0, 1], &[0xcf, 0, 0, 0, 0, 0, 0, 0, 1], &[0xcf, 0, 0, 0, 1, 0, 0, 0, 1], &[0xd0, 1], &[0xd3, 255, 255, 255, 255, 255, 255, 255, 254],
        &[0xca, 0x3f, 0x80, 0, 0], &[0xcb, 0x40, 0, 0, 0, 0, 0, 0, 0], &[0xa0], &[0xa1, b'a'], &[0xa1, b'x'], &[0xa1, 0xff], &[0xa2, b'S', b't'], &[0xa2, b'T', b'u'], &[0xa2, b'U', b'n'], &[0xa2, b'c', b'c'],
        &[0xa4, b'N', b'e', b'\\', b'w'], &[0xa3, b'b', b'"', b'q'], &[0xd9, 1, b'a'], &[0xda, 0, 2, b'c', b'c'], &[0xdb, 0, 0, 0, 2, b'Z', b'e'], &[0xa3, b'y', 0xc3, 0xa9],
        &[0xc4, 0], &[0xc4, 1, 0xff], &[0xc5, 0, 1, b'a'], &[0xc6, 0, 0, 0, 1, 7], &[0x80], &[0x81], &[0x82], &[0x83], &[0xde, 0, 1], &[0xdf, 0, 0, 0, 2], &[0x90], &[0x91], &[0x92], &[0x93], &[0xdc, 0, 3], &[0xdd, 0, 0, 0, 1], &[0xd4, 1, 2], &[0xc7, 0, 9], &[0xc1]]
}
fn grammar_shapes() -> Vec<S> {
    let o: S = leak(Sh::Opt(U8S));
    let mut v: Vec<S> = vec![o, leak(Sh::New(o)), leak(Sh::Seq(U8S)), leak(Sh::Seq(&Sh::BStr)), leak(Sh::Seq(leak(Sh::Seq(U8S)))), leak(Sh::Map(U8S, U8S)), leak(Sh::Map(&Sh::BStr, o)), &Sh::Tup(&[])];
    v.extend([wrap(3, &Sh::BStr), wrap(4, U8S), wrap(3, &Sh::Ign), leak(Sh::Map(&Sh::Any, &Sh::Ign)), &Sh::Any, leak(Sh::Opt(&Sh::Unit)), leak(Sh::Opt(leak(Sh::Opt(&Sh::Bool))))]);
    for s in [U8S, o, &Sh::BStr, &Sh::Bytes, &Sh::Any, &Sh::Ign, &Sh::F32, &Sh::Char] { v.push(wrap(7, s)); v.push(wrap(8, s)) }
    v.extend([leak(Sh::Seq(wrap(8, U8S))), leak(Sh::Map(wrap(8, &Sh::Unit), U8S)), leak(Sh::Opt(wrap(7, U8S))), leak(Sh::Tup(leakv(vec![wrap(8, o), U8S]))), wrap(7, wrap(8, U8S)), wrap(8, wrap(7, U8S))]);
    v
}
fn m03(t: bool) -> Vec<Space> {
    let c1 = Arc::new(catalog(1, &leaves(), WRAPS));
    let c2 = Arc::new(cat(t));
    let (n1, n2) = (c1.len(), c2.len());
    let (d1, d2, toks, depth) = (if t { 3 } else { 2 }, if t { 2 } else { 1 }, mtoks(), if t { 5 } else { 4 });
    let gs = Arc::new(grammar_shapes());
    let mut_shapes = Arc::new(small_shapes());
    let sd4: S = leak(Sh::Struct(leak(SD { name: "S", fields: &["a", "", "0", "ab"], shapes: leakv(vec![U8S as S, leak(Sh::Opt(&Sh::BStr)), U8S, leak(Sh::Opt(U8S))]) })));
    let en4: S = leak(Sh::Enum(leak(ED { name: "E", names: &["", "V"], vars: leakv(vec![Var::Unit, Var::Struct(&["a", "", "0", "ab"], leakv(vec![U8S as S, leak(Sh::Opt(&Sh::BStr)), U8S, leak(Sh::Opt(U8S))]))]) })));
    vec![
        space("widths", format!("{n1} shapes: every encoding with at most {d1} departures from the minimal one (header width, struct as array or map, key form and order, unknown entries, enum form)"), move |c| {
            let i = c.choose(c1.len());
            let v = gen(c, c1[i], t as usize, 1);
            let doc = encode_dev(c, c1[i], &v, d1);
            c.state(&doc); c.sample(|| hex(&doc));
            agreed(c1[i], &v, &doc)
        }),
        space("widths-nested", format!("{n2} nested shapes: every encoding with at most {d2} departures, and 13 uniform encodings"), move |c| {
            let i = c.choose(c2.len());
            let v = gen(c, c2[i], 0, 2);
            let doc = if c.flag() { let k = c.num(1, 13); encode_uniform(c2[i], &v, k) } else { encode_dev(c, c2[i], &v, d2) };
            c.state(&doc);
            agreed(c2[i], &v, &doc)
        }),
        space("tokens", format!("{} target types: every sequence of up to {depth} tokens of {} that is not yet decided", gs.len(), toks.len()), move |c| {
            let i = c.choose(gs.len());
            let mut doc = vec![];
            for _ in 0..depth {
                doc.extend_from_slice(toks[c.choose(toks.len())]);
                if c.fresh() {
                    c.state(&(i, &doc));
                    let s = mjudge(gs[i], &doc)?;
                    c.outcome(match s { Seen::Accept => "accepted", Seen::Reject => "rejected", Seen::Eof => "incomplete", Seen::Free => "unspecified" });
                    if s != Seen::Eof { return Ok(()) }
                } else if mref::decode(gs[i], &doc).err() != Some(E::Eof) { return Ok(()) }
            }
            c.sample(|| hex(&doc));
            Ok(())
        }),
        space("field-maps", "a 4-field struct and struct variant: every map of up to 4 entries with known, unknown, duplicate, empty and numeric-looking keys in both forms, plus wrong counts", move |c| {
            let keys: &[&[u8]] = &[&[0xa1, b'a'], &[0], &[0xa0], &[1], &[0xa1, b'0'], &[0xcc, 2], &[0xa2, b'a', b'b'], &[0xcf, 0, 0, 0, 0, 0, 0, 0, 3], &[4], &[0xd9, 2, b'a', b'c'], &[0xce, 0, 1, 0, 0], &[0xff], &[0xc4, 1, b'a'], &[0xc0], &[0xd0, 0], &[0xcf, 1, 0, 0, 0, 0, 0, 0, 0]];
            let n = c.num(0, if t { 5 } else { 4 });
            let extra = if n <= 3 { c.choose(3) } else { 0 };
            let e = c.flag();
            let mut doc = if e { vec![0x81, [0xa1, 1][n % 2]] } else { vec![] };
            if e && n % 2 == 0 { doc.push(b'V') }
            doc.push(0x80 | (n as u8 + [0, 1, 2][extra]).saturating_sub((extra == 2) as u8 * 3));
            for k in 0..n {
                let key = keys[c.choose(keys.len())];
                doc.extend_from_slice(key);
                let text = matches!(key, [0xa0] | [1]);
                if text { doc.extend_from_slice(&[0xa1, b'x']) } else { doc.push(10 + k as u8) }
            }
            c.state(&doc); c.sample(|| hex(&doc));
            let s = mjudge(if e { en4 } else { sd4 }, &doc)?;
            c.outcome(match s { Seen::Accept => "accepted", Seen::Reject => "rejected", Seen::Eof => "incomplete", Seen::Free => "unspecified" });
            Ok(())
        }),
        space("mutations", "every serialized message of the depth-1 catalog in 3 flavours: each byte replaced by all 255 others, deleted, duplicated, or swapped with its neighbour", move |c| {
            let i = c.choose(mut_shapes.len());
            let sh = mut_shapes[i];
            if has(sh, &|s| matches!(s, Sh::Any | Sh::Ign)) { return Ok(()) }
            let v = gen(c, sh, t as usize, 1);
            let fl = *c.pick(&FLS);
            let doc = mser_ok(fl, sh, &v)?;
            if doc.len() > 60 { return Ok(()) }
            let p = c.choose(doc.len());
            let mut d = doc.clone();
            for x in 0..=255u8 { d[p] = x; mjudge(sh, &d)?; }
            d = doc.clone(); d.remove(p); mjudge(sh, &d)?;
            d = doc.clone(); d.insert(p, doc[p]); mjudge(sh, &d)?;
            if p > 0 { d = doc.clone(); d.swap(p - 1, p); mjudge(sh, &d)?; }
            c.bulk(259);
            Ok(())
        }),
        space("utf8", "strings of up to 3 bytes from every UTF-8 byte class, all 2-byte strings, as str, char, key, field name and variant name", move |c| {
            let cls: &[u8] = &[0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff];
            let m: S = &Sh::Map(&Sh::BStr, &Sh::Unit);
            let judge = |s: &[u8]| -> R {
                let mut d = vec![0xa0 | s.len() as u8];
                d.extend_from_slice(s);
                for sh in [&Sh::BStr as S, &Sh::Str, &Sh::Char, &Sh::Any, wrap_s(), wrap_e()] {
                    if std::ptr::eq(sh, wrap_s()) { let mut e = vec![0x82]; e.extend(&d); e.push(0xc0); e.extend([0, 7]); mjudge(sh, &e)?; } else { mjudge(sh, &d)?; }
                }
                let mut e = vec![0x81]; e.extend(&d); e.push(0xc0);
                mjudge(m, &e)?;
                Ok(())
            };
            if c.flag() {
                let n = c.num(0, if t { 4 } else { 3 });
                let s: Vec<u8> = (0..n).map(|_| *c.pick(cls)).collect();
                c.state(&s);
                judge(&s)
            } else {
                let a = c.choose(256) as u8;
                for x in 0..=255u8 { judge(&[a, x])? }
                c.bulk(256);
                Ok(())
            }
        }),
        space("wide-structs", "structs of boundary sizes decoded from arrays, index maps and name maps in every header width", move |c| {
            let n = *c.pick(&[14usize, 15, 16, 17, 31, 127, 128, 129, 255, 256, 257, 300, 65535, 65536]);
            let k = c.choose(13);
            if n > 1000 && k > 4 { return Ok(()) }
            let sh = wide_struct(n);
            let v = V::Seq(vec![V::Struct((0..n).map(|i| Some(V::Bool(i % 3 == 1))).collect()), V::Int(77)]);
            let doc = encode_uniform(sh, &v, k);
            c.state(&(n, k));
            agreed(sh, &v, &doc)?;
            // one element more or less
            if n < 1000 {
                for x in [n - 1, n + 1] {
                    let mut d = vec![0x92, 0xdc, (x >> 8) as u8, x as u8];
                    d.extend(std::iter::repeat(0xc2).take(x));
                    d.push(77);
                    mjudge(sh, &d)?;
                }
            }
            Ok(())
        }),
    ]
}
fn wrap_s() -> S { memo_n(0, 10, |_| leak(Sh::Struct(leak(SD { name: "S", fields: &["A"], shapes: leakv(vec![U8S as S]) })))) }
fn wrap_e() -> S { memo_n(0, 11, |_| leak(Sh::Enum(leak(ED { name: "E", names: &["A", "é", "AA"], vars: leakv(vec![Var::Unit, Var::Unit, Var::Unit]) })))) }

// ------------------------------------------------------------------ M04
fn num_doc(k: usize, n: i128) -> Option<Vec<u8>> {
    let w = 1usize << (k % 4);
    let bits = 8 * w as u32;
    let ok = if k < 4 { n >= 0 && n < 1i128 << bits } else { n >= -(1i128 << (bits - 1)) && n < 1i128 << (bits - 1) };
    ok.then(|| { let mut d = vec![if k < 4 { 0xcc + k as u8 } else { 0xd0 + (k - 4) as u8 }]; d.extend_from_slice(&(n as u64).to_be_bytes()[8 - w..]); d })
}
fn num_shapes() -> Vec<S> { let mut v: Vec<S> = INTS.iter().collect(); v.extend([&Sh::F32 as S, &Sh::F64]); v }
fn num_ctx(sh: S, d: &[u8], k: usize) -> (S, Vec<u8>) {
    match k {
        0 => (sh, d.to_vec()),
        1 => (memo(sh, 20, |s| leak(Sh::Tup(leakv(vec![s, U8S])))), [&[0x92], d, &[5]].concat()),
        2 => (memo(sh, 21, |s| leak(Sh::Map(s, U8S))), [&[0x81], d, &[5]].concat()),
        3 => (memo(sh, 22, |s| leak(Sh::Opt(s))), d.to_vec()),
        4 => (memo(sh, 23, |s| leak(Sh::New(s))), d.to_vec()),
        5 => (memo(sh, 24, |s| leak(Sh::Seq(s))), [&[0xdc, 0, 2], d, d].concat()),
        _ => (memo(sh, 25, |s| wrap(7, s)), [&[0x82, 1, 0xa0, 0], d].concat()),
    }
}
fn m04(t: bool) -> Vec<Space> {
    let eds = Arc::new(edges());
    let (f32s, f64s) = (Arc::new(f32_grid()), Arc::new(f64_grid()));
    let mut big = vec![];
    for k in 22..64u32 { for d in -3..=3i128 { for m in [0i128, 1 << (k - 22), 1 << (k.saturating_sub(23)), 3 << (k.saturating_sub(24)), (1 << k) - (1 << (k - 22)), 1 << k.saturating_sub(53), 3 << k.saturating_sub(54)] { big.push((1i128 << k) + m + d); big.push(-(1i128 << k) - m + d) } } }
    let big = Arc::new(big);
    vec![
        space("leads", "every leading byte followed by 17 zero, 0xff or mixed bytes, for 10 number types in 7 contexts", move |c| {
            let x = c.choose(256) as u8;
            let k = c.choose(7);
            for fill in [0u8, 0xff, 0x7f, 0x80] {
                let mut d = vec![x]; d.extend([fill; 17]); d[2] = 1;
                for sh in num_shapes() { let (s, doc) = num_ctx(sh, &d, k); mjudge(s, &doc)?; }
            }
            c.bulk(40);
            Ok(())
        }),
        space("integers-16", "every value of every 8- and 16-bit representation, and the same values in all wider ones, into 10 number types", move |c| {
            let k = c.choose(8);
            let ch = c.choose(128);
            let mut n = 0;
            for d in 0..768i128 { if let Some(doc) = num_doc(k, ch as i128 * 768 - 32768 + d) { for sh in num_shapes() { mjudge(sh, &doc)?; n += 1 } } }
            c.bulk(n);
            Ok(())
        }),
        space("edges", "every power-of-two and power-of-ten edge in every representation that holds it, into 10 number types in 7 contexts", move |c| {
            let k = c.choose(8);
            let ctx = c.choose(7);
            let mut n = 0;
            for x in eds.iter() { if let Some(doc) = num_doc(k, *x) { for sh in num_shapes() { let (s, d) = num_ctx(sh, &doc, ctx); mjudge(s, &d)?; n += 1 } } }
            c.bulk(n);
            Ok(())
        }),
        space("rounding", "64-bit integers at and around float rounding midpoints into f32 and f64, and into the integer types", move |c| {
            let k = c.choose(8);
            let r = chunked(c, big.len(), 256);
            let mut n = 0;
            for i in r { if let Some(doc) = num_doc(k, big[i]) { for sh in num_shapes() { mjudge(sh, &doc)?; n += 1 } } }
            c.bulk(n);
            Ok(())
        }),
        space("floats", "float grids of both widths into 10 number types, Any and Option", move |c| {
            let w = c.flag();
            let total = if w { f64s.len() } else { f32s.len() };
            let r = chunked(c, total, 4096);
            let len = r.len() as u64;
            for i in r {
                let doc = if w { [&[0xcb][..], &f64s[i].to_be_bytes()].concat() } else { [&[0xca][..], &f32s[i].to_be_bytes()].concat() };
                for sh in [&Sh::F32 as S, &Sh::F64, &Sh::Any, &INTS[3], &INTS[4]] { mjudge(sh, &doc)?; }
            }
            c.bulk(len * 5);
            Ok(())
        }),
        space("integers-wide", if t { "2^24 consecutive 32-bit patterns around each sign/width boundary, as u32, i32, u64 and i64" } else { "2^18 consecutive 32-bit patterns around each sign/width boundary, as u32, i32, u64 and i64" }, move |c| {
            let half = if t { 1u64 << 23 } else { 1 << 17 };
            let base = [0u64, 1 << 16, 1 << 31, 1 << 32, 1 << 24, 1 << 53, 1 << 63][c.choose(7)];
            let r = chunked(c, (2 * half) as usize, 8192);
            for d in r {
                let n = base.wrapping_sub(half).wrapping_add(d as u64);
                let d64 = n.to_be_bytes();
                let docs = [[&[0xce][..], &d64[4..]].concat(), [&[0xd2][..], &d64[4..]].concat(), [&[0xcf][..], &d64].concat(), [&[0xd3][..], &d64].concat()];
                let docs = if base < 1 << 40 { &docs[..] } else { &docs[2..] };
                for doc in docs { for sh in [&INTS[2] as S, &INTS[3], &INTS[6], &INTS[7], &Sh::F32, &Sh::F64] { mjudge(sh, doc)?; } }
            }
            c.bulk(8192 * 16);
            Ok(())
        }),
    ]
}

// ------------------------------------------------------------------ M05
fn eat(doc: &[u8]) -> Result<Result<usize, String>, Bad> {
    let mut g = Guard::new(doc);
    let r = imp(|| { let d = g.doc(); let mut de = mp::de::Deserializer::from_slice(d); match de.eat_message() { Ok(()) => { let left = de.remaining_len(); match de.end() { Ok(n) if n == left => Ok(d.len() - n), other => Err(format!("end {other:?} but remaining_len {left}")) } } Err(e) => Err(kind(&e)) } })
        .map_err(|x| Bad { msg: format!("{} skipping [{}]", x.msg, hex(doc)), key: x.key })?;
    g.check()?;
    Ok(r)
}
/// judge an explicit skip against the reference
fn eat_judge(doc: &[u8]) -> Result<Seen, Bad> {
    let r = eat(doc)?;
    match (mref::skip(doc, 0), r) {
        (Ok(n), Ok(k)) => { ensure!(n == k, "skipping [{}] consumed {k}, want {n}", hex(doc)); Ok(Seen::Accept) }
        (Ok(n), Err(e)) => fail!("skipping [{}] ({n} bytes) failed with {e}", hex(doc)),
        (Err(e), Ok(k)) => fail!("skipping [{}] consumed {k}, must fail ({e:?})", hex(doc)),
        (Err(E::Eof), Err(e)) => { ensure!(e == "UnexpectedEof", "skipping truncated [{}] gives {e}", hex(doc)); Ok(Seen::Eof) }
        (Err(_), Err(e)) => { ensure!(e == "ReservedCode", "skipping [{}] with a reserved code gives {e}", hex(doc)); Ok(Seen::Reject) }
    }
}
/// contexts in which `inner` is skipped; what surrounds it must decode unaffected
fn skip_ctx() -> Vec<(S, &'static [u8], &'static [u8])> {
    let st: S = memo_n(0, 12, |_| wrap(7, U8S));
    let en: S = memo_n(0, 13, |_| wrap(8, U8S));
    vec![
        (&Sh::Ign, &[], &[0x05]),
        (memo_n(0, 14, |_| leak(Sh::Tup(leakv(vec![&Sh::Ign as S, U8S])))), &[0x92], &[0xcc, 200]),
        (st, &[0x83, 0, 7, 0xa2, b'z', b'z'], &[1, 0xa1, b'k']),
        (st, &[0x83, 9], &[0xa1, b'a', 3, 0xa3, b'b', b'"', b'q', 0xa1, b'k']),
        (en, &[0x81, 3, 0x83, 0xa1, b'q'], &[0, 1, 1, 0xc2]),
        (memo_n(0, 15, |_| leak(Sh::Map(&Sh::Ign, U8S))), &[0x82], &[1, 0xc0, 2]),
        (memo_n(0, 16, |_| leak(Sh::Map(U8S, &Sh::Ign))), &[0x82, 1], &[2, 0xc0]),
    ]
}
pub fn skip_check(inner: &[u8], trunc: bool) -> R {
    let tailed = [inner, &[0x93, 0xa1]].concat();
    eat_judge(inner)?;
    eat_judge(&tailed)?;
    for (sh, pre, post) in skip_ctx() {
        let doc = [pre, inner, post].concat();
        let s = mjudge(sh, &doc)?;
        if mref::skip(inner, 0) == Ok(inner.len()) { ensure!(s == Seen::Accept, "reference: [{}] not accepted as {sh:?}", hex(&doc)) }
    }
    if trunc { for k in 0..inner.len() { eat_judge(&inner[..k])?; } }
    Ok(())
}
/// one complete message of each lead/width
fn leaf_toks() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![0xc0], vec![0xc2], vec![0x00], vec![0x7f], vec![0xe0], vec![0xff]];
    let z = |c: u8, n: usize| { let mut d = vec![c]; d.extend((0..n).map(|i| 0x91 + i as u8)); d };
    for (c, n) in [(0xca, 4), (0xcb, 8), (0xcc, 1), (0xcd, 2), (0xce, 4), (0xcf, 8), (0xd0, 1), (0xd1, 2), (0xd2, 4), (0xd3, 8), (0xd4, 2), (0xd5, 3), (0xd6, 5), (0xd7, 9), (0xd8, 17)] { v.push(z(c, n)) }
    for (d, n) in [(&[0xa0][..], 0), (&[0xa3], 3), (&[0xbf], 31), (&[0xd9, 0], 0), (&[0xd9, 2], 2), (&[0xda, 0, 3], 3), (&[0xdb, 0, 0, 0, 2], 2), (&[0xc4, 0], 0), (&[0xc4, 3], 3), (&[0xc5, 0, 2], 2), (&[0xc6, 0, 0, 0, 1], 1), (&[0xc7, 0], 1), (&[0xc7, 2], 3), (&[0xc8, 0, 1], 2), (&[0xc9, 0, 0, 0, 3], 4)] {
        let mut x = d.to_vec(); x.extend((0..n).map(|i| 0xdc + i as u8)); v.push(x)
    }
    v
}
fn tree(c: &mut Ctx, leafs: &[Vec<u8>], budget: &mut usize, out: &mut Vec<u8>) {
    // 0..leafs: a leaf; then containers
    const CONT: &[(&[u8], usize)] = &[(&[0x90], 0), (&[0x91], 1), (&[0x92], 2), (&[0xdc, 0, 1], 1), (&[0xdd, 0, 0, 0, 2], 2), (&[0x80], 0), (&[0x81], 2), (&[0xde, 0, 1], 2), (&[0xdf, 0, 0, 0, 1], 2)];
    let kinds = leafs.len() + if *budget > 0 { CONT.len() } else { 0 };
    let k = c.choose(kinds);
    if k < leafs.len() { out.extend_from_slice(&leafs[k]); return }
    let (h, n) = CONT[k - leafs.len()];
    *budget -= 1;
    out.extend_from_slice(h);
    for _ in 0..n { tree(c, leafs, budget, out) }
}
fn m05(t: bool) -> Vec<Space> {
    let leafs = Arc::new(leaf_toks());
    let few: Arc<Vec<Vec<u8>>> = Arc::new([&[0xc0][..], &[0xcd, 0x91, 0x92], &[0xa2, 0xdc, 0], &[0xc7, 1, 0xdd, 0xc1]].iter().map(|x| x.to_vec()).collect());
    let (l2, l3) = (leafs.clone(), leafs.clone());
    let lens: Vec<usize> = vec![0, 1, 2, 3, 14, 15, 16, 17, 30, 31, 32, 33, 126, 127, 128, 129, 254, 255, 256, 257, 1000, 65534, 65535, 65536, 65537];
    let depths: Vec<usize> = (0..=64).chain([100, 255, 256, 1000, 5000]).collect();
    let tb = if t { 4 } else { 3 };
    vec![
        space("leads", "every leading byte with 0..=24 following bytes of several patterns, skipped explicitly", move |c| {
            let x = c.choose(256) as u8;
            let n = c.num(0, 24);
            let mut d = vec![x];
            for f in [0u8, 1, 2, 0x91, 0xc0, 0xff] { d.truncate(1); d.extend(std::iter::repeat(f).take(n)); eat_judge(&d)?; }
            c.bulk(6);
            Ok(())
        }),
        space("leaf-contexts", "a message of every lead and width skipped in 8 contexts and truncated everywhere", move |c| {
            let i = c.choose(leafs.len());
            c.state(&i); c.sample(|| hex(&leafs[i]));
            skip_check(&leafs[i], true)
        }),
        space("trees-full", "containers of every width with up to 2 container nodes and leaves of every kind, in 8 contexts, truncated everywhere", move |c| {
            let mut o = vec![];
            tree(c, &l2[..], &mut if t { 2 } else { 1 }, &mut o);
            c.state(&o);
            skip_check(&o, true)
        }),
        space("trees", format!("container trees of every width and shape with up to {tb} container nodes and 4 leaf kinds, in 8 contexts, truncated everywhere"), move |c| {
            let mut o = vec![];
            tree(c, &few[..], &mut { tb }, &mut o);
            c.state(&o); c.sample(|| hex(&o));
            skip_check(&o, true)
        }),
        space("reserved", "the reserved code at every position of small containers", move |c| {
            let i = c.choose(l3.len());
            let n = c.num(1, 5);
            let p = c.choose(n);
            let form = c.choose(4);
            let mut d: Vec<u8> = match form { 0 => vec![0x90 | n as u8], 1 => vec![0xdc, 0, n as u8], 2 => vec![0x91, 0x90 | n as u8], _ => vec![0x80 | n as u8] };
            for k in 0..n { if form == 3 { d.push(0xa0) } if k == p { d.push(0xc1) } else { d.extend_from_slice(&l3[i]) } }
            c.state(&d);
            eat_judge(&d)?;
            for (sh, pre, post) in skip_ctx() { mjudge(sh, &[pre, &d, post].concat())?; }
            Ok(())
        }),
        space("lengths", format!("strings, binaries, extensions, arrays and maps of each length in {lens:?} and every header width that holds it"), move |c| {
            let n = *c.pick(&lens);
            let k = c.choose(15);
            let (code, w, pay) = [(0xd9u8, 1, n), (0xda, 2, n), (0xdb, 4, n), (0xc4, 1, n), (0xc5, 2, n), (0xc6, 4, n), (0xc7, 1, n + 1), (0xc8, 2, n + 1), (0xc9, 4, n + 1), (0xdc, 2, n), (0xdd, 4, n), (0xde, 2, 2 * n), (0xdf, 4, 2 * n), (0xa0, 0, n), (0x90, 0, n)][k];
            if (w == 0 && n > if code == 0xa0 { 31 } else { 15 }) || (w > 0 && w < 4 && n >= 1 << (8 * w)) { return Ok(()) }
            let mut d = vec![code];
            if w == 0 { d[0] |= n as u8 } else { d.extend_from_slice(&(n as u64).to_be_bytes()[8 - w..]) }
            let h = d.len();
            d.extend((0..pay).map(|i| (i % 97) as u8));
            c.state(&(n, k));
            skip_check(&d, n <= 300)?;
            for cut in [h, h + 1, d.len() / 2, d.len().saturating_sub(2), d.len() - 1] { if cut < d.len() { eat_judge(&d[..cut])?; } }
            Ok(())
        }),
        space("depth", "chains of nested arrays and maps of every width up to depth 64, 100, 255, 256, 1000 and 5000", move |c| {
            let n = *c.pick(&depths);
            let k = c.choose(8);
            let mut d = vec![];
            for i in 0..n { d.extend_from_slice(match k { 0 => &[0x91][..], 1 => &[0x92, 0xc0], 2 => &[0x81, 0xa0], 3 => &[0xdc, 0, 1], 4 => &[0xdf, 0, 0, 0, 1, 0xd4, 1, 2], 5 => &[0xdd, 0, 0, 0, 2, 5], 6 => if i % 2 == 0 { &[0x91] } else { &[0x81, 0x01] }, _ => &[0x81] }) }
            if k == 7 { d.push(0xc0); d.extend(std::iter::repeat(0x05).take(n)) } else { d.extend([0xcc, 0x91]) }
            c.state(&(n, k));
            skip_check(&d, n <= 64)?;
            if n > 64 { for cut in [0, 1, n / 2, n, d.len() - 1] { eat_judge(&d[..cut])?; } }
            Ok(())
        }),
    ]
}

// ------------------------------------------------------------------ M06
pub fn prefix_check(sh: S, doc: &[u8], from: usize) -> R {
    for k in from..doc.len() {
        let p = &doc[..k];
        let o = mdec(sh, p)?;
        match o.res {
            Err(mp::de::Error::UnexpectedEof) => {}
            Err(e) => fail!("prefix [{}] of [{}] as {sh:?} gives {e:?} instead of UnexpectedEof", hex(p), hex(doc)),
            Ok(g) => fail!("prefix [{}] of [{}] as {sh:?} accepted as {}", hex(p), hex(doc), brief(&g)),
        }
        if k < 40 || k + 40 > doc.len() {
            let r = imp(|| mp::from_slice_split_tail::<Dyn>(p).map(|_| ()))?;
            ensure!(matches!(r, Err(mp::de::Error::UnexpectedEof)), "from_slice_split_tail on prefix [{}] gives {r:?}", hex(p));
        }
    }
    Ok(())
}
fn m06(t: bool) -> Vec<Space> {
    let shapes = cat(t);
    let c1 = Arc::new(small_shapes());
    let leafs = Arc::new(leaf_toks());
    let dev = if t { 2 } else { 1 };
    let n = shapes.len();
    let (c1b, tb) = (c1.clone(), if t { 4 } else { 3 });
    vec![
        space("catalog", format!("every strict prefix of every message of {n} shapes, 3 flavours, values within width 2"), move |c| {
            let i = c.choose(shapes.len());
            let v = gen(c, shapes[i], (i < 220) as usize, 2);
            let fl = *c.pick(&FLS);
            let doc = mser_ok(fl, shapes[i], &v)?;
            c.state(&(i, &doc)); c.sample(|| hex(&doc)); c.bulk(doc.len() as u64);
            prefix_check(shapes[i], &doc, 0)
        }),
        space("widths", format!("every strict prefix of every encoding with at most {dev} departures from the minimal one"), move |c| {
            let i = c.choose(c1.len());
            if has(c1[i], &|s| matches!(s, Sh::Any | Sh::Ign)) { return Ok(()) }
            let v = gen(c, c1[i], t as usize, 1);
            let doc = encode_dev(c, c1[i], &v, dev);
            c.state(&(i, &doc)); c.bulk(doc.len() as u64);
            prefix_check(c1[i], &doc, 0)
        }),
        space("self-describing", format!("every strict prefix of container trees with up to {tb} containers, self-describing and ignored"), move |c| {
            let few: &[Vec<u8>] = &[vec![0xc0], vec![0xcd, 1, 2], vec![0xa2, b'a', b'b'], vec![0xc4, 1, 0x93], vec![0xcb, 0, 0, 0, 0, 0, 0, 0, 0]];
            let mut o = vec![];
            tree(c, few, &mut { tb }, &mut o);
            c.state(&o); c.bulk(2 * o.len() as u64);
            prefix_check(&Sh::Any, &o, 0)?;
            prefix_check(&Sh::Ign, &o, 0)
        }),
        space("leaf-any", "every strict prefix of a message of every lead, ignored, self-describing and under every accepting type", move |c| {
            let i = c.choose(leafs.len());
            let d = &leafs[i];
            let j = c.choose(c1b.len());
            if mref::decode(c1b[j], d).map(|x| x.1) == Ok(d.len()) { c.state(&(i, j)); prefix_check(c1b[j], d, 0)? }
            Ok(())
        }),
        space("lengths", "prefixes of long strings, byte arrays, sequences and maps at every length ladder step", move |c| {
            let k = c.choose(NLONG);
            let n = *c.pick(&[15usize, 16, 31, 32, 33, 127, 128, 255, 256, 257, 65535, 65536]);
            let (sh, v) = long_value(k, n);
            let doc = mser_ok(Fl::Idx, sh, &v)?;
            c.state(&(k, n));
            if n < 300 { return prefix_check(sh, &doc, 0) }
            for cut in [0, 1, 2, 3, 4, 5, 6, doc.len() / 2, doc.len() - 2, doc.len() - 1] {
                let o = mdec(sh, &doc[..cut])?;
                ensure!(matches!(o.res, Err(mp::de::Error::UnexpectedEof)), "prefix of length {cut} of [{}] as {sh:?} is not UnexpectedEof", hex(&doc));
            }
            Ok(())
        }),
    ]
}

// ------------------------------------------------------------------ M07
#[repr(C)]
struct Ts { s: i64, n: i64 }
extern "C" { fn clock_gettime(c: i32, t: *mut Ts) -> i32; }
/// CPU seconds of this thread
pub fn cpu() -> f64 { let mut t = Ts { s: 0, n: 0 }; unsafe { clock_gettime(3, &mut t) }; t.s as f64 + t.n as f64 * 1e-9 }
/// Decoding a short input into a real collection type must neither allocate nor work for a length that is not there.
fn bounded<T: serde::de::DeserializeOwned>(name: &str, doc: &[u8]) -> R {
    let t0 = cpu();
    let (r, count, bytes, _) = mem::measure(|| imp(|| mp::from_slice::<T>(doc).map(|x| x.1)));
    let r = r.map_err(|e| Bad { msg: format!("{} decoding [{}] as {name}", e.msg, hex(doc)), key: e.key })?;
    let dt = cpu() - t0;
    if let Ok(n) = r { ensure!(n <= doc.len(), "consumed {n} of {} decoding [{}] as {name}", doc.len(), hex(doc)) }
    ensure!(bytes <= 8 << 20, "decoding [{}] as {name} requested {bytes} bytes of memory in {count} allocations", hex(doc));
    ensure!(dt < 0.5, "decoding [{}] as {name} took {dt:.2} s of processor time", hex(doc));
    Ok(())
}
#[derive(serde::Deserialize)]
#[allow(dead_code)]
struct RealS { a: Vec<u32>, #[serde(default)] b: Option<String> }
#[derive(serde::Deserialize)]
#[allow(dead_code)]
enum RealE { A(Vec<RealE>), B { x: String }, C }
fn bounded_all(doc: &[u8]) -> R {
    bounded::<Vec<u64>>("Vec<u64>", doc)?;
    bounded::<Vec<String>>("Vec<String>", doc)?;
    bounded::<Vec<Vec<[u64; 4]>>>("Vec<Vec<[u64; 4]>>", doc)?;
    bounded::<String>("String", doc)?;
    bounded::<BTreeMap<u32, String>>("BTreeMap<u32, String>", doc)?;
    bounded::<std::collections::VecDeque<u8>>("VecDeque<u8>", doc)?;
    bounded::<RealS>("struct", doc)?;
    bounded::<RealE>("enum", doc)?;
    bounded::<(Vec<u8>, serde::de::IgnoredAny)>("(Vec<u8>, IgnoredAny)", doc)?;
    bounded::<serde::de::IgnoredAny>("IgnoredAny", doc)?;
    bounded::<BTreeMap<String, serde::de::IgnoredAny>>("BTreeMap<String, IgnoredAny>", doc)?;
    let t0 = cpu();
    let (r, _, bytes, _) = mem::measure(|| imp(|| { let mut d = mp::de::Deserializer::from_slice(doc); d.eat_message().is_ok() }));
    r?;
    ensure!(bytes == 0, "skipping [{}] allocates {bytes} bytes", hex(doc));
    let dt = cpu() - t0;
    ensure!(dt < 0.5, "skipping [{}] took {dt:.2} s of processor time", hex(doc));
    Ok(())
}
fn m07(t: bool) -> Vec<Space> {
    let shapes = Arc::new(fuzz_shapes());
    let (s2, s3, s4) = (shapes.clone(), shapes.clone(), shapes.clone());
    let alpha = Arc::new(lead_alphabet());
    let al2 = alpha.clone();
    let depth = if t { 4 } else { 3 };
    let lens: &'static [u64] = &[0, 1, 2, 15, 255, 256, 65535, 65536, (1 << 24) + 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 2, (1 << 32) - 1];
    vec![
        space("two-bytes", format!("all documents of 0, 1 and 2 bytes as {} types and skipped", shapes.len()), move |c| {
            let i = c.choose(shapes.len());
            let a = c.choose(256) as u8;
            mjudge(shapes[i], &[])?;
            mjudge(shapes[i], &[a])?;
            for x in 0..=255u8 { mjudge(shapes[i], &[a, x])?; if i == 0 { eat_judge(&[a, x])?; } }
            c.bulk(257);
            Ok(())
        }),
        space("three-bytes", "all documents of 3 bytes whose first byte is any and whose others are in a 56-byte alphabet, as every type", move |c| {
            let i = c.choose(s2.len());
            let a = c.choose(256) as u8;
            if mref::decode(s2[i], &[a]).err() != Some(E::Eof) { return Ok(()) }
            let mut n = 0;
            for x in al2.iter() {
                if !t && mref::decode(s2[i], &[a, *x]).err() != Some(E::Eof) { continue }
                for y in al2.iter() { mjudge(s2[i], &[a, *x, *y])?; n += 1 }
            }
            c.bulk(n);
            Ok(())
        }),
        space("bytes", format!("byte sequences up to length {depth} over a 56-byte alphabet, extended while incomplete, as {} types", s3.len()), move |c| {
            let i = c.choose(s3.len());
            let mut doc = vec![];
            for _ in 0..depth {
                doc.push(*c.pick(&alpha));
                if c.fresh() { c.state(&(i, &doc)); if mjudge(s3[i], &doc)? != Seen::Eof { return Ok(()) } }
                else if mref::decode(s3[i], &doc).err() != Some(E::Eof) { return Ok(()) }
            }
            Ok(())
        }),
        space("declared-lengths", "every header with a length field declaring each of 13 lengths, followed by 0..=4 content bytes, nested in 0..=2 containers, as every type and as real collections with memory and processor time measured", move |c| {
            let (code, w) = [(0xd9u8, 1usize), (0xda, 2), (0xdb, 4), (0xc4, 1), (0xc5, 2), (0xc6, 4), (0xc7, 1), (0xc8, 2), (0xc9, 4), (0xdc, 2), (0xdd, 4), (0xde, 2), (0xdf, 4)][c.choose(13)];
            let n = *c.pick(lens);
            if w < 4 && n >= 1 << (8 * w) { return Ok(()) }
            let pre: &[u8] = [&[][..], &[0x91], &[0x82, 0xa1, b'a'], &[0x81, 0x00], &[0x92, 0x05], &[0xdd, 0xff, 0xff, 0xff, 0xff], &[0x81, 0x00, 0x91]][c.choose(7)];
            let fill = *c.pick(&[0x00u8, 0xa0, 0xc0, 0x91, 0xdd, 0xff]);
            let k = c.num(0, 4);
            let mut d = pre.to_vec();
            d.push(code);
            d.extend_from_slice(&n.to_be_bytes()[8 - w..]);
            d.extend(std::iter::repeat(fill).take(k));
            c.state(&d); c.sample(|| hex(&d));
            bounded_all(&d)?;
            for sh in s4.iter() { mjudge(sh, &d)?; }
            eat_judge(&d)?;
            Ok(())
        }),
        space("nested-hostile", "containers nested 1..=40 deep that each declare up to 2^32-1 elements", move |c| {
            let n = c.num(1, 40);
            let h: &[u8] = [&[0xdd, 0xff, 0xff, 0xff, 0xff][..], &[0xdf, 0xff, 0xff, 0xff, 0xff], &[0xdf, 0x80, 0, 0, 0, 0xc0], &[0xdd, 0x7f, 0xff, 0xff, 0xff, 0xc0], &[0xdc, 0xff, 0xff], &[0xdd, 0, 1, 0, 0, 0x05]][c.choose(6)];
            let mut d = vec![];
            for _ in 0..n { d.extend_from_slice(h) }
            c.state(&d);
            bounded_all(&d)?;
            eat_judge(&d)?;
            for sh in [&Sh::Any as S, &Sh::Ign] { mjudge(sh, &d)?; }
            d.truncate(4 + n * 3);
            bounded_all(&d)
        }),
    ]
}

// ------------------------------------------------------------------ M08
pub fn m08_msgs() -> Vec<(S, V)> {
    let mut v = vec![];
    let st = memo_n(0, 12, |_| wrap(7, U8S));
    let en = memo_n(0, 13, |_| wrap(8, U8S));
    let vals: Vec<(S, V)> = vec![
        (&Sh::Unit, V::Unit), (&Sh::Bool, V::Bool(true)), (U8S, V::Int(5)), (U8S, V::Int(200)), (I32S, V::Int(-70000)), (&INTS[3], V::Int(i64::MIN as i128)), (&Sh::F32, V::f32(1.5)), (&Sh::F64, V::f64(-0.1)),
        (&Sh::Char, V::Char('é')), (&Sh::BStr, V::s("")), (&Sh::BStr, V::s("héllo")), (&Sh::BStr, V::Str("x".repeat(40))), (&Sh::Bytes, V::Bytes(vec![])), (&Sh::Bytes, V::Bytes(vec![0x93, 0xc1, 0])), (&Sh::Bytes, V::Bytes(vec![7; 300])),
        (&Sh::Seq(&Sh::BStr), V::Seq(vec![V::s("a"), V::s("bc")])), (&Sh::Seq(&Sh::BStr), V::Seq(vec![])), (&Sh::Map(&Sh::BStr, &Sh::Bytes), V::Map(vec![(V::s("k"), V::Bytes(vec![1, 2]))])),
        (st, V::Struct(vec![Some(V::Int(1)), Some(V::s("in place")), Some(V::None)])), (en, V::Var(0, Box::new(V::Unit))), (en, V::Var(3, Box::new(V::Struct(vec![Some(V::Int(4)), Some(V::Bool(false))])))), (en, V::Var(1, Box::new(V::Int(99)))),
        (&Sh::Tup(&[]), V::Seq(vec![])), (&Sh::Disp, V::s("12|34|"))];
    v.extend(vals);
    v
}
/// every message of a stream by consumed length, by tail, by skipping and through one decoder
pub fn stream_check(items: &[(S, V)], doc: &[u8], ends: &[usize]) -> R {
    let lost = |how: &str, j: usize, g: String| Bad { msg: format!("{how}: message {j} of {} ({:?}) gives {g} in [{}]", items.len(), items[j].0, hex(doc)), key: String::new() };
    let mut at = 0;
    for (j, (sh, v)) in items.iter().enumerate() {
        set_shape(sh);
        match imp(|| mp::from_slice::<Dyn>(&doc[at..]))? { Ok((d, n)) if same(&d.0, &canon(sh, v, false)) && at + n == ends[j] => at += n, r => return Err(lost("from_slice", j, r.map_or_else(|e| format!("{e:?}"), |(d, n)| format!("{} and {n}", brief(&d.0))))) }
    }
    let mut rest = doc;
    for (j, (sh, v)) in items.iter().enumerate() {
        set_shape(sh);
        match imp(|| mp::from_slice_split_tail::<Dyn>(rest))? { Ok((d, t)) if same(&d.0, &canon(sh, v, false)) && t == &doc[ends[j]..] => rest = t, r => return Err(lost("from_slice_split_tail", j, r.map_or_else(|e| format!("{e:?}"), |(d, t)| format!("{} and {} left", brief(&d.0), t.len())))) }
    }
    let mut de = mp::de::Deserializer::from_slice(doc);
    for (j, e) in ends.iter().enumerate() { imp(|| de.eat_message())?.map_err(|x| lost("eat_message", j, format!("{x:?}")))?; if de.remaining_len() != doc.len() - e { return Err(lost("eat_message", j, format!("{} left", de.remaining_len()))) } }
    let mut de = mp::de::Deserializer::from_slice(doc);
    for (j, (sh, v)) in items.iter().enumerate() {
        // decoded and skipped in turn
        if j % 3 == 2 { imp(|| de.eat_message())?.map_err(|x| lost("eat_message in between", j, format!("{x:?}")))?; continue }
        set_shape(sh);
        match imp(|| <Dyn as serde::Deserialize>::deserialize(&mut de))? { Ok(d) if same(&d.0, &canon(sh, v, false)) && de.remaining_len() == doc.len() - ends[j] => {} r => return Err(lost("one decoder", j, r.map_or_else(|e| format!("{e:?}"), |d| brief(&d.0)))) }
    }
    match imp(|| de.end())? { Ok(n) if n == doc.len() - ends[ends.len() - 1] => Ok(()), r => Err(lost("end", items.len() - 1, format!("{r:?}"))) }
}
fn m08(t: bool) -> Vec<Space> {
    let msgs = Arc::new(m08_msgs());
    let m2 = msgs.clone();
    let shapes = Arc::new(small_shapes());
    let k = if t { 4 } else { 3 };
    let tails: &'static [&'static [u8]] = &[&[], &[0x00], &[0xc1], &[0x93], &[0xff; 9], &[0xa5, b'h'], &[0xdd, 0xff, 0xff, 0xff, 0xff]];
    vec![
        space("streams", format!("every sequence of 1..={k} messages of {} kinds (index flavour, middle one in the named flavour), each tail, decoded one by one in four ways", msgs.len()), move |c| {
            let n = c.num(1, k);
            let ids: Vec<usize> = (0..n).map(|_| c.choose(msgs.len())).collect();
            c.state(&ids); c.sample(|| format!("{ids:?}"));
            let mut doc = vec![];
            let mut ends = vec![];
            for (j, i) in ids.iter().enumerate() { let (sh, v) = &msgs[*i]; doc.extend(mser_ok([Fl::Idx, Fl::Named, Fl::Compact][j % 3], sh, v)?); ends.push(doc.len()) }
            let total = doc.len();
            for tail in if n < 3 { tails } else { &tails[..3] } {
                doc.truncate(total);
                doc.extend_from_slice(tail);
                // by consumed length, judged against the reference with lent positions
                let mut at = 0;
                for (j, i) in ids.iter().enumerate() {
                    let (sh, v) = &msgs[*i];
                    let o = mdec(sh, &doc[at..])?;
                    let want = canon(sh, v, false);
                    match o.res { Ok(g) => ensure!(same(&g, &want), "message {j} of [{}] reads {} instead of {}", hex(&doc), brief(&g), brief(&want)), Err(e) => fail!("message {j} of [{}] rejected with {e:?}", hex(&doc)) }
                    at += o.used;
                    ensure!(at == ends[j], "message {j} of [{}] ends at {at}, want {}", hex(&doc), ends[j]);
                    mjudge(sh, &doc[at - o.used..])?;
                }
                // by tail
                let copy = doc.clone();
                let mut rest: &[u8] = &doc;
                for (j, i) in ids.iter().enumerate() {
                    set_shape(msgs[*i].0);
                    let (d, t2) = match imp(|| mp::from_slice_split_tail::<Dyn>(rest))? { Ok(x) => x, Err(e) => fail!("splitting message {j} of [{}] failed with {e:?}", hex(&doc)) };
                    ensure!(same(&d.0, &canon(msgs[*i].0, &msgs[*i].1, false)), "splitting message {j} of [{}] reads {}", hex(&doc), brief(&d.0));
                    let off = t2.as_ptr() as usize - doc.as_ptr() as usize;
                    ensure!(off == ends[j] && t2.len() == doc.len() - ends[j], "tail after message {j} is {off}+{}, want {}+{}", t2.len(), ends[j], doc.len() - ends[j]);
                    rest = t2;
                }
                ensure!(copy == doc, "input modified");
                // by skipping
                let mut at = 0;
                for e in &ends { match eat(&doc[at..])? { Ok(n) => at += n, Err(e) => fail!("skipping in [{}] failed with {e}", hex(&doc)) } ensure!(at == *e, "skipping in [{}] stops at {at}, want {e}", hex(&doc)) }
                // one deserializer for all
                let r = imp(|| -> Result<(Vec<V>, usize), String> {
                    let mut de = mp::de::Deserializer::from_slice(&doc);
                    let mut vs = vec![];
                    for i in &ids { set_shape(msgs[*i].0); let d: Dyn = serde::Deserialize::deserialize(&mut de).map_err(|e: mp::de::Error| format!("{e:?}"))?; vs.push(d.0) }
                    let left = de.remaining_len();
                    Ok((vs, left))
                })?;
                match r {
                    Ok((vs, left)) => { ensure!(left == tail.len(), "one deserializer leaves {left} bytes of a {}-byte tail", tail.len()); for (i, g) in ids.iter().zip(vs) { ensure!(same(&g, &canon(msgs[*i].0, &msgs[*i].1, false)), "one deserializer reads {} in [{}]", brief(&g), hex(&doc)) } }
                    Err(e) => fail!("one deserializer over [{}] failed with {e}", hex(&doc)),
                }
            }
            Ok(())
        }),
        space("serializer-stream", "every pair of messages written through one serializer object and read back one by one", move |c| {
            let (i, j) = (c.choose(m2.len()), c.choose(m2.len()));
            let fl = *c.pick(&FLS);
            let mut sink = Sink::default();
            let (x, y) = (SV(m2[i].0, &m2[i].1), SV(m2[j].0, &m2[j].1));
            macro_rules! go { ($t:ident) => { imp(|| { let mut s = mp::ser::$t::new(&mut sink); x.serialize(&mut s).and_then(|_| y.serialize(&mut s)).is_ok() })? } }
            let ok = match fl { Fl::Compact => go!(CompactSerializer), Fl::Idx => go!(StructMapIdxSerializer), Fl::Named => go!(StructMapStrSerializer) };
            ensure!(ok, "serializing two messages failed");
            let o = mdec(m2[i].0, &sink.buf)?;
            ensure!(o.res.as_ref().is_ok_and(|g| same(g, &canon(m2[i].0, &m2[i].1, false))), "first of two messages reads {:?} in [{}]", o.res, hex(&sink.buf));
            let p = mdec(m2[j].0, &sink.buf[o.used..])?;
            ensure!(p.res.as_ref().is_ok_and(|g| same(g, &canon(m2[j].0, &m2[j].1, false))) && o.used + p.used == sink.buf.len(), "second of two messages reads {:?} in [{}]", p.res, hex(&sink.buf));
            c.state(&(i, j, fl));
            Ok(())
        }),
        space("tails", "every depth-1 catalog message followed by every byte value and by another message: value, consumed length and borrowed positions", move |c| {
            let i = c.choose(shapes.len());
            if has(shapes[i], &|s| matches!(s, Sh::Any | Sh::Ign)) { return Ok(()) }
            let v = gen(c, shapes[i], 0, 1);
            let fl = *c.pick(&FLS);
            let mut doc = mser_ok(fl, shapes[i], &v)?;
            let n = doc.len();
            doc.extend([0, 0x91, 0xa2, b'h']);
            for x in 0..=255u8 { doc[n] = x; let s = mjudge(shapes[i], &doc)?; ensure!(s == Seen::Accept, "reference rejects [{}]", hex(&doc)) }
            c.bulk(256);
            Ok(())
        }),
        space("tail-runs", format!("messages of 7 kinds followed by every sequence of up to {} bytes of 00 01 90 a1 c0 c1 ff, and by runs of every byte value of every length up to 40: value, consumed length and tail", if t { 7 } else { 5 }), move |c| {
            let one: [(S, &[u8]); 7] = [(U8S, &[1]), (&Sh::Unit, &[0xc0]), (&Sh::BStr, &[0xa1, b'x']), (&Sh::Bytes, &[0xc4, 1, 0xc1]), (&Sh::Seq(U8S), &[0x91, 7]), (&Sh::Map(U8S, U8S), &[0x81, 1, 2]), (&Sh::Seq(U8S), &[0x90])];
            let (sh, m) = *c.pick(&one);
            let mut doc = m.to_vec();
            let go = |doc: &[u8]| -> R {
                ensure!(mjudge(sh, doc)? == Seen::Accept, "reference rejects [{}]", hex(doc));
                set_shape(sh);
                match imp(|| mp::from_slice_split_tail::<Dyn>(doc))? { Ok((_, t)) => ensure!(t == &doc[m.len()..] && t.as_ptr() == doc[m.len()..].as_ptr(), "tail of [{}] is [{}]", hex(doc), hex(t)), Err(e) => fail!("splitting [{}] fails with {e:?}", hex(doc)) }
                match eat(doc)? { Ok(n) => ensure!(n == m.len(), "skipping in [{}] stops at {n}", hex(doc)), Err(e) => fail!("skipping in [{}] fails with {e}", hex(doc)) }
                Ok(())
            };
            if c.flag() {
                let x = c.choose(256) as u8;
                for _ in 0..40 { doc.push(x); go(&doc)?; doc.push(1); go(&doc)?; doc.pop(); }
                c.bulk(80);
            } else {
                let k = c.num(0, if t { 7 } else { 5 });
                for _ in 0..k { doc.push([0u8, 1, 0x90, 0xa1, 0xc0, 0xc1, 0xff][c.choose(7)]) }
                c.state(&doc); c.sample(|| hex(&doc));
                go(&doc)?;
            }
            Ok(())
        }),
    ]
}

// ------------------------------------------------------------------ M09
#[derive(Clone, Debug, Hash, PartialEq)]
struct Beh { kind: u8, announce: Option<usize>, /** per step: emit (true) or skip */ steps: Vec<bool>, entry: bool }
const BKINDS: [&str; 7] = ["seq", "tuple", "tuple struct", "tuple variant", "map", "struct", "struct variant"];
static FN: std::sync::OnceLock<&'static [&'static str]> = std::sync::OnceLock::new();
fn fname(i: usize) -> &'static str { FN.get_or_init(|| names(64, "n"))[i] }
impl Serialize for Beh {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        let n = self.announce;
        let el = |i: usize| -> u16 { 100 + i as u16 };
        macro_rules! run { ($q:expr, $m:ident) => {{ let mut q = $q?; for (i, _) in self.steps.iter().enumerate() { q.$m(&el(i))? } q.end() }} }
        match self.kind {
            0 => run!(z.serialize_seq(n), serialize_element),
            1 => run!(z.serialize_tuple(n.unwrap()), serialize_element),
            2 => run!(z.serialize_tuple_struct("T", n.unwrap()), serialize_field),
            3 => run!(z.serialize_tuple_variant("E", 1, "V", n.unwrap()), serialize_field),
            4 => { let mut q = z.serialize_map(n)?; for i in 0..self.steps.len() { if self.entry { q.serialize_entry(&el(i), &el(i))? } else { q.serialize_key(&el(i))?; q.serialize_value(&el(i))? } } q.end() }
            5 => { let mut q = z.serialize_struct("S", n.unwrap())?; for (i, e) in self.steps.iter().enumerate() { if *e { q.serialize_field(fname(i), &el(i))? } else { q.skip_field(fname(i))? } } q.end() }
            _ => { let mut q = z.serialize_struct_variant("E", 2, "W", n.unwrap())?; for (i, e) in self.steps.iter().enumerate() { if *e { q.serialize_field(fname(i), &el(i))? } else { q.skip_field(fname(i))? } } q.end() }
        }
    }
}
impl Beh {
    /// what must happen: the error, or the items in the output
    fn want(&self, fl: Fl) -> Result<Vec<u8>, &'static str> {
        let lenerr = if self.kind == 4 || (self.kind >= 5 && fl != Fl::Compact) { "MapLength" } else { "SeqLength" };
        let Some(n) = self.announce else { return Err(lenerr) };
        if n as u64 > u32::MAX as u64 { return Err(lenerr) }
        let mut left = n;
        for e in &self.steps {
            if *e { if left == 0 { return Err(lenerr) } left -= 1 }
            else if fl == Fl::Compact && left > 0 { return Err("FieldSkipped") }
        }
        if left > 0 { return Err(lenerr) }
        let mut pick = |_: usize| 0;
        let mut o = Enc2 { out: vec![], pick: &mut pick, forms: false };
        if self.kind == 3 || self.kind == 6 { let v = (self.kind / 3) as i128; o.map(1); if fl == Fl::Named { o.text(if v == 1 { b"V" } else { b"W" }) } else { o.int(v) } }
        let map = self.kind == 4 || (self.kind >= 5 && fl != Fl::Compact);
        if map { o.map(n) } else { o.arr(n) }
        for (i, e) in self.steps.iter().enumerate() {
            if !*e { continue }
            if self.kind == 4 { o.int(100 + i as i128) }
            if self.kind >= 5 { match fl { Fl::Compact => {} Fl::Idx => o.int(i as i128), Fl::Named => o.text(fname(i).as_bytes()) } }
            o.int(100 + i as i128);
        }
        Ok(o.out)
    }
}
struct In<'a>(&'a Beh, u8);
impl Serialize for In<'_> {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        match self.1 {
            0 => self.0.serialize(z),
            1 => (true, self.0, 7u8).serialize(z),
            2 => { let mut q = z.serialize_map(Some(2))?; q.serialize_entry("k", self.0)?; q.serialize_entry("z", &1u8)?; q.end() }
            3 => z.serialize_newtype_struct("N", self.0),
            4 => z.serialize_some(self.0),
            5 => z.serialize_newtype_variant("E", 0, "N", self.0),
            6 => { let mut q = z.serialize_struct("S", 2)?; q.serialize_field("f", self.0)?; q.serialize_field("g", &2u8)?; q.end() }
            _ => { let mut q = z.serialize_map(Some(1))?; q.serialize_entry(self.0, &1u8)?; q.end() }
        }
    }
}
fn outer(k: u8, fl: Fl, inner: &[u8]) -> Vec<u8> {
    let n = fl == Fl::Named;
    match k {
        1 => [&[0x93, 0xc3], inner, &[7]].concat(),
        2 => [&[0x82, 0xa1, b'k'], inner, &[0xa1, b'z', 1]].concat(),
        5 => [if n { &[0x81, 0xa1, b'N'][..] } else { &[0x81, 0] }, inner].concat(),
        6 => match fl { Fl::Compact => [&[0x92], inner, &[2]].concat(), Fl::Idx => [&[0x82, 0], inner, &[1, 2]].concat(), Fl::Named => [&[0x82, 0xa1, b'f'], inner, &[0xa1, b'g', 2]].concat() },
        7 => [&[0x81], inner, &[1]].concat(),
        _ => inner.to_vec(),
    }
}
fn beh_check(x: &Beh, fl: Fl, ctx: u8) -> R {
    let r = mser(fl, &In(x, ctx))?;
    let what = || format!("{} {x:?} in context {ctx} ({fl:?})", BKINDS[x.kind as usize]);
    match (x.want(fl), &r) {
        (Ok(w), Ok(o)) => { let w = outer(ctx, fl, &w); ensure!(*o == w, "{} gives [{}], want [{}]", what(), hex(o), hex(&w)); ensure!(mref::skip(o, 0) == Ok(o.len()), "{} output [{}] is not one message", what(), hex(o)); }
        (Ok(_), Err(e)) => fail!("{} fails with {e}", what()),
        (Err(w), Ok(o)) => fail!("{} succeeds with [{}], want {w}", what(), hex(o)),
        (Err(w), Err(e)) => ensure!(w == e, "{} fails with {e}, want {w}", what()),
    }
    #[cfg(feature = "heap")]
    {
        let v = imp(|| match fl { Fl::Compact => mp::to_vec_compact(&In(x, ctx)), Fl::Idx => mp::to_vec(&In(x, ctx)), Fl::Named => mp::to_vec_named(&In(x, ctx)) })?;
        match (v, r) { (Ok(a), Ok(o)) => ensure!(a == o, "to_vec differs from to_writer for {}", what()), (Err(e), Err(k)) => ensure!(kind(&e) == k, "to_vec fails with {e:?}, to_writer with {k} for {}", what()), (a, o) => fail!("to_vec gives {a:?}, to_writer {o:?} for {}", what()) }
    }
    Ok(())
}
fn m09(t: bool) -> Vec<Space> {
    let max = if t { 6 } else { 4 };
    let skips = Arc::new(m09_skip_shapes());
    vec![
        space("counts", "every compound kind, announced length none, 0..=18, 255..=257, 65535, 65536, 2^32-1, 2^32, max; 0..=18 elements; 8 surrounding contexts; 3 flavours", move |c| {
            let kind = c.choose(7) as u8;
            let opt = kind == 0 || kind == 4;
            let mut ann: Vec<Option<usize>> = (0..=18).map(Some).collect();
            ann.extend([255, 256, 257, 65535, 65536, u32::MAX as usize, (u32::MAX as usize).wrapping_add(1), (u32::MAX as usize).wrapping_add(2), usize::MAX].map(Some));
            if opt { ann.insert(0, None) }
            let announce = *c.pick(&ann);
            let n = c.num(0, 18);
            let entry = if kind == 4 { c.flag() } else { false };
            let fl = *c.pick(&FLS);
            let ctx = if n <= 3 { c.choose(8) } else { 0 } as u8;
            let x = Beh { kind, announce, steps: vec![true; n], entry };
            c.state(&(&x, fl, ctx)); c.sample(|| format!("{x:?}"));
            beh_check(&x, fl, ctx)
        }),
        space("skips", format!("structs and struct variants announcing 0..={max}, with every emit/skip pattern of up to {max} fields, 8 contexts, 3 flavours"), move |c| {
            let kind = 5 + c.choose(2) as u8;
            let n = c.num(0, max);
            let steps: Vec<bool> = (0..n).map(|_| c.flag()).collect();
            let announce = Some(c.num(0, max));
            let fl = *c.pick(&FLS);
            let ctx = c.choose(8) as u8;
            let x = Beh { kind, announce, steps, entry: false };
            c.state(&(&x, fl, ctx)); c.sample(|| format!("{x:?} {fl:?}"));
            beh_check(&x, fl, ctx)
        }),
        space("skip-values", "every subset of skipped fields of a typed 4-field struct, struct variant and nested struct: output, and its round trip", move |c| {
            let i = c.choose(skips.len());
            let v = skip_value(c, skips[i]);
            let fl = *c.pick(&FLS);
            c.state(&(i, &v, fl));
            let holes = match &v { V::Struct(f) => hole(f), V::Var(_, x) => match &**x { V::Struct(f) => hole(f), _ => false }, V::Seq(x) => match &x[0] { V::Struct(f) => hole(f), _ => false }, _ => false };
            let r = mser(fl, &SV(skips[i], &v))?;
            match r {
                Ok(o) => { ensure!(!(holes && fl == Fl::Compact), "compact {v:?} succeeded"); match_out(skips[i], &v, fl, &o).map_err(b)?; ensure!(mref::skip(&o, 0) == Ok(o.len()), "not one message: [{}]", hex(&o)); mjudge(skips[i], &o)?; }
                Err(e) => ensure!(holes && fl == Fl::Compact && e == "FieldSkipped", "{v:?} ({fl:?}) fails with {e}"),
            }
            Ok(())
        }),
        space("hints", "serde values announcing no or a wrong length", |c| {
            let h = Hinted { map: c.flag(), hint: [None, Some(0), Some(1), Some(2), Some(3)][c.choose(5)], n: c.num(0, 3) };
            let fl = *c.pick(&FLS);
            let r = mser(fl, &h)?;
            let ok = h.hint == Some(h.n);
            ensure!(r.is_ok() == ok, "hint {:?} with {} elements gives {r:?}", h.hint, h.n);
            match r { Ok(o) => ensure!(mref::skip(&o, 0) == Ok(o.len()), "not one message [{}]", hex(&o)), Err(e) => ensure!(e == if h.map { "MapLength" } else { "SeqLength" }, "wrong error {e}") }
            c.state(&(h.map, h.hint, h.n, fl));
            Ok(())
        }),
        wide_skips(),
        key_calls(),
    ]
}
/// index keys far beyond one byte
fn wide_skips() -> Space {
    space("wide-skips", "index keys of structs of boundary sizes where only the last, or every third, field is emitted", |c| {
        let n = *c.pick(&[1usize, 2, 17, 33, 128, 129, 130, 256, 257, 258, 300, 65536, 65537, 65540]);
        let k = c.choose(3);
        let fl = *c.pick(&FLS);
        let var = c.flag();
        let f: Vec<Option<V>> = (0..n).map(|i| match k { 0 => i + 1 == n, 1 => i % 3 == 2, _ => i < n / 2 }.then(|| V::Bool(i % 2 == 0))).collect();
        let holes = hole(&f);
        let (sh, v) = if var { (wide_struct_variant(n), V::Var(0, Box::new(V::Struct(f)))) } else { (wide_struct(n), V::Seq(vec![V::Struct(f), V::Int(77)])) };
        c.state(&(n, k, fl, var));
        match mser(fl, &SV(sh, &v))? {
            Ok(o) => { ensure!(!(holes && fl == Fl::Compact), "compact struct with holes succeeded"); match_out(sh, &v, fl, &o).map_err(b)? }
            Err(e) => ensure!(holes && fl == Fl::Compact && e == "FieldSkipped", "{n} fields, pattern {k} ({fl:?}) fails with {e}"),
        }
        Ok(())
    })
}
/// map implementations that call key and value in any order
struct Calls<'a>(usize, &'a [bool]);
impl Serialize for Calls<'_> {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        let mut q = z.serialize_map(Some(self.0))?;
        for (i, key) in self.1.iter().enumerate() { let x = i as u8; if *key { q.serialize_key(&x)? } else { q.serialize_value(&x)? } }
        q.end()
    }
}
fn key_calls() -> Space {
    space("key-calls", "maps announcing 0..=4 entries whose implementation makes every sequence of up to 8 key and value calls, 3 flavours: more or fewer keys than announced never succeed, and a well-paired sequence gives the exact message", |c| {
        let n = c.num(0, 4);
        let k = c.num(0, 8);
        let calls: Vec<bool> = (0..k).map(|_| c.flag()).collect();
        let fl = *c.pick(&FLS);
        c.state(&(n, &calls, fl)); c.sample(|| format!("{n} {calls:?} {fl:?}"));
        let keys = calls.iter().filter(|k| **k).count();
        let paired = k % 2 == 0 && calls.chunks(2).all(|p| p[0] && !p[1]);
        match mser(fl, &Calls(n, &calls))? {
            Ok(o) => {
                ensure!(keys == n, "a map announcing {n} entries succeeds with {keys} keys ({calls:?}): [{}]", hex(&o));
                if paired { let w: Vec<u8> = std::iter::once(0x80 | n as u8).chain(0..k as u8).collect(); ensure!(o == w, "{calls:?} gives [{}], want [{}]", hex(&o), hex(&w)) }
            }
            Err(e) => ensure!(!(paired && keys == n), "a map of {n} entries fails with {e} ({calls:?})"),
        }
        Ok(())
    })
}
fn hole(f: &[Option<V>]) -> bool { let mut gap = false; for x in f { match x { None => gap = true, Some(_) if gap => return true, _ => {} } } false }
fn m09_skip_shapes() -> Vec<S> {
    static N4: &[&str] = &["a", "q\"", "", "é\n"];
    let ss: &'static [S] = leakv(vec![leak(Sh::Int(IT::I16)), &Sh::BStr, &Sh::Opt(U8S), &Sh::Seq(U8S)]);
    vec![leak(Sh::Struct(leak(SD { name: "S", fields: N4, shapes: ss }))),
        leak(Sh::Enum(leak(ED { name: "E", names: &["V"], vars: leakv(vec![Var::Struct(N4, ss)]) }))),
        leak(Sh::Tup(leakv(vec![leak(Sh::Struct(leak(SD { name: "S", fields: N4, shapes: ss }))) as S, U8S])))]
}

// ------------------------------------------------------------------ M10
pub fn any_judge(doc: &[u8]) -> R {
    let s = mjudge(&Sh::Any, doc)?;
    if s == Seen::Reject {
        // the first offending header decides the error
        let o = mdec(&Sh::Any, doc)?;
        let e = o.res.err().map(|e| kind(&e)).unwrap_or_default();
        if let Some(w) = any_error(doc) { ensure!(e == w, "self-describing [{}] fails with {e}, want {w}", hex(doc)) }
    }
    Ok(())
}
/// error kind when the content up to the offending header is sound
fn any_error(doc: &[u8]) -> Option<&'static str> {
    let (mut i, mut todo) = (0usize, 1u64);
    while todo > 0 {
        todo -= 1;
        match *doc.get(i)? { 0xc1 => return Some("ReservedCode"), 0xc7..=0xc9 | 0xd4..=0xd8 => return Some("UnsupportedExt"), _ => {} }
        let (h, j) = mref::head(doc, i).ok()?;
        i = j;
        match h {
            mref::H::Str(n) => { let s = doc.get(i..i.checked_add(n)?)?; if std::str::from_utf8(s).is_err() { return Some("InvalidUnicodeCodePoint") } i += n }
            mref::H::Bin(n) => i = i.checked_add(n)?,
            mref::H::Arr(n) => todo += n as u64,
            mref::H::Map(n) => todo += 2 * n as u64,
            _ => {}
        }
    }
    None
}
fn m10(t: bool) -> Vec<Space> {
    let eds = Arc::new(edges());
    let (f32s, f64s) = (Arc::new(f32_grid()), Arc::new(f64_grid()));
    let shapes = cat(t);
    let n = shapes.len();
    let leafs = Arc::new(leaf_toks());
    let tb = if t { 4 } else { 3 };
    let c1 = Arc::new(catalog(1, &leaves(), WRAPS));
    #[allow(unused_mut)]
    let mut v = vec![
        space("leads", "every leading byte with 0..=20 following bytes of several patterns, bare, in an array, as map key and as map value", |c| {
            let x = c.choose(256) as u8;
            let n = c.num(0, 20);
            for f in [0u8, 1, 0x41, 0x91, 0xc0, 0xff] {
                let mut d = vec![x]; d.extend(std::iter::repeat(f).take(n));
                any_judge(&d)?;
                for (a, z) in [(&[0x92, 0x05][..], &[][..]), (&[0x81], &[5]), (&[0x81, 0xa0], &[]), (&[0x91, 0x91], &[])] { any_judge(&[a, &d, z].concat())? }
            }
            c.bulk(30);
            Ok(())
        }),
        space("integers", "every value of 8- and 16-bit representations and the same in wider ones, and all edges: the exact number", move |c| {
            let k = c.choose(8);
            let ch = c.choose(65);
            let vals: Vec<i128> = if ch == 64 { eds.to_vec() } else { (0..1536).map(|d| ch as i128 * 1536 - 32768 + d).collect() };
            let mut n = 0;
            for x in vals { if let Some(d) = num_doc(k, x) { any_judge(&d)?; let o = mdec(&Sh::Any, &d)?; ensure!(o.res == Ok(V::Int(x)), "[{}] reads {:?}, want {x}", hex(&d), o.res); n += 1 } }
            c.bulk(n);
            Ok(())
        }),
        space("floats", "float grids of both widths: kind and bits preserved", move |c| {
            let w = c.flag();
            let total = if w { f64s.len() } else { f32s.len() };
            let r = chunked(c, total, 4096);
            for i in r {
                let (d, v) = if w { ([&[0xcb][..], &f64s[i].to_be_bytes()].concat(), V::F64(f64s[i])) } else { ([&[0xca][..], &f32s[i].to_be_bytes()].concat(), V::F32(f32s[i])) };
                let o = mdec(&Sh::Any, &d)?;
                ensure!(o.res == Ok(v.clone()), "[{}] reads {:?}, want {v:?}", hex(&d), o.res);
            }
            c.bulk(4096);
            Ok(())
        }),
        space("serialized", format!("everything the three flavours emit for {n} shapes"), move |c| {
            let i = c.choose(shapes.len());
            let v = gen(c, shapes[i], (i < 220) as usize, 2);
            let fl = *c.pick(&FLS);
            let doc = mser_ok(fl, shapes[i], &v)?;
            c.state(&doc); c.sample(|| hex(&doc));
            let s = mjudge(&Sh::Any, &doc)?;
            ensure!(s == Seen::Accept, "output [{}] is not self-describing", hex(&doc));
            Ok(())
        }),
        space("widths", "every encoding of the depth-1 catalog with at most 2 departures from the minimal one", move |c| {
            let i = c.choose(c1.len());
            let v = gen(c, c1[i], 0, 1);
            let doc = encode_dev(c, c1[i], &v, if t { 2 } else { 1 });
            c.state(&doc);
            any_judge(&doc)
        }),
        space("trees", format!("container trees of every width with up to {tb} containers, any leaf kind including extensions and the reserved code"), move |c| {
            let few: &[Vec<u8>] = &[vec![0xc0], vec![0xcd, 1, 2], vec![0xa2, b'a', b'b'], vec![0xc4, 1, 0x93], vec![0xd4, 1, 2], vec![0xc1], vec![0xa1, 0xff]];
            let mut o = vec![];
            tree(c, few, &mut { tb }, &mut o);
            c.state(&o);
            any_judge(&o)
        }),
        space("trees-full", "one container with leaves of every kind", move |c| {
            let mut o = vec![];
            tree(c, &leafs[..], &mut if t { 2 } else { 1 }, &mut o);
            c.state(&o);
            any_judge(&o)
        }),
        space("lengths", "strings, byte arrays, sequences and maps of ladder lengths", |c| {
            let k = c.choose(NLONG);
            let n = *c.pick(&[0usize, 1, 15, 16, 31, 32, 33, 127, 128, 255, 256, 257, 65535, 65536]);
            let (sh, v) = long_value(k, n);
            let doc = mser_ok(Fl::Idx, sh, &v)?;
            c.state(&(k, n));
            any_judge(&doc)
        }),
    ];
    #[cfg(feature = "realm")]
    v.extend(crate::real::msgpack_any_spaces(t));
    v
}

// ------------------------------------------------------------------ M11
/// A Display whose passes are scripted: fragments written, and where it fails.
struct Script<'a> { pass: Cell<usize>, frags: [&'a [String]; 2], fail: [Option<usize>; 2], swallow: bool }
impl std::fmt::Display for Script<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let p = self.pass.get().min(1);
        self.pass.set(self.pass.get() + 1);
        for (i, s) in self.frags[p].iter().enumerate() {
            if self.fail[p] == Some(i) { return Err(std::fmt::Error) }
            let r = if s.chars().count() == 1 { f.write_char_(s.chars().next().unwrap()) } else { f.write_str(s) };
            if !self.swallow { r? }
        }
        if self.fail[p] == Some(self.frags[p].len()) { return Err(std::fmt::Error) }
        Ok(())
    }
}
trait Wc { fn write_char_(&mut self, c: char) -> std::fmt::Result; }
impl Wc for std::fmt::Formatter<'_> { fn write_char_(&mut self, c: char) -> std::fmt::Result { std::fmt::Write::write_char(self, c) } }
struct Coll<'a>(&'a Script<'a>, u8);
struct C1<'a>(&'a Script<'a>);
impl Serialize for C1<'_> { fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { z.collect_str(self.0) } }
impl Serialize for Coll<'_> {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        match self.1 {
            0 => C1(self.0).serialize(z),
            1 => (true, C1(self.0), 7u8).serialize(z),
            _ => { let mut q = z.serialize_map(Some(1))?; q.serialize_entry(&C1(self.0), &9u8)?; q.end() }
        }
    }
}
fn coll_wrap(ctx: u8, s: &[u8]) -> Vec<u8> { match ctx { 0 => s.to_vec(), 1 => [&[0x93, 0xc3], s, &[7]].concat(), _ => [&[0x81], s, &[9]].concat() } }
fn str_msg(s: &str) -> Vec<u8> { let mut p = |_: usize| 0; let mut e = Enc2 { out: vec![], pick: &mut p, forms: false }; e.text(s.as_bytes()); e.out }
fn m11_check(sc: &Script, fl: Fl, ctx: u8) -> R {
    sc.pass.set(0);
    let r = mser(fl, &Coll(sc, ctx))?;
    let texts: [String; 2] = [sc.frags[0].concat(), sc.frags[1].concat()];
    let stable = texts[0] == texts[1] && sc.fail == [None, None];
    let what = || format!("formatted {:?}/{:?} failing at {:?} (swallow {}) in context {ctx} ({fl:?})", sc.frags[0], sc.frags[1], sc.fail, sc.swallow);
    match &r {
        Ok(o) => {
            let ok = texts.iter().any(|t| *o == coll_wrap(ctx, &str_msg(t))) || (!stable && mref::skip(o, 0) == Ok(o.len()) && mref::decode(&Sh::Any, o).is_ok() && shape_ok(ctx, o));
            ensure!(ok, "{} succeeds with [{}]", what(), hex(o));
            ensure!(!stable || *o == coll_wrap(ctx, &str_msg(&texts[0])), "{} gives [{}]", what(), hex(o));
        }
        Err(e) => { ensure!(!stable, "{} fails with {e}", what()); }
    }
    if sc.fail[0].is_some() { ensure!(r.is_err(), "{} succeeded although formatting failed", what()) }
    #[cfg(feature = "heap")]
    {
        sc.pass.set(0);
        let x = Coll(sc, ctx);
        let v = imp(|| match fl { Fl::Compact => mp::to_vec_compact(&x), Fl::Idx => mp::to_vec(&x), Fl::Named => mp::to_vec_named(&x) })?;
        if stable { ensure!(v == Ok(coll_wrap(ctx, &str_msg(&texts[0]))), "to_vec gives {v:?} for {}", what()) }
        else if let Ok(o) = v { ensure!(mref::skip(&o, 0) == Ok(o.len()) && shape_ok(ctx, &o), "to_vec gives [{}] for {}", hex(&o), what()) }
    }
    Ok(())
}
fn shape_ok(ctx: u8, o: &[u8]) -> bool {
    let sh: S = match ctx { 0 => &Sh::Str, 1 => memo_n(0, 17, |_| leak(Sh::Tup(leakv(vec![&Sh::Bool as S, &Sh::Str, U8S])))), _ => memo_n(0, 18, |_| leak(Sh::Map(&Sh::Str, U8S))) };
    mref::decode(sh, o).map(|x| x.1) == Ok(o.len())
}
fn m11(t: bool) -> Vec<Space> {
    let atoms: &'static [&'static str] = &["", "a", "é", "😀", "bc", "\u{0}"];
    let nmax = if t { 5 } else { 4 };
    let lens = Arc::new(ladder());
    vec![
        space("fragments", format!("every sequence of up to {nmax} fragments of {atoms:?}, 3 flavours, bare, in a tuple and as map key"), move |c| {
            let n = c.num(0, nmax);
            let fr: Vec<String> = (0..n).map(|_| c.pick(atoms).to_string()).collect();
            let fl = *c.pick(&FLS);
            let ctx = c.choose(3) as u8;
            c.state(&(&fr, fl, ctx)); c.sample(|| format!("{fr:?}"));
            m11_check(&Script { pass: Cell::new(0), frags: [&fr, &fr], fail: [None, None], swallow: false }, fl, ctx)
        }),
        space("lengths", format!("text of each length in {LADDER:?} in 1, 2, 3, 5 and per-character fragments"), move |c| {
            let n = *c.pick(&lens);
            let k = *c.pick(&[1usize, 2, 3, 5, 1 << 20]);
            let text: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
            let size = (n + k - 1) / k;
            let fr: Vec<String> = if n == 0 { vec![] } else { text.as_bytes().chunks(size.max(1)).map(|c| std::str::from_utf8(c).unwrap().to_string()).collect() };
            c.state(&(n, k));
            for fl in FLS { m11_check(&Script { pass: Cell::new(0), frags: [&fr, &fr], fail: [None, None], swallow: false }, fl, (n % 3) as u8)? }
            Ok(())
        }),
        space("failing", format!("formatting that fails at any point of the first or a later pass, up to {nmax} fragments"), move |c| {
            let n = c.num(0, nmax.min(4));
            let fr: Vec<String> = (0..n).map(|_| c.pick(&atoms[..4]).to_string()).collect();
            let p = c.choose(3);
            let at = c.num(0, n);
            let fail = [(p != 1).then_some(at), (p != 0).then_some(at)];
            let fl = *c.pick(&FLS);
            let ctx = c.choose(3) as u8;
            c.state(&(&fr, fail, fl, ctx));
            m11_check(&Script { pass: Cell::new(0), frags: [&fr, &fr], fail, swallow: false }, fl, ctx)
        }),
        space("disagreeing", "every pair of texts of up to 3 fragments for the first and later passes, reporting or swallowing write errors", move |c| {
            let mut one = |m: usize| -> Vec<String> { let n = c.num(0, m); (0..n).map(|_| c.pick(&atoms[..5]).to_string()).collect() };
            let (a, d) = (one(if t { 3 } else { 2 }), one(3));
            let swallow = c.flag();
            let fl = FLS[a.len() % 3];
            let ctx = c.choose(3) as u8;
            c.state(&(&a, &d, swallow, ctx));
            m11_check(&Script { pass: Cell::new(0), frags: [&a, &d], fail: [None, None], swallow }, fl, ctx)
        }),
        space("disagreeing-lengths", "texts whose length differs between passes around every header boundary, reporting or swallowing write errors", move |c| {
            let ls: &[usize] = &[0, 1, 2, 30, 31, 32, 33, 254, 255, 256, 257, 65534, 65535, 65536];
            let (x, y) = (*c.pick(ls), *c.pick(ls));
            let pieces = *c.pick(&[1usize, 2, 7]);
            let swallow = c.flag();
            let mk = |n: usize| -> Vec<String> { let s = "y".repeat(n); s.as_bytes().chunks(((n + pieces - 1) / pieces).max(1)).map(|c| std::str::from_utf8(c).unwrap().to_string()).collect() };
            let (a, d) = (mk(x), mk(y));
            c.state(&(x, y, pieces, swallow));
            m11_check(&Script { pass: Cell::new(0), frags: [&a, &d], fail: [None, None], swallow }, Fl::Idx, (pieces % 3) as u8)
        }),
        space("sink-failure", "formatted values into a sink refusing each write in turn: an error, never success", move |c| {
            let n = c.num(0, 3);
            let fr: Vec<String> = (0..n).map(|_| c.pick(&atoms[..4]).to_string()).collect();
            let ctx = c.choose(3) as u8;
            let fl = *c.pick(&FLS);
            let sc = Script { pass: Cell::new(0), frags: [&fr, &fr], fail: [None, None], swallow: false };
            let mut s = Sink::default();
            ensure!(mser_sink(fl, &Coll(&sc, ctx), &mut s)?.is_ok(), "formatting failed");
            for k in 0..s.calls {
                sc.pass.set(0);
                let mut f = Sink { fail_at: Some(k), ..Default::default() };
                let r = mser_sink(fl, &Coll(&sc, ctx), &mut f)?;
                if f.calls > k { ensure!(r.is_err(), "success although write {k} was refused for {fr:?} in context {ctx}") }
            }
            c.state(&(&fr, ctx, fl));
            Ok(())
        }),
    ]
}
