//! MessagePack reference model, written from the MessagePack specification and the documented
//! type table: an output matcher and a typed reference decoder accepting every header width.
use crate::jref::{Rs, E};
use crate::shape::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fl { Compact, Idx, Named }
pub const FLS: [Fl; 3] = [Fl::Compact, Fl::Idx, Fl::Named];
pub fn hex(b: &[u8]) -> String {
    if b.len() > 200 { return format!("{}..({} bytes)", hex(&b[..64]), b.len()) }
    b.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(" ")
}

// ------------------------------------------------------------------ decoded header
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum H { Nil, Bool(bool), UInt(u64), SInt(i64), F32(u32), F64(u64), Str(usize), Bin(usize), Arr(usize), Map(usize), Ext(usize) }
pub fn be(b: &[u8]) -> u64 { b.iter().fold(0, |a, x| a << 8 | *x as u64) }
/// Header at `i` and the position after it (for scalars: after the value).
pub fn head(b: &[u8], i: usize) -> Rs<(H, usize)> {
    let c = *b.get(i).ok_or(E::Eof)?;
    let num = |n: usize| -> Rs<u64> { b.get(i + 1..i + 1 + n).map(be).ok_or(E::Eof) };
    let sx = |v: u64, bits: u32| ((v << (64 - bits)) as i64) >> (64 - bits);
    Ok(match c {
        0..=0x7f => (H::UInt(c as u64), i + 1),
        0x80..=0x8f => (H::Map(c as usize & 15), i + 1),
        0x90..=0x9f => (H::Arr(c as usize & 15), i + 1),
        0xa0..=0xbf => (H::Str(c as usize & 31), i + 1),
        0xc0 => (H::Nil, i + 1),
        0xc1 => return Err(E::Rej),
        0xc2 => (H::Bool(false), i + 1),
        0xc3 => (H::Bool(true), i + 1),
        0xc4 => (H::Bin(num(1)? as usize), i + 2),
        0xc5 => (H::Bin(num(2)? as usize), i + 3),
        0xc6 => (H::Bin(num(4)? as usize), i + 5),
        0xc7 => (H::Ext(1 + num(1)? as usize), i + 2),
        0xc8 => (H::Ext(1 + num(2)? as usize), i + 3),
        0xc9 => (H::Ext(1 + num(4)? as usize), i + 5),
        0xca => (H::F32(num(4)? as u32), i + 5),
        0xcb => (H::F64(num(8)?), i + 9),
        0xcc => (H::UInt(num(1)?), i + 2),
        0xcd => (H::UInt(num(2)?), i + 3),
        0xce => (H::UInt(num(4)?), i + 5),
        0xcf => (H::UInt(num(8)?), i + 9),
        0xd0 => (H::SInt(sx(num(1)?, 8)), i + 2),
        0xd1 => (H::SInt(sx(num(2)?, 16)), i + 3),
        0xd2 => (H::SInt(sx(num(4)?, 32)), i + 5),
        0xd3 => (H::SInt(num(8)? as i64), i + 9),
        0xd4..=0xd8 => (H::Ext(1 + (1 << (c - 0xd4))), i + 1),
        0xd9 => (H::Str(num(1)? as usize), i + 2),
        0xda => (H::Str(num(2)? as usize), i + 3),
        0xdb => (H::Str(num(4)? as usize), i + 5),
        0xdc => (H::Arr(num(2)? as usize), i + 3),
        0xdd => (H::Arr(num(4)? as usize), i + 5),
        0xde => (H::Map(num(2)? as usize), i + 3),
        0xdf => (H::Map(num(4)? as usize), i + 5),
        0xe0..=0xff => (H::SInt(c as i8 as i64), i + 1),
    })
}
/// Position after the message at `i`.
pub fn skip(b: &[u8], mut i: usize) -> Rs<usize> {
    let mut todo: u128 = 1;
    while todo > 0 {
        todo -= 1;
        let (h, j) = head(b, i)?;
        i = j;
        match h {
            H::Str(n) | H::Bin(n) | H::Ext(n) => { if b.len() - i < n { return Err(E::Eof) } i += n }
            H::Arr(n) => todo += n as u128,
            H::Map(n) => todo += 2 * n as u128,
            _ => {}
        }
    }
    Ok(i)
}

// ------------------------------------------------------------------ output matcher
pub struct M<'a> { b: &'a [u8], i: usize, fl: Fl }
type Mr = Result<(), String>;
pub fn match_out(sh: S, v: &V, fl: Fl, out: &[u8]) -> Mr {
    let mut m = M { b: out, i: 0, fl };
    m.val(sh, v).and_then(|_| if m.i == out.len() { Ok(()) } else { Err("trailing output".into()) })
        .map_err(|e| format!("{e} at byte {} of output [{}] for {} as {sh:?} ({fl:?})", m.i, hex(out), brief(v)))
}
pub fn brief(v: &V) -> String { let s = format!("{v:?}"); if s.len() > 300 { s.chars().take(300).collect::<String>() + "..." } else { s } }
pub fn int_size(n: i128) -> usize {
    match n { -32..=127 => 1, -128..=255 => 2, -32768..=65535 => 3, -2147483648..=4294967295 => 5, _ => 9 }
}
impl M<'_> {
    fn lit(&mut self, s: &[u8]) -> Mr {
        if self.b[self.i..].starts_with(s) { self.i += s.len(); Ok(()) } else { Err(format!("expected {}", hex(s))) }
    }
    /// what is declared unsigned, and every index, is written as `uint`
    fn uint(&mut self, n: i128) -> Mr {
        if let Ok((H::SInt(x), _)) = head(self.b, self.i) { return Err(format!("unsigned integer {n} is written as the signed {x}")) }
        self.int(n)
    }
    fn int(&mut self, n: i128) -> Mr {
        let (h, j) = head(self.b, self.i).map_err(|e| format!("no integer: {e:?}"))?;
        let got = match h { H::UInt(x) => x as i128, H::SInt(x) => x as i128, _ => return Err(format!("expected integer {n}, found {h:?}")) };
        if got != n { return Err(format!("integer reads {got}, want {n}")) }
        if j - self.i != int_size(n) { return Err(format!("integer {n} takes {} bytes, minimal is {}", j - self.i, int_size(n))) }
        self.i = j;
        Ok(())
    }
    fn len(&mut self, n: usize, fix: Option<(u8, usize)>, c8: Option<u8>, c16: u8, c32: u8) -> Mr {
        match fix { Some((c, max)) if n <= max => return self.lit(&[c | n as u8]), _ => {} }
        match c8 { Some(c) if n <= 0xff => return self.lit(&[c, n as u8]), _ => {} }
        if n <= 0xffff { self.lit(&[c16, (n >> 8) as u8, n as u8]) }
        else { self.lit(&[c32, (n >> 24) as u8, (n >> 16) as u8, (n >> 8) as u8, n as u8]) }
    }
    fn text(&mut self, s: &str) -> Mr { self.len(s.len(), Some((0xa0, 31)), Some(0xd9), 0xda, 0xdb)?; self.lit(s.as_bytes()) }
    fn arr(&mut self, n: usize) -> Mr { self.len(n, Some((0x90, 15)), None, 0xdc, 0xdd) }
    fn map(&mut self, n: usize) -> Mr { self.len(n, Some((0x80, 15)), None, 0xde, 0xdf) }
    fn items(&mut self, n: usize, it: &mut dyn Iterator<Item = (S, &V)>) -> Mr {
        self.arr(n)?;
        for (s, v) in it { self.val(s, v)? }
        Ok(())
    }
    fn fields(&mut self, names: &[&str], ss: &[S], fs: &[Option<V>]) -> Mr {
        let n = fs.iter().filter(|f| f.is_some()).count();
        if self.fl == Fl::Compact { self.arr(n)? } else { self.map(n)? }
        for k in 0..fs.len() {
            if let Some(v) = &fs[k] {
                match self.fl { Fl::Compact => {} Fl::Idx => self.uint(k as i128)?, Fl::Named => self.text(names[k])? }
                self.val(ss[k], v)?;
            }
        }
        Ok(())
    }
    fn val(&mut self, sh: S, v: &V) -> Mr {
        match (sh, v) {
            (Sh::Unit | Sh::UnitStruct, _) | (_, V::None) => self.lit(&[0xc0]),
            (_, V::Bool(b)) => self.lit(&[0xc2 + *b as u8]),
            (Sh::Int(t), V::Int(n)) if !t.signed() => self.uint(*n),
            (_, V::Int(n)) => self.int(*n),
            (_, V::F32(x)) => { self.lit(&[0xca])?; self.lit(&x.to_be_bytes()) }
            (_, V::F64(x)) => { self.lit(&[0xcb])?; self.lit(&x.to_be_bytes()) }
            (_, V::Char(c)) => self.text(c.encode_utf8(&mut [0; 4])),
            (Sh::Disp, V::Str(s)) => self.text(&s.replace('|', "")),
            (_, V::Str(s)) => self.text(s),
            (_, V::Bytes(b)) => { self.len(b.len(), None, Some(0xc4), 0xc5, 0xc6)?; self.lit(b) }
            (Sh::Opt(s), V::Some(x)) | (Sh::New(s), V::New(x)) => self.val(s, x),
            (Sh::Seq(s), V::Seq(xs)) => self.items(xs.len(), &mut xs.iter().map(|x| (*s, x))),
            (Sh::Tup(ss) | Sh::TupS(ss), V::Seq(xs)) => self.items(ss.len(), &mut ss.iter().copied().zip(xs)),
            (Sh::Map(k, s), V::Map(m)) => { self.map(m.len())?; for (a, b) in m { self.val(k, a)?; self.val(s, b)? } Ok(()) }
            (Sh::Struct(d), V::Struct(fs)) => self.fields(d.fields, d.shapes, fs),
            (Sh::Enum(d), V::Var(i, x)) => {
                let unit = matches!(d.vars[*i], Var::Unit);
                if !unit { self.map(1)? }
                if self.fl == Fl::Named { self.text(d.names[*i])? } else { self.uint(*i as i128)? }
                match (&d.vars[*i], &**x) {
                    (Var::Unit, _) => Ok(()),
                    (Var::New(s), x) => self.val(s, x),
                    (Var::Tup(ss), V::Seq(xs)) => self.items(ss.len(), &mut ss.iter().copied().zip(xs)),
                    (Var::Struct(n, ss), V::Struct(fs)) => self.fields(n, ss, fs),
                    _ => unreachable!(),
                }
            }
            _ => unreachable!("{sh:?} {v:?}"),
        }
    }
}

// ------------------------------------------------------------------ reference decoder
pub struct Ref<'a> { pub b: &'a [u8], pub i: usize, /** payload ranges of borrowed values */ pub lits: Vec<(usize, usize)> }
/// Value and the number of bytes the message occupies.
pub fn decode(sh: S, b: &[u8]) -> Rs<(V, usize)> { decode_full(sh, b).map(|(v, r)| (v, r.i)) }
pub fn decode_full(sh: S, b: &[u8]) -> Rs<(V, Ref<'_>)> {
    let mut r = Ref { b, i: 0, lits: vec![] };
    let v = r.val(sh)?;
    Ok((v, r))
}
enum Id { Idx(u64), Name(Vec<u8>) }
impl Ref<'_> {
    fn head(&mut self) -> Rs<H> { let (h, j) = head(self.b, self.i)?; self.i = j; Ok(h) }
    fn payload(&mut self, n: usize) -> Rs<Vec<u8>> {
        if self.b.len() - self.i < n { return Err(E::Eof) }
        let v = self.b[self.i..self.i + n].to_vec();
        self.lits.push((self.i, self.i + n));
        self.i += n;
        Ok(v)
    }
    fn string(&mut self) -> Rs<String> {
        match self.head()? { H::Str(n) => String::from_utf8(self.payload(n)?).map_err(|_| E::Rej), _ => Err(E::Rej) }
    }
    fn owned(&mut self) -> Rs<String> { let s = self.string()?; self.lits.pop(); Ok(s) }
    fn id(&mut self) -> Rs<Id> {
        match head(self.b, self.i)? {
            (H::UInt(n), j) => { self.i = j; Ok(Id::Idx(n)) }
            (H::SInt(n), _) if n >= 0 => Err(E::Dc),
            (H::Str(_), _) => Ok(Id::Name(self.owned()?.into_bytes())),
            _ => Err(E::Rej),
        }
    }
    fn tuple(&mut self, n: usize, ss: &[S]) -> Rs<Vec<V>> {
        let mut o = vec![];
        for (k, s) in ss.iter().enumerate() { if k >= n { return Err(E::Rej) } o.push(self.val(s)?) }
        if n > ss.len() { return Err(E::Rej) }
        Ok(o)
    }
    fn tuple_h(&mut self, ss: &[S]) -> Rs<Vec<V>> { match self.head()? { H::Arr(n) => self.tuple(n, ss), _ => Err(E::Rej) } }
    fn fields(&mut self, names: &[&str], ss: &[S]) -> Rs<V> {
        match self.head()? {
            H::Arr(n) => Ok(V::Struct(self.tuple(n, ss)?.into_iter().map(Some).collect())),
            H::Map(n) => {
                let mut o: Vec<Option<V>> = vec![None; ss.len()];
                for _ in 0..n {
                    let k = match self.id()? { Id::Idx(n) => (n < ss.len() as u64).then_some(n as usize), Id::Name(s) => find_name(names, &s) };
                    match k {
                        Some(k) => { if o[k].is_some() { return Err(E::Rej) } o[k] = Some(self.val(ss[k])?) }
                        None => self.i = skip(self.b, self.i)?,
                    }
                }
                for i in 0..o.len() { if o[i].is_none() { if let Sh::Opt(_) = ss[i] { o[i] = Some(V::None) } else { return Err(E::Rej) } } }
                Ok(V::Struct(o))
            }
            _ => Err(E::Rej),
        }
    }
    fn var(&mut self, d: &ED) -> Rs<usize> {
        match self.id()? {
            Id::Idx(n) if n < d.names.len() as u64 => Ok(n as usize),
            Id::Name(s) => find_name(d.names, &s).ok_or(E::Rej),
            _ => Err(E::Rej),
        }
    }
    pub fn val(&mut self, sh: S) -> Rs<V> {
        Ok(match sh {
            Sh::Unit | Sh::UnitStruct => match self.head()? { H::Nil => V::Unit, _ => return Err(E::Rej) },
            Sh::Bool => match self.head()? { H::Bool(b) => V::Bool(b), _ => return Err(E::Rej) },
            Sh::Int(t) => { let n = match self.head()? { H::UInt(n) => n as i128, H::SInt(n) => n as i128, _ => return Err(E::Rej) }; if t.has(n) { V::Int(n) } else { return Err(E::Rej) } }
            Sh::F32 => V::f32(match self.head()? { H::F32(x) => f32::from_bits(x), H::F64(x) => f64::from_bits(x) as f32, H::UInt(n) => n as f32, H::SInt(n) => n as f32, H::Nil => f32::NAN, _ => return Err(E::Rej) }),
            Sh::F64 => V::f64(match self.head()? { H::F32(x) => f32::from_bits(x) as f64, H::F64(x) => f64::from_bits(x), H::UInt(n) => n as f64, H::SInt(n) => n as f64, H::Nil => f64::NAN, _ => return Err(E::Rej) }),
            Sh::Char => { let s = self.owned()?; let mut it = s.chars(); match (it.next(), it.next()) { (Some(c), None) => V::Char(c), _ => return Err(E::Rej) } }
            Sh::Str | Sh::Disp => V::Str(self.owned()?),
            Sh::BStr => V::Str(self.string()?),
            Sh::Bytes => match self.head()? { H::Bin(n) => V::Bytes(self.payload(n)?), _ => return Err(E::Rej) },
            Sh::ByteBuf => match self.head()? { H::Bin(n) => { let v = self.payload(n)?; self.lits.pop(); V::Bytes(v) } _ => return Err(E::Rej) },
            Sh::Opt(s) => if *self.b.get(self.i).ok_or(E::Eof)? == 0xc0 { self.i += 1; V::None } else { V::Some(Box::new(self.val(s)?)) },
            Sh::New(s) => V::New(Box::new(self.val(s)?)),
            Sh::Seq(s) => match self.head()? { H::Arr(n) => { let mut o = vec![]; for _ in 0..n { o.push(self.val(s)?) } V::Seq(o) } _ => return Err(E::Rej) },
            Sh::Tup(ss) | Sh::TupS(ss) => V::Seq(self.tuple_h(ss)?),
            Sh::Map(k, s) => match self.head()? { H::Map(n) => { let mut o = vec![]; for _ in 0..n { let a = self.val(k)?; o.push((a, self.val(s)?)) } V::Map(o) } _ => return Err(E::Rej) },
            Sh::Struct(d) => self.fields(d.fields, d.shapes)?,
            Sh::Enum(d) => match head(self.b, self.i)? {
                (H::Map(n), j) => {
                    if n != 1 { return Err(E::Rej) }
                    self.i = j;
                    let i = self.var(d)?;
                    V::Var(i, Box::new(match &d.vars[i] {
                        Var::Unit => return Err(E::Dc),
                        Var::New(s) => self.val(s)?,
                        Var::Tup(ss) => V::Seq(self.tuple_h(ss)?),
                        Var::Struct(n, ss) => self.fields(n, ss)?,
                    }))
                }
                _ => { let i = self.var(d)?; match d.vars[i] { Var::Unit => V::Var(i, Box::new(V::Unit)), _ => return Err(E::Rej) } }
            },
            Sh::Any => match self.head()? {
                H::Nil => V::Unit, H::Bool(b) => V::Bool(b),
                H::UInt(n) => V::Int(n as i128), H::SInt(n) => V::Int(n as i128),
                H::F32(x) => V::F32(x), H::F64(x) => V::F64(x),
                H::Str(n) => V::Str(String::from_utf8(self.payload(n)?).map_err(|_| E::Rej)?),
                H::Bin(n) => V::Bytes(self.payload(n)?),
                H::Arr(n) => { let mut o = vec![]; for _ in 0..n { o.push(self.val(&Sh::Any)?) } V::Seq(o) }
                H::Map(n) => { let mut o = vec![]; for _ in 0..n { let a = self.val(&Sh::Any)?; o.push((a, self.val(&Sh::Any)?)) } V::Map(o) }
                H::Ext(_) => return Err(E::Rej),
            },
            Sh::Ign => { self.i = skip(self.b, self.i)?; V::Ign }
        })
    }
}
