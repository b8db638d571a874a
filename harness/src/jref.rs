//! JSON reference model: an output matcher (what a conforming text for a value is) and a
//! typed reference decoder, both written from RFC 8259 and the documented type table.
use crate::shape::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Enc { Arr, Hex, B64, Pass }
pub const ENCS: [Enc; 4] = [Enc::Arr, Enc::Hex, Enc::B64, Enc::Pass];
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Dec { Nope, Hex, B64 }
pub const DECS: [Dec; 3] = [Dec::Nope, Dec::Hex, Dec::B64];

pub const AL: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..=c.len() { o.push(AL[(n >> (18 - 6 * k)) as usize & 63]) }
    }
    o
}
pub fn hexs(b: &[u8]) -> Vec<u8> { b.iter().flat_map(|x| format!("{x:02X}").into_bytes()).collect() }
pub fn show(b: &[u8]) -> String { String::from_utf8_lossy(b).escape_debug().to_string() }

// ------------------------------------------------------------------ RFC 8259 lexemes
/// strict number grammar; returns Some(is_integer)
pub fn rfc_number(s: &[u8]) -> Option<bool> {
    let mut i = 0;
    let dig = |i: usize| s.get(i).map_or(false, |c| c.is_ascii_digit());
    if s.get(i) == Some(&b'-') { i += 1 }
    if s.get(i) == Some(&b'0') { i += 1 } else if dig(i) { while dig(i) { i += 1 } } else { return None }
    let mut int = true;
    if s.get(i) == Some(&b'.') { int = false; i += 1; if !dig(i) { return None } while dig(i) { i += 1 } }
    if matches!(s.get(i), Some(b'e' | b'E')) {
        int = false; i += 1;
        if matches!(s.get(i), Some(b'+' | b'-')) { i += 1 }
        if !dig(i) { return None }
        while dig(i) { i += 1 }
    }
    if i == s.len() { Some(int) } else { None }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum E { Rej, Eof, Dc }
pub type Rs<T> = Result<T, E>;

/// Strict string literal starting after the opening quote. Returns (content, position after the
/// closing quote, used a non-mandatory escape). Does not check UTF-8.
pub fn rfc_string(b: &[u8], mut i: usize) -> Rs<(Vec<u8>, usize, bool)> {
    let mut o = vec![];
    let mut extra = false;
    loop {
        let c = *b.get(i).ok_or(E::Eof)?;
        i += 1;
        match c {
            b'"' => return Ok((o, i, extra)),
            0..=0x1f => return Err(E::Rej),
            b'\\' => {
                let e = *b.get(i).ok_or(E::Eof)?;
                i += 1;
                let ch = match e {
                    b'"' => '"', b'\\' => '\\', b'/' => { extra = true; '/' }
                    b'b' => '\u{8}', b'f' => '\u{c}', b'n' => '\n', b'r' => '\r', b't' => '\t',
                    b'u' => {
                        let hi = hex4(b, i)?;
                        i += 4;
                        let cp = if (0xd800..0xdc00).contains(&hi) {
                            for (k, want) in [(0, b'\\'), (1, b'u')] { if *b.get(i + k).ok_or(E::Eof)? != want { return Err(E::Rej) } }
                            let lo = hex4(b, i + 2)?;
                            if !(0xdc00..0xe000).contains(&lo) { return Err(E::Rej) }
                            i += 6;
                            0x10000 + ((hi - 0xd800) << 10) + (lo - 0xdc00)
                        } else { hi };
                        let ch = char::from_u32(cp).ok_or(E::Rej)?;
                        if ch >= ' ' && ch != '"' && ch != '\\' { extra = true }
                        ch
                    }
                    _ => return Err(E::Rej),
                };
                o.extend(ch.encode_utf8(&mut [0; 4]).as_bytes());
            }
            c => o.push(c),
        }
    }
}
fn hex4(b: &[u8], i: usize) -> Rs<u32> {
    let mut n = 0;
    for k in 0..4 { n = n * 16 + (*b.get(i + k).ok_or(E::Eof)? as char).to_digit(16).ok_or(E::Rej)? }
    Ok(n)
}

// ------------------------------------------------------------------ output matcher
pub struct M<'a> { pub b: &'a [u8], pub i: usize, pub enc: Enc }
type Mr = Result<(), String>;
/// Is `out` exactly the compact JSON text of the value?
pub fn match_out(sh: S, v: &V, enc: Enc, out: &[u8]) -> Mr {
    let mut m = M { b: out, i: 0, enc };
    m.val(sh, v).and_then(|_| if m.i == out.len() { Ok(()) } else { Err("trailing output".into()) })
        .map_err(|e| format!("{e} at byte {} of output `{}` for {v:?} as {sh:?} ({enc:?})", m.i, show(out)))
}
impl M<'_> {
    fn lit(&mut self, s: &[u8]) -> Mr {
        if self.b[self.i..].starts_with(s) { self.i += s.len(); Ok(()) } else { Err(format!("expected `{}`", show(s))) }
    }
    fn text(&mut self, want: &str) -> Mr {
        self.lit(b"\"")?;
        let (s, e, extra) = rfc_string(self.b, self.i).map_err(|e| format!("bad string literal {e:?}"))?;
        if s != want.as_bytes() { return Err(format!("string reads {:?}, want {want:?}", String::from_utf8_lossy(&s))) }
        if extra { return Err("character escaped that must be verbatim".into()) }
        self.i = e;
        Ok(())
    }
    fn float(&mut self, finite: bool, same: impl Fn(&str) -> bool) -> Mr {
        if !finite { return self.lit(b"null") }
        let n = self.b[self.i..].iter().position(|b| !matches!(b, b'0'..=b'9' | b'+' | b'-' | b'.' | b'e' | b'E')).unwrap_or(self.b.len() - self.i);
        let t = &self.b[self.i..self.i + n];
        if rfc_number(t).is_none() { return Err(format!("`{}` is not a JSON number", show(t))) }
        if !same(std::str::from_utf8(t).unwrap()) { return Err(format!("`{}` is a different number", show(t))) }
        self.i += n;
        Ok(())
    }
    fn items(&mut self, it: &mut dyn Iterator<Item = (S, &V)>) -> Mr {
        self.lit(b"[")?;
        for (k, (s, v)) in it.enumerate() { if k > 0 { self.lit(b",")? } self.val(s, v)? }
        self.lit(b"]")
    }
    fn fields(&mut self, names: &[&str], ss: &[S], fs: &[Option<V>]) -> Mr {
        self.lit(b"{")?;
        let mut first = true;
        for k in 0..fs.len() {
            if let Some(v) = &fs[k] {
                if !first { self.lit(b",")? }
                first = false;
                self.text(names[k])?;
                self.lit(b":")?;
                self.val(ss[k], v)?;
            }
        }
        self.lit(b"}")
    }
    pub fn val(&mut self, sh: S, v: &V) -> Mr {
        match (sh, v) {
            (Sh::Unit | Sh::UnitStruct, _) | (_, V::None) => self.lit(b"null"),
            (_, V::Bool(b)) => self.lit(if *b { b"true" } else { b"false" }),
            (_, V::Int(n)) => { self.lit(n.to_string().as_bytes())?; if self.b.get(self.i).map_or(false, |c| c.is_ascii_digit() || *c == b'.') { return Err("superfluous digits".into()) } Ok(()) }
            (_, V::F32(x)) => { let x = f32::from_bits(*x); self.float(x.is_finite(), |s| s.parse::<f32>() == Ok(x)) }
            (_, V::F64(x)) => { let x = f64::from_bits(*x); self.float(x.is_finite(), |s| s.parse::<f64>() == Ok(x)) }
            (_, V::Char(c)) => self.text(c.encode_utf8(&mut [0; 4])),
            (Sh::Disp, V::Str(s)) => self.text(&s.replace('|', "")),
            (_, V::Str(s)) => self.text(s),
            (_, V::Bytes(b)) => match self.enc {
                Enc::Arr => { let t: Vec<String> = b.iter().map(|x| x.to_string()).collect(); self.lit(format!("[{}]", t.join(",")).as_bytes()) }
                Enc::Hex => { self.lit(b"\"")?; self.lit(&hexs(b))?; self.lit(b"\"") }
                Enc::B64 => { self.lit(b"\"")?; self.lit(&b64(b))?; self.lit(b"\"") }
                Enc::Pass => self.lit(b),
            },
            (Sh::Opt(s), V::Some(x)) | (Sh::New(s), V::New(x)) => self.val(s, x),
            (Sh::Seq(s), V::Seq(xs)) => self.items(&mut xs.iter().map(|x| (*s, x))),
            (Sh::Tup(ss) | Sh::TupS(ss), V::Seq(xs)) => self.items(&mut ss.iter().copied().zip(xs)),
            (Sh::Map(k, s), V::Map(m)) => {
                self.lit(b"{")?;
                for (i, (a, b)) in m.iter().enumerate() { if i > 0 { self.lit(b",")? } self.key(k, a)?; self.lit(b":")?; self.val(s, b)? }
                self.lit(b"}")
            }
            (Sh::Struct(d), V::Struct(fs)) => self.fields(d.fields, d.shapes, fs),
            (Sh::Enum(d), V::Var(i, x)) => {
                let name = d.names[*i];
                if let Var::Unit = d.vars[*i] { return self.text(name) }
                self.lit(b"{")?;
                self.text(name)?;
                self.lit(b":")?;
                match (&d.vars[*i], &**x) {
                    (Var::New(s), x) => self.val(s, x)?,
                    (Var::Tup(ss), V::Seq(xs)) => self.items(&mut ss.iter().copied().zip(xs))?,
                    (Var::Struct(n, ss), V::Struct(fs)) => self.fields(n, ss, fs)?,
                    _ => unreachable!(),
                }
                self.lit(b"}")
            }
            _ => unreachable!("{sh:?} {v:?}"),
        }
    }
    pub fn key(&mut self, sh: S, v: &V) -> Mr {
        match (sh, v) {
            (Sh::New(s), V::New(x)) => self.key(s, x),
            (_, V::Int(n)) => self.text(&n.to_string()),
            (_, V::Bool(b)) => self.text(if *b { "true" } else { "false" }),
            (Sh::Enum(d), V::Var(i, _)) => self.text(d.names[*i]),
            _ => self.val(sh, v),
        }
    }
}
/// key types the serializer must accept
pub fn key_ok(sh: S, v: &V) -> bool {
    match (sh, v) {
        (Sh::New(s), V::New(x)) => key_ok(s, x),
        (Sh::Int(_) | Sh::Bool | Sh::Char | Sh::Str | Sh::BStr | Sh::Disp, _) => true,
        (Sh::Enum(d), V::Var(i, _)) => matches!(d.vars[*i], Var::Unit),
        _ => false,
    }
}

// ------------------------------------------------------------------ reference decoder
pub struct Ref<'a> {
    pub b: &'a [u8],
    pub i: usize,
    pub dec: Dec,
    pub f32any: bool,
    /// the implementation may also reject
    pub lenient: bool,
    /// literal ranges of borrowed values, in hand-out order
    pub lits: Vec<(usize, usize)>,
}
/// Whole-document decoding: value and whether rejection is also allowed.
pub fn decode(sh: S, b: &[u8], dec: Dec) -> Rs<(V, bool)> { decode_full(sh, b, dec).map(|(v, r)| (v, r.lenient)) }
pub fn decode_full<'a>(sh: S, b: &'a [u8], dec: Dec) -> Rs<(V, Ref<'a>)> {
    let mut r = Ref { b, i: 0, dec, f32any: cfg!(feature = "f32"), lenient: false, lits: vec![] };
    let v = r.val(sh)?;
    match r.ws() { Err(E::Eof) => Ok((v, r)), _ => Err(E::Rej) }
}
impl Ref<'_> {
    pub fn ws(&mut self) -> Rs<u8> {
        while matches!(self.b.get(self.i), Some(b' ' | b'\t' | b'\n' | b'\r')) { self.i += 1 }
        self.b.get(self.i).copied().ok_or(E::Eof)
    }
    fn tok(&mut self, t: &[u8]) -> Rs<()> {
        for &c in t { if *self.b.get(self.i).ok_or(E::Eof)? != c { return Err(E::Rej) } self.i += 1 }
        Ok(())
    }
    fn expect(&mut self, c: u8) -> Rs<()> { if self.ws()? == c { self.i += 1; Ok(()) } else { Err(E::Rej) } }
    fn int(&mut self, t: IT) -> Rs<i128> {
        let mut neg = false;
        if self.ws()? == b'-' {
            if !t.signed() { return Err(E::Rej) }
            neg = true;
            self.i += 1;
        }
        let c = *self.b.get(self.i).ok_or(E::Eof)?;
        if !c.is_ascii_digit() { return Err(E::Rej) }
        let mut n: i128 = 0;
        if c == b'0' { self.i += 1 } else {
            while let Some(c) = self.b.get(self.i).filter(|c| c.is_ascii_digit()) {
                n = (n * 10 + (c - b'0') as i128).min(1 << 100);
                self.i += 1;
            }
        }
        let n = if neg { -n } else { n };
        if t.has(n) { Ok(n) } else { Err(E::Rej) }
    }
    fn lexeme(&mut self) -> String {
        let s = self.i;
        while matches!(self.b.get(self.i), Some(b'0'..=b'9' | b'+' | b'-' | b'.' | b'e' | b'E')) { self.i += 1 }
        String::from_utf8(self.b[s..self.i].to_vec()).unwrap()
    }
    fn float<F: std::str::FromStr>(&mut self, inf: impl Fn(&F) -> bool) -> Rs<Option<F>> {
        if self.ws()? == b'n' { self.tok(b"null")?; return Ok(None) }
        let t = self.lexeme();
        let v = t.parse::<F>().map_err(|_| E::Rej)?;
        if rfc_number(t.as_bytes()).is_none() { self.lenient = true }
        if inf(&v) { return Err(E::Dc) }
        Ok(Some(v))
    }
    fn string(&mut self) -> Rs<String> {
        if self.ws()? != b'"' { return Err(E::Rej) }
        let st = self.i;
        let (s, e, _) = rfc_string(self.b, self.i + 1)?;
        self.i = e;
        self.lits.push((st, e));
        String::from_utf8(s).map_err(|_| E::Rej)
    }
    /// owned text: nothing is lent
    fn owned(&mut self) -> Rs<String> { let s = self.string()?; self.lits.pop(); Ok(s) }
    fn chr(&mut self) -> Rs<V> {
        let s = self.owned()?;
        let mut it = s.chars();
        match (it.next(), it.next()) { (Some(c), None) => Ok(V::Char(c)), _ => Err(E::Rej) }
    }
    fn bytes(&mut self) -> Rs<Vec<u8>> {
        match self.ws()? {
            b'[' => {
                self.i += 1;
                let mut o = vec![];
                if self.ws()? == b']' { self.i += 1; return Ok(o) }
                loop {
                    o.push(self.int(IT::U8)? as u8);
                    match self.ws()? { b',' => self.i += 1, b']' => { self.i += 1; return Ok(o) } _ => return Err(E::Rej) }
                }
            }
            b'"' => {
                self.i += 1;
                match self.dec {
                    Dec::Nope => { let (s, e, _) = rfc_string(self.b, self.i)?; self.i = e; Ok(s) }
                    Dec::Hex => {
                        let mut o = vec![];
                        loop {
                            let c = *self.b.get(self.i).ok_or(E::Eof)?;
                            if c == b'"' { self.i += 1; return Ok(o) }
                            let a = (c as char).to_digit(16).ok_or(E::Rej)?;
                            let d = (*self.b.get(self.i + 1).ok_or(E::Eof)? as char).to_digit(16).ok_or(E::Rej)?;
                            o.push((a * 16 + d) as u8);
                            self.i += 2;
                        }
                    }
                    Dec::B64 => {
                        let st = self.i;
                        let mut q = vec![];
                        while let Some(x) = self.b.get(self.i).and_then(|c| AL.iter().position(|a| a == c)) { q.push(x as u32); self.i += 1 }
                        let (v, odd) = b64_value(&q);
                        let eq = self.i;
                        while self.b.get(self.i) == Some(&b'=') { self.i += 1 }
                        let pad = self.i - eq;
                        match self.b.get(self.i) { None => return Err(E::Eof), Some(b'"') => {} _ => return Err(E::Rej) }
                        self.i += 1;
                        if odd || !(pad == 0 || (eq - st + pad) % 4 == 0 && pad < 4) { if (eq - st) % 4 == 1 { return Err(E::Dc) } self.lenient = true }
                        Ok(v)
                    }
                }
            }
            _ => Err(E::Rej),
        }
    }
    fn next_item(&mut self, first: &mut bool, close: u8) -> Rs<bool> {
        let c = self.ws()?;
        if c == close { return Ok(false) }
        if c == b',' {
            if *first { return Err(E::Rej) }
            self.i += 1;
            if self.ws()? == close { return Err(E::Rej) }
        } else if !*first { return Err(E::Rej) }
        *first = false;
        Ok(true)
    }
    fn tuple(&mut self, ss: &[S]) -> Rs<Vec<V>> {
        self.expect(b'[')?;
        let (mut first, mut o) = (true, vec![]);
        for s in ss { if !self.next_item(&mut first, b']')? { return Err(E::Rej) } o.push(self.val(s)?) }
        self.expect(b']')?;
        Ok(o)
    }
    fn fields(&mut self, names: &[&str], ss: &[S]) -> Rs<V> {
        match self.ws()? {
            b'[' => Ok(V::Struct(self.tuple(ss)?.into_iter().map(Some).collect())),
            b'{' => {
                self.i += 1;
                let mut o: Vec<Option<V>> = vec![None; ss.len()];
                let mut first = true;
                while self.next_item(&mut first, b'}')? {
                    if self.ws()? != b'"' { return Err(E::Rej) }
                    let k = self.owned()?;
                    match names.iter().position(|n| *n == k) {
                        Some(i) => {
                            if o[i].is_some() { return Err(E::Rej) }
                            self.expect(b':')?;
                            o[i] = Some(self.val(ss[i])?);
                        }
                        None => { self.expect(b':')?; self.ign()?; }
                    }
                }
                for i in 0..o.len() { if o[i].is_none() { if let Sh::Opt(_) = ss[i] { o[i] = Some(V::None) } else { return Err(E::Rej) } } }
                self.expect(b'}')?;
                Ok(V::Struct(o))
            }
            _ => Err(E::Rej),
        }
    }
    pub fn val(&mut self, sh: S) -> Rs<V> {
        Ok(match sh {
            Sh::Unit | Sh::UnitStruct => { self.ws()?; self.tok(b"null")?; V::Unit }
            Sh::Bool => match self.ws()? { b't' => { self.tok(b"true")?; V::Bool(true) } b'f' => { self.tok(b"false")?; V::Bool(false) } _ => return Err(E::Rej) },
            Sh::Int(t) => V::Int(self.int(*t)?),
            Sh::F32 => V::f32(self.float::<f32>(|x| x.is_infinite())?.unwrap_or(f32::NAN)),
            Sh::F64 => V::f64(self.float::<f64>(|x| x.is_infinite())?.unwrap_or(f64::NAN)),
            Sh::Char => self.chr()?,
            Sh::Str | Sh::Disp => V::Str(self.owned()?),
            Sh::BStr => V::Str(self.string()?),
            Sh::Bytes => { self.ws()?; let st = self.i; let v = self.bytes()?; self.lits.push((st, self.i)); V::Bytes(v) }
            Sh::ByteBuf => V::Bytes(self.bytes()?),
            Sh::Opt(s) => if self.ws()? == b'n' { self.tok(b"null")?; V::None } else { V::Some(Box::new(self.val(s)?)) },
            Sh::New(s) => V::New(Box::new(self.val(s)?)),
            Sh::Seq(s) => {
                self.expect(b'[')?;
                let (mut first, mut o) = (true, vec![]);
                while self.next_item(&mut first, b']')? { o.push(self.val(s)?) }
                self.expect(b']')?;
                V::Seq(o)
            }
            Sh::Tup(ss) | Sh::TupS(ss) => V::Seq(self.tuple(ss)?),
            Sh::Map(k, s) => {
                self.expect(b'{')?;
                let (mut first, mut o) = (true, vec![]);
                while self.next_item(&mut first, b'}')? {
                    if self.ws()? != b'"' { return Err(E::Rej) }
                    let a = self.key(k)?;
                    self.expect(b':')?;
                    o.push((a, self.val(s)?));
                }
                self.expect(b'}')?;
                V::Map(o)
            }
            Sh::Struct(d) => self.fields(d.fields, d.shapes)?,
            Sh::Enum(d) => match self.ws()? {
                b'"' => self.unit_var(d)?,
                b'{' => {
                    self.i += 1;
                    if self.ws()? != b'"' { return Err(E::Rej) }
                    let k = self.owned()?;
                    let i = d.names.iter().position(|n| *n == k).ok_or(E::Rej)?;
                    self.expect(b':')?;
                    let v = match &d.vars[i] {
                        Var::Unit => return Err(E::Dc),
                        Var::New(s) => self.val(s)?,
                        Var::Tup(ss) => V::Seq(self.tuple(ss)?),
                        Var::Struct(n, ss) => self.fields(n, ss)?,
                    };
                    self.expect(b'}')?;
                    V::Var(i, Box::new(v))
                }
                _ => return Err(E::Rej),
            },
            Sh::Any => self.any()?,
            Sh::Ign => { self.ign()?; V::Ign }
        })
    }
    fn unit_var(&mut self, d: &ED) -> Rs<V> {
        let k = self.owned()?;
        match d.names.iter().position(|n| *n == k) { Some(i) if matches!(d.vars[i], Var::Unit) => Ok(V::Var(i, Box::new(V::Unit))), _ => Err(E::Rej) }
    }
    /// at an opening quote
    fn key(&mut self, sh: S) -> Rs<V> {
        Ok(match sh {
            Sh::Str | Sh::Disp => V::Str(self.owned()?),
            Sh::BStr | Sh::Any => V::Str(self.string()?),
            Sh::Char => self.chr()?,
            Sh::Enum(d) => self.unit_var(d)?,
            Sh::New(s) => V::New(Box::new(self.key(s)?)),
            Sh::Ign => { self.ign_str()?; V::Ign }
            Sh::Int(_) | Sh::Bool => {
                self.i += 1;
                let st = self.i;
                let end = self.b[st..].iter().position(|&c| c == b'"').map_or(self.b.len(), |p| st + p);
                if self.b[st..end].contains(&b'\\') { return Err(E::Dc) }
                if matches!(self.b.get(st), Some(b' ' | b'\t' | b'\n' | b'\r')) { self.lenient = true }
                let v = self.val(sh)?;
                match self.b.get(self.i) { Some(b'"') => self.i += 1, Some(_) => return Err(E::Rej), None => return Err(E::Eof) }
                v
            }
            _ => return Err(E::Dc),
        })
    }
    fn any(&mut self) -> Rs<V> {
        Ok(match self.ws()? {
            b'n' => { self.tok(b"null")?; V::Unit }
            b't' | b'f' => return self.val(&Sh::Bool),
            b'"' => V::Str(self.string()?),
            b'[' => return self.val(&Sh::Seq(&Sh::Any)),
            b'{' => return self.val(&Sh::Map(&Sh::Any, &Sh::Any)),
            b'0'..=b'9' | b'-' => {
                let t = self.lexeme();
                match rfc_number(t.as_bytes()) {
                    None => return Err(if t.parse::<f64>().is_ok() { E::Dc } else { E::Rej }),
                    Some(true) if t == "-0" => return Err(E::Dc),
                    Some(true) if t.parse::<u64>().is_ok() || t.parse::<i64>().is_ok() => V::Int(t.parse().unwrap()),
                    Some(_) => if self.f32any {
                        let f: f32 = t.parse().unwrap();
                        if f.is_infinite() { return Err(E::Dc) }
                        V::f32(f)
                    } else {
                        let f: f64 = t.parse().unwrap();
                        if f.is_infinite() { return Err(E::Dc) }
                        V::f64(f)
                    },
                }
            }
            _ => return Err(E::Rej),
        })
    }
    fn ign_str(&mut self) -> Rs<()> {
        let st = self.i + 1;
        let mut i = st;
        loop {
            match *self.b.get(i).ok_or(E::Eof)? {
                b'"' => break,
                0..=0x1f => return Err(E::Rej),
                b'\\' => { if *self.b.get(i + 1).ok_or(E::Eof)? <= 0x1f { return Err(E::Rej) } i += 2 }
                _ => i += 1,
            }
        }
        match rfc_string(self.b, st) { Ok((s, _, _)) if std::str::from_utf8(&s).is_ok() => {} _ => self.lenient = true }
        self.i = i + 1;
        Ok(())
    }
    pub fn ign(&mut self) -> Rs<()> {
        match self.ws()? {
            b'n' => self.tok(b"null"),
            b't' => self.tok(b"true"),
            b'f' => self.tok(b"false"),
            b'"' => self.ign_str(),
            b'[' => {
                self.i += 1;
                let mut first = true;
                while self.next_item(&mut first, b']')? { self.ign()? }
                self.expect(b']')
            }
            b'{' => {
                self.i += 1;
                let mut first = true;
                while self.next_item(&mut first, b'}')? {
                    if self.ws()? != b'"' { return Err(E::Rej) }
                    self.ign_str()?;
                    self.expect(b':')?;
                    self.ign()?;
                }
                self.expect(b'}')
            }
            b'0'..=b'9' | b'-' => { let t = self.lexeme(); if rfc_number(t.as_bytes()).is_none() { self.lenient = true } Ok(()) }
            _ => Err(E::Rej),
        }
    }
}
/// value of a run of base-64 digits and whether it is irregular (dangling digit or trailing bits)
pub fn b64_value(q: &[u32]) -> (Vec<u8>, bool) {
    let mut o = vec![];
    let mut odd = false;
    for c in q.chunks(4) {
        let n = c.iter().enumerate().fold(0, |a, (k, x)| a | x << (18 - 6 * k));
        let k = c.len() * 6 / 8;
        o.extend_from_slice(&n.to_be_bytes()[1..1 + k]);
        if c.len() == 1 || n & ((1 << (24 - 8 * k)) - 1) != 0 { odd = true }
    }
    (o, odd)
}
