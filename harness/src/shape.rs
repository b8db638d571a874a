//! A dynamic universe of serde types (`Sh`) and values (`V`), with Serialize and
//! DeserializeSeed implementations that drive the formats exactly as serde and
//! serde_derive do, so one exploration covers every (de)serializer entry point.
use serde::de::{self, DeserializeSeed, Deserialize, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer};
use std::cell::RefCell;
use std::fmt;
use std::fmt::Write;

pub type S = &'static Sh;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum IT { I8, I16, I32, I64, U8, U16, U32, U64 }
pub const ITS: [IT; 8] = [IT::I8, IT::I16, IT::I32, IT::I64, IT::U8, IT::U16, IT::U32, IT::U64];
impl IT {
    pub fn min(self) -> i128 { match self { IT::I8 => i8::MIN as _, IT::I16 => i16::MIN as _, IT::I32 => i32::MIN as _, IT::I64 => i64::MIN as _, _ => 0 } }
    pub fn max(self) -> i128 { match self { IT::I8 => i8::MAX as _, IT::I16 => i16::MAX as _, IT::I32 => i32::MAX as _, IT::I64 => i64::MAX as _,
        IT::U8 => u8::MAX as _, IT::U16 => u16::MAX as _, IT::U32 => u32::MAX as _, IT::U64 => u64::MAX as _ } }
    pub fn signed(self) -> bool { self.min() < 0 }
    pub fn has(self, n: i128) -> bool { n >= self.min() && n <= self.max() }
    pub fn bits(self) -> u32 { match self { IT::I8 | IT::U8 => 8, IT::I16 | IT::U16 => 16, IT::I32 | IT::U32 => 32, _ => 64 } }
}

pub enum Sh {
    Unit, UnitStruct, Bool, Int(IT), F32, F64, Char,
    /// owned string / borrowed &str
    Str, BStr,
    /// borrowed &[u8] / owned byte buffer
    Bytes, ByteBuf,
    Opt(S), New(S), Seq(S), Tup(&'static [S]), TupS(&'static [S]),
    Map(S, S),
    Struct(&'static SD),
    Enum(&'static ED),
    /// text through Serializer::collect_str; each '|' in the value separates fragments
    Disp,
    Any, Ign,
}
pub struct SD { pub name: &'static str, pub fields: &'static [&'static str], pub shapes: &'static [S] }
pub struct ED { pub name: &'static str, pub names: &'static [&'static str], pub vars: &'static [Var] }
pub enum Var { Unit, New(S), Tup(&'static [S]), Struct(&'static [&'static str], &'static [S]) }

thread_local! { static DEEP: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
/// a list, cut after 8 items
struct Cut<'a, T>(&'a [T]);
impl<T: fmt::Debug> fmt::Debug for Cut<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for (i, x) in self.0.iter().enumerate() { if i == 8 { return write!(f, ", .. {} in all", self.0.len()) } write!(f, "{}{x:?}", if i > 0 { ", " } else { "" })? }
        Ok(())
    }
}
/// cut below 5 levels: the branches of a deep shape are many
impl fmt::Debug for Sh {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let d = DEEP.get();
        if d == 5 { return f.write_str("..") }
        DEEP.set(d + 1);
        let r = match self {
            Sh::Unit => f.write_str("Unit"), Sh::UnitStruct => f.write_str("UnitStruct"), Sh::Bool => f.write_str("Bool"), Sh::Int(t) => write!(f, "{t:?}"),
            Sh::F32 => f.write_str("F32"), Sh::F64 => f.write_str("F64"), Sh::Char => f.write_str("Char"), Sh::Str => f.write_str("Str"), Sh::BStr => f.write_str("BStr"),
            Sh::Bytes => f.write_str("Bytes"), Sh::ByteBuf => f.write_str("ByteBuf"), Sh::Disp => f.write_str("Disp"), Sh::Any => f.write_str("Any"), Sh::Ign => f.write_str("Ign"),
            Sh::Opt(s) => write!(f, "Opt({s:?})"), Sh::New(s) => write!(f, "New({s:?})"), Sh::Seq(s) => write!(f, "Seq({s:?})"), Sh::Map(k, s) => write!(f, "Map({k:?}, {s:?})"),
            Sh::Tup(ss) => write!(f, "Tup({:?})", Cut(ss)), Sh::TupS(ss) => write!(f, "TupS({:?})", Cut(ss)),
            Sh::Struct(d) => write!(f, "Struct {}({:?}: {:?})", d.name, Cut(d.fields), Cut(d.shapes)),
            Sh::Enum(d) => write!(f, "Enum {}({:?}: {:?})", d.name, Cut(d.names), Cut(d.vars)),
        };
        DEEP.set(d);
        r
    }
}
impl fmt::Debug for Var {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self { Var::Unit => f.write_str("Unit"), Var::New(s) => write!(f, "New({s:?})"), Var::Tup(ss) => write!(f, "Tup({:?})", Cut(ss)), Var::Struct(n, ss) => write!(f, "Struct({:?}: {:?})", Cut(n), Cut(ss)) }
    }
}

pub fn leak<T>(t: T) -> &'static T { Box::leak(Box::new(t)) }
pub fn leakv<T>(t: Vec<T>) -> &'static [T] { Box::leak(t.into_boxed_slice()) }

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub enum V {
    Unit, Bool(bool), Int(i128), F32(u32), F64(u64), Char(char), Str(String), Bytes(Vec<u8>),
    None, Some(Box<V>), New(Box<V>), Seq(Vec<V>), Map(Vec<(V, V)>),
    /// struct fields in order; None = field skipped by the serializer
    Struct(Vec<Option<V>>),
    Var(usize, Box<V>),
    Ign,
}
impl V {
    pub fn s(x: &str) -> V { V::Str(x.to_string()) }
    pub fn f32(x: f32) -> V { V::F32(x.to_bits()) }
    pub fn f64(x: f64) -> V { V::F64(x.to_bits()) }
}
/// Equality in which all NaNs are equal and (when asked) -0.0 equals 0.0.
pub fn veq(a: &V, b: &V, zero: bool) -> bool {
    match (a, b) {
        (V::F32(x), V::F32(y)) => { let (x, y) = (f32::from_bits(*x), f32::from_bits(*y));
            (x.is_nan() && y.is_nan()) || x.to_bits() == y.to_bits() || (zero && x == 0.0 && y == 0.0) }
        (V::F64(x), V::F64(y)) => { let (x, y) = (f64::from_bits(*x), f64::from_bits(*y));
            (x.is_nan() && y.is_nan()) || x.to_bits() == y.to_bits() || (zero && x == 0.0 && y == 0.0) }
        (V::Some(x), V::Some(y)) | (V::New(x), V::New(y)) => veq(x, y, zero),
        (V::Seq(x), V::Seq(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| veq(a, b, zero)),
        (V::Map(x), V::Map(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| veq(&a.0, &b.0, zero) && veq(&a.1, &b.1, zero)),
        (V::Struct(x), V::Struct(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| match (a, b) {
            (Some(a), Some(b)) => veq(a, b, zero), (None, None) => true, _ => false }),
        (V::Var(i, x), V::Var(j, y)) => i == j && veq(x, y, zero),
        _ => a == b,
    }
}

// ------------------------------------------------------------------ Serialize
pub struct SV<'a>(pub S, pub &'a V);
pub struct Frag<'a>(pub &'a str);
impl fmt::Display for Frag<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        // text can arrive as a string, as single characters and through the formatting machinery
        for (i, part) in self.0.split('|').enumerate() {
            let mut cs = part.chars();
            match (i % 2, cs.next(), cs.next()) {
                (0, _, _) => f.write_str(part)?,
                (_, Some(c), None) => f.write_char(c)?,
                _ => f.write_fmt(format_args!("{part}"))?,
            }
        }
        Ok(())
    }
}
impl Serialize for SV<'_> {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        use serde::ser::Error;
        inj::human(z.is_human_readable());
        let n = inj::enter();
        if inj::hit(n, false) { return Err(Z::Error::custom(format_args!("injected#{n}"))) }
        let r = ser(self.0, self.1, z)?;
        if inj::hit(n, true) { return Err(Z::Error::custom(format_args!("injected#{n}"))) }
        Ok(r)
    }
}
/// Errors raised by the (de)serialized values themselves, at a chosen node, before or after it.
pub mod inj {
    use std::cell::Cell;
    thread_local! {
        /// nodes entered so far, node to fail at (0: none), fail after the node, fired, entered after firing, human_readable seen
        static ST: Cell<(u32, u32, bool, bool, u32, u8)> = const { Cell::new((0, 0, false, false, 0, 0)) };
    }
    pub fn arm(node: u32, after: bool) { ST.with(|s| s.set((0, node, after, false, 0, 0))) }
    /// (nodes entered, fired, nodes entered after firing, mask of is_human_readable answers)
    pub fn disarm() -> (u32, bool, u32, u8) { ST.with(|s| { let (n, _, _, f, a, h) = s.replace((0, 0, false, false, 0, 0)); (n, f, a, h) }) }
    pub fn human(h: bool) { ST.with(|s| { let mut x = s.get(); x.5 |= 1 << h as u8; s.set(x) }) }
    pub fn fired() -> bool { ST.with(|s| s.get().3) }
    pub fn enter() -> u32 { ST.with(|s| { let mut x = s.get(); x.0 += 1; if x.3 { x.4 += 1 } s.set(x); x.0 }) }
    thread_local! {
        /// events (node entered, node left, write to an `EvSink`) so far, the event to act at (0: none)
        static EV: Cell<(u32, u32)> = const { Cell::new((0, 0)) };
        static ACT: std::cell::RefCell<Option<Box<dyn FnOnce()>>> = const { std::cell::RefCell::new(None) };
    }
    /// run `f` at event `at` (1-based; 0: never)
    pub fn plan(at: u32, f: Box<dyn FnOnce()>) { EV.with(|e| e.set((0, at))); ACT.with(|a| *a.borrow_mut() = Some(f)) }
    /// number of events seen
    pub fn unplan() -> u32 { ACT.with(|a| a.borrow_mut().take()); EV.with(|e| e.replace((0, 0)).0) }
    #[inline]
    pub fn event() {
        let (n, at) = EV.with(|e| { let mut x = e.get(); x.0 = x.0.wrapping_add(1); e.set(x); x });
        if n != at { return }
        // whatever runs now has its own counters
        let Some(f) = ACT.with(|a| a.borrow_mut().take()) else { return };
        let (ev, st) = (EV.with(|e| e.replace((0, 0))), ST.with(|s| s.replace((0, 0, false, false, 0, 0))));
        f();
        EV.with(|e| e.set(ev));
        ST.with(|s| s.set(st));
    }
    pub fn hit(n: u32, after: bool) -> bool { event(); ST.with(|s| { let mut x = s.get(); let h = x.1 == n && x.2 == after; if h { x.3 = true; s.set(x) } h }) }
}
fn ser<Z: Serializer>(sh: S, v: &V, z: Z) -> Result<Z::Ok, Z::Error> {
    match (sh, v) {
        (Sh::Unit, _) => z.serialize_unit(),
        (Sh::UnitStruct, _) => z.serialize_unit_struct("U"),
        (Sh::Bool, V::Bool(b)) => z.serialize_bool(*b),
        (Sh::Int(t), V::Int(n)) => match t {
            IT::I8 => z.serialize_i8(*n as _), IT::I16 => z.serialize_i16(*n as _), IT::I32 => z.serialize_i32(*n as _), IT::I64 => z.serialize_i64(*n as _),
            IT::U8 => z.serialize_u8(*n as _), IT::U16 => z.serialize_u16(*n as _), IT::U32 => z.serialize_u32(*n as _), IT::U64 => z.serialize_u64(*n as _),
        },
        (Sh::F32, V::F32(x)) => z.serialize_f32(f32::from_bits(*x)),
        (Sh::F64, V::F64(x)) => z.serialize_f64(f64::from_bits(*x)),
        (Sh::Char, V::Char(c)) => z.serialize_char(*c),
        (Sh::Str | Sh::BStr, V::Str(s)) => z.serialize_str(s),
        (Sh::Disp, V::Str(s)) => z.collect_str(&Frag(s)),
        (Sh::Bytes | Sh::ByteBuf, V::Bytes(b)) => z.serialize_bytes(b),
        (Sh::Opt(_), V::None) => z.serialize_none(),
        (Sh::Opt(s), V::Some(v)) => z.serialize_some(&SV(s, v)),
        (Sh::New(s), V::New(v)) => z.serialize_newtype_struct("N", &SV(s, v)),
        (Sh::Seq(s), V::Seq(vs)) => {
            let mut q = z.serialize_seq(Some(vs.len()))?;
            for v in vs { q.serialize_element(&SV(s, v))? }
            q.end()
        }
        (Sh::Tup(ss), V::Seq(vs)) => {
            let mut q = z.serialize_tuple(ss.len())?;
            for (s, v) in ss.iter().zip(vs) { q.serialize_element(&SV(s, v))? }
            q.end()
        }
        (Sh::TupS(ss), V::Seq(vs)) => {
            let mut q = z.serialize_tuple_struct("T", ss.len())?;
            for (s, v) in ss.iter().zip(vs) { q.serialize_field(&SV(s, v))? }
            q.end()
        }
        (Sh::Map(ks, xs), V::Map(m)) => {
            let mut q = z.serialize_map(Some(m.len()))?;
            for (i, (k, v)) in m.iter().enumerate() {
                // both ways of emitting an entry
                if i % 2 == 0 { q.serialize_entry(&SV(ks, k), &SV(xs, v))? }
                else { q.serialize_key(&SV(ks, k))?; q.serialize_value(&SV(xs, v))? }
            }
            q.end()
        }
        (Sh::Struct(d), V::Struct(fs)) => {
            let mut q = z.serialize_struct(d.name, fs.iter().filter(|f| f.is_some()).count())?;
            for (i, f) in fs.iter().enumerate() {
                match f { Some(v) => q.serialize_field(d.fields[i], &SV(d.shapes[i], v))?, None => q.skip_field(d.fields[i])? }
            }
            q.end()
        }
        (Sh::Enum(d), V::Var(i, v)) => match (&d.vars[*i], &**v) {
            (Var::Unit, _) => z.serialize_unit_variant(d.name, *i as u32, d.names[*i]),
            (Var::New(s), v) => z.serialize_newtype_variant(d.name, *i as u32, d.names[*i], &SV(s, v)),
            (Var::Tup(ss), V::Seq(vs)) => {
                let mut q = z.serialize_tuple_variant(d.name, *i as u32, d.names[*i], ss.len())?;
                for (s, v) in ss.iter().zip(vs) { q.serialize_field(&SV(s, v))? }
                q.end()
            }
            (Var::Struct(names, ss), V::Struct(fs)) => {
                let mut q = z.serialize_struct_variant(d.name, *i as u32, d.names[*i], fs.iter().filter(|f| f.is_some()).count())?;
                for (k, f) in fs.iter().enumerate() {
                    match f { Some(v) => q.serialize_field(names[k], &SV(ss[k], v))?, None => q.skip_field(names[k])? }
                }
                q.end()
            }
            (a, b) => panic!("variant mismatch {a:?} {b:?}"),
        },
        (a, b) => panic!("shape/value mismatch {a:?} {b:?}"),
    }
}

// ------------------------------------------------------------------ Deserialize
/// What the decoder lent out: address, length, the content at hand-out time.
#[derive(Default, Debug)]
pub struct Rec { pub lent: RefCell<Vec<(usize, Vec<u8>, bool)>> }
impl Rec {
    fn lend(&self, b: &[u8], is_str: bool) { self.lent.borrow_mut().push((b.as_ptr() as usize, b.to_vec(), is_str)) }
}
#[derive(Clone, Copy)]
pub struct Sd<'a>(pub S, pub &'a Rec);

impl<'de> DeserializeSeed<'de> for Sd<'_> {
    type Value = V;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> {
        let Sd(sh, rec) = self;
        inj::human(d.is_human_readable());
        let n = inj::enter();
        if inj::hit(n, false) { return Err(de::Error::custom(format_args!("injected#{n}"))) }
        let v = match sh {
            Sh::Unit => { <()>::deserialize(d)?; V::Unit }
            Sh::UnitStruct => d.deserialize_unit_struct("U", UnitV)?,
            Sh::Bool => V::Bool(bool::deserialize(d)?),
            Sh::Int(t) => V::Int(match t {
                IT::I8 => i8::deserialize(d)? as _, IT::I16 => i16::deserialize(d)? as _, IT::I32 => i32::deserialize(d)? as _, IT::I64 => i64::deserialize(d)? as _,
                IT::U8 => u8::deserialize(d)? as _, IT::U16 => u16::deserialize(d)? as _, IT::U32 => u32::deserialize(d)? as _, IT::U64 => u64::deserialize(d)? as _,
            }),
            Sh::F32 => V::f32(f32::deserialize(d)?),
            Sh::F64 => V::f64(f64::deserialize(d)?),
            Sh::Char => V::Char(char::deserialize(d)?),
            Sh::Str | Sh::Disp => lossless(&String::deserialize(d)?),
            Sh::BStr => { let s = <&'de str>::deserialize(d)?; rec.lend(s.as_bytes(), true); lossless(s) }
            Sh::Bytes => { let b = <&'de [u8]>::deserialize(d)?; rec.lend(b, false); V::Bytes(b.to_vec()) }
            Sh::ByteBuf => d.deserialize_byte_buf(BufV)?,
            Sh::Opt(s) => d.deserialize_option(OptV(Sd(s, rec)))?,
            Sh::New(s) => d.deserialize_newtype_struct("N", NewV(Sd(s, rec)))?,
            Sh::Seq(s) => d.deserialize_seq(SeqV(Sd(s, rec)))?,
            Sh::Tup(ss) => d.deserialize_tuple(ss.len(), TupV(ss, rec))?,
            Sh::TupS(ss) => d.deserialize_tuple_struct("T", ss.len(), TupV(ss, rec))?,
            Sh::Map(k, v) => d.deserialize_map(MapV(Sd(k, rec), Sd(v, rec)))?,
            Sh::Struct(sd) => d.deserialize_struct(sd.name, sd.fields, StructV(sd.fields, sd.shapes, rec))?,
            Sh::Enum(ed) => d.deserialize_enum(ed.name, ed.names, EnumV(ed, rec))?,
            Sh::Any => d.deserialize_any(AnyV(rec))?,
            Sh::Ign => { IgnoredAny::deserialize(d)?; V::Ign }
        };
        if inj::hit(n, true) { return Err(de::Error::custom(format_args!("injected#{n}"))) }
        Ok(v)
    }
}
/// keep possibly invalid UTF-8 from an unsound decoder observable instead of UB in later formatting
fn lossless(s: &str) -> V {
    match std::str::from_utf8(s.as_bytes()) { Ok(s) => V::Str(s.to_string()), Err(_) => V::Bytes(s.as_bytes().to_vec()) }
}
struct UnitV;
impl<'de> Visitor<'de> for UnitV {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("unit struct") }
    fn visit_unit<E>(self) -> Result<V, E> { Ok(V::Unit) }
}
struct BufV;
impl<'de> Visitor<'de> for BufV {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("byte array") }
    fn visit_bytes<E>(self, b: &[u8]) -> Result<V, E> { Ok(V::Bytes(b.to_vec())) }
    fn visit_str<E>(self, b: &str) -> Result<V, E> { Ok(V::Bytes(b.as_bytes().to_vec())) }
}
struct OptV<'a>(Sd<'a>);
impl<'de> Visitor<'de> for OptV<'_> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("option") }
    fn visit_unit<E>(self) -> Result<V, E> { Ok(V::None) }
    fn visit_none<E>(self) -> Result<V, E> { Ok(V::None) }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> { Ok(V::Some(Box::new(self.0.deserialize(d)?))) }
}
struct NewV<'a>(Sd<'a>);
impl<'de> Visitor<'de> for NewV<'_> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("tuple struct N") }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> { Ok(V::New(Box::new(self.0.deserialize(d)?))) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        match a.next_element_seed(self.0)? { Some(v) => Ok(V::New(Box::new(v))), None => Err(de::Error::invalid_length(0, &"tuple struct N with 1 element")) }
    }
}
/// What a reader is told about the number of elements left (`size_hint`): if anything, exactly that.
#[derive(Default)]
struct Hints { n: usize, total: Option<usize> }
thread_local! { pub static HINT: RefCell<Option<String>> = const { RefCell::new(None) }; }
impl Hints {
    #[inline]
    fn at(&mut self, h: Option<usize>) {
        if let Some(h) = h {
            let t = h.wrapping_add(self.n);
            if self.total.is_some_and(|x| x != t) { self.bad(format!("{h} elements are announced to be left after {}, {} in all before", self.n, self.total.unwrap())) }
            self.total = Some(t);
        }
        self.n += 1;
    }
    fn end(self) { if let Some(t) = self.total { let n = self.n - 1; if t != n { self.bad(format!("{t} elements were announced but there are {n}")) } } }
    fn bad(&self, m: String) { HINT.with(|h| { h.borrow_mut().get_or_insert(m); }) }
}
struct SeqV<'a>(Sd<'a>);
impl<'de> Visitor<'de> for SeqV<'_> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a sequence") }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        let mut v = Vec::new();
        let mut h = Hints::default();
        while let Some(x) = { h.at(a.size_hint()); a.next_element_seed(self.0)? } { v.push(x) }
        h.end();
        Ok(V::Seq(v))
    }
}
struct TupV<'a>(&'static [S], &'a Rec);
impl<'de> Visitor<'de> for TupV<'_> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "a tuple of size {}", self.0.len()) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        let mut v = Vec::new();
        let mut h = Hints::default();
        for s in self.0 {
            h.at(a.size_hint());
            match a.next_element_seed(Sd(s, self.1))? { Some(x) => v.push(x), None => return Err(de::Error::invalid_length(v.len(), &self)) }
        }
        Ok(V::Seq(v))
    }
}
struct MapV<'a>(Sd<'a>, Sd<'a>);
impl<'de> Visitor<'de> for MapV<'_> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a map") }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        let mut v = Vec::new();
        let mut h = Hints::default();
        while let Some(k) = { h.at(a.size_hint()); a.next_key_seed(self.0)? } { let x = a.next_value_seed(self.1)?; v.push((k, x)) }
        h.end();
        Ok(V::Map(v))
    }
}
enum Id { At(usize), Other }
struct IdV(&'static [&'static str], bool);
impl<'de> DeserializeSeed<'de> for IdV {
    type Value = Id;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Id, D::Error> { d.deserialize_identifier(self) }
}
impl<'de> Visitor<'de> for IdV {
    type Value = Id;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("identifier") }
    fn visit_u64<E: de::Error>(self, n: u64) -> Result<Id, E> {
        if n < self.0.len() as u64 { Ok(Id::At(n as usize)) } else if self.1 { Err(E::invalid_value(de::Unexpected::Unsigned(n), &self)) } else { Ok(Id::Other) }
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<Id, E> {
        match find_name(self.0, s.as_bytes()) { Some(i) => Ok(Id::At(i)), None if self.1 => Err(E::unknown_variant(s, self.0)), None => Ok(Id::Other) }
    }
    fn visit_bytes<E: de::Error>(self, s: &[u8]) -> Result<Id, E> {
        match find_name(self.0, s) { Some(i) => Ok(Id::At(i)), None if self.1 => Err(E::unknown_variant("?", self.0)), None => Ok(Id::Other) }
    }
}
/// index of a name; wide generated types number their names, so that guess is tried first
pub fn find_name(names: &[&str], s: &[u8]) -> Option<usize> {
    if names.len() > 64 {
        if let Some(i) = s.get(1..).and_then(|d| std::str::from_utf8(d).ok()).and_then(|d| d.parse::<usize>().ok()) { if names.get(i).is_some_and(|n| n.as_bytes() == s) { return Some(i) } }
    }
    names.iter().position(|n| n.as_bytes() == s)
}
struct StructV<'a>(&'static [&'static str], &'static [S], &'a Rec);
impl<'de> Visitor<'de> for StructV<'_> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("struct") }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        let mut v = Vec::new();
        let mut h = Hints::default();
        for s in self.1 {
            h.at(a.size_hint());
            match a.next_element_seed(Sd(s, self.2))? { Some(x) => v.push(Some(x)), None => return Err(de::Error::invalid_length(v.len(), &self)) }
        }
        Ok(V::Struct(v))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        let mut v: Vec<Option<V>> = vec![None; self.1.len()];
        let mut h = Hints::default();
        while let Some(id) = { h.at(a.size_hint()); a.next_key_seed(IdV(self.0, false))? } {
            match id {
                Id::At(i) => {
                    if v[i].is_some() { return Err(de::Error::duplicate_field(self.0[i])) }
                    v[i] = Some(a.next_value_seed(Sd(self.1[i], self.2))?);
                }
                Id::Other => { a.next_value::<IgnoredAny>()?; }
            }
        }
        h.end();
        for i in 0..v.len() {
            if v[i].is_none() {
                match self.1[i] { Sh::Opt(_) => v[i] = Some(V::None), _ => return Err(de::Error::missing_field(self.0[i])) }
            }
        }
        Ok(V::Struct(v))
    }
}
struct EnumV<'a>(&'static ED, &'a Rec);
impl<'de> Visitor<'de> for EnumV<'_> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("enum") }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<V, A::Error> {
        let (id, acc) = a.variant_seed(IdV(self.0.names, true))?;
        let Id::At(i) = id else { unreachable!() };
        Ok(V::Var(i, Box::new(match &self.0.vars[i] {
            Var::Unit => { acc.unit_variant()?; V::Unit }
            Var::New(s) => acc.newtype_variant_seed(Sd(s, self.1))?,
            Var::Tup(ss) => acc.tuple_variant(ss.len(), TupV(ss, self.1))?,
            Var::Struct(names, ss) => acc.struct_variant(names, StructV(names, ss, self.1))?,
        })))
    }
}
/// Self-describing: records what kind of value was visited.
struct AnyV<'a>(&'a Rec);
impl<'de> Visitor<'de> for AnyV<'_> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("anything") }
    fn visit_bool<E>(self, b: bool) -> Result<V, E> { Ok(V::Bool(b)) }
    fn visit_i64<E>(self, n: i64) -> Result<V, E> { Ok(V::Int(n as _)) }
    fn visit_u64<E>(self, n: u64) -> Result<V, E> { Ok(V::Int(n as _)) }
    fn visit_f32<E>(self, n: f32) -> Result<V, E> { Ok(V::f32(n)) }
    fn visit_f64<E>(self, n: f64) -> Result<V, E> { Ok(V::f64(n)) }
    fn visit_char<E>(self, c: char) -> Result<V, E> { Ok(V::Char(c)) }
    fn visit_str<E>(self, s: &str) -> Result<V, E> { Ok(lossless(s)) }
    fn visit_borrowed_str<E>(self, s: &'de str) -> Result<V, E> { self.0.lend(s.as_bytes(), true); Ok(lossless(s)) }
    fn visit_bytes<E>(self, b: &[u8]) -> Result<V, E> { Ok(V::Bytes(b.to_vec())) }
    fn visit_borrowed_bytes<E>(self, b: &'de [u8]) -> Result<V, E> { self.0.lend(b, false); Ok(V::Bytes(b.to_vec())) }
    fn visit_none<E>(self) -> Result<V, E> { Ok(V::None) }
    fn visit_unit<E>(self) -> Result<V, E> { Ok(V::Unit) }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> { Ok(V::Some(Box::new(Sd(&Sh::Any, self.0).deserialize(d)?))) }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> { Ok(V::New(Box::new(Sd(&Sh::Any, self.0).deserialize(d)?))) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        let mut v = Vec::new();
        let mut h = Hints::default();
        while let Some(x) = { h.at(a.size_hint()); a.next_element_seed(Sd(&Sh::Any, self.0))? } { v.push(x) }
        h.end();
        Ok(V::Seq(v))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        let mut v = Vec::new();
        let mut h = Hints::default();
        while let Some(k) = { h.at(a.size_hint()); a.next_key_seed(Sd(&Sh::Any, self.0))? } { let x = a.next_value_seed(Sd(&Sh::Any, self.0))?; v.push((k, x)) }
        h.end();
        Ok(V::Map(v))
    }
}
