//! Driving the real code: sinks, guarded input buffers, the public entry points.
use crate::engine::{imp, Bad, R};
use crate::jref::{self, Dec, Enc};
use crate::mref::{self, Fl};
use crate::shape::*;
use crate::{ensure, fail};
use serde::de::{Deserialize, DeserializeSeed, Deserializer};
use serde::Serialize;
use ser_write::SerWrite;
use std::cell::{Cell, RefCell};
use ser_write_json as js;
use ser_write_msgpack as mp;

// ------------------------------------------------------------------ sinks
#[derive(Debug, Clone, PartialEq, Default)]
pub struct SinkErr;
impl std::fmt::Display for SinkErr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("sink error") } }
/// Growable test sink that counts calls and can refuse the k-th one.
#[derive(Default, Debug)]
pub struct Sink { pub buf: Vec<u8>, pub calls: usize, pub fail_at: Option<usize>, pub after: usize, pub log: bool, pub sizes: Vec<usize> }
impl Sink {
    fn put(&mut self, b: &[u8]) -> Result<(), SinkErr> {
        let n = self.calls;
        self.calls += 1;
        if inj::fired() { self.after += 1 }
        match self.fail_at {
            Some(k) if n == k => Err(SinkErr),
            Some(k) if n > k => { self.after += 1; Err(SinkErr) }
            _ => { if self.log { self.sizes.push(self.buf.len()) } self.buf.extend_from_slice(b); Ok(()) }
        }
    }
}
impl SerWrite for Sink {
    type Error = SinkErr;
    fn write(&mut self, b: &[u8]) -> Result<(), SinkErr> { self.put(b) }
    fn write_byte(&mut self, b: u8) -> Result<(), SinkErr> { self.put(&[b]) }
    fn write_str(&mut self, s: &str) -> Result<(), SinkErr> { self.put(s.as_bytes()) }
}
/// kind of an error: its Debug name without content
pub fn kind<E: std::fmt::Debug>(e: &E) -> String { let s = format!("{e:?}"); s.split(['(', ' ', '{']).next().unwrap().to_string() }

pub fn jser_to<W: SerWrite, T: Serialize + ?Sized>(enc: Enc, w: W, v: &T) -> Result<(), js::ser::Error<W::Error>> where W::Error: std::fmt::Debug + std::fmt::Display {
    match enc {
        Enc::Arr => js::to_writer(w, v),
        Enc::Hex => js::to_writer_hex_bytes(w, v),
        Enc::B64 => js::to_writer_base64_bytes(w, v),
        Enc::Pass => js::to_writer_pass_bytes(w, v),
    }
}
pub fn jser_sink<T: Serialize + ?Sized>(enc: Enc, v: &T, s: &mut Sink) -> Result<Result<(), js::ser::Error<SinkErr>>, Bad> { imp(|| jser_to(enc, s, v)) }
/// JSON text of a value; Err(kind) if the serializer refuses
pub fn jser<T: Serialize + ?Sized>(enc: Enc, v: &T) -> Result<Result<Vec<u8>, String>, Bad> {
    let mut s = Sink::default();
    Ok(jser_sink(enc, v, &mut s)?.map(|_| s.buf).map_err(|e| kind(&e)))
}
pub fn mser_to<W: SerWrite, T: Serialize + ?Sized>(fl: Fl, w: W, v: &T) -> Result<(), mp::ser::Error<W::Error>> where W::Error: std::fmt::Debug + std::fmt::Display {
    match fl { Fl::Compact => mp::to_writer_compact(w, v), Fl::Idx => mp::to_writer(w, v), Fl::Named => mp::to_writer_named(w, v) }
}
pub fn mser_sink<T: Serialize + ?Sized>(fl: Fl, v: &T, s: &mut Sink) -> Result<Result<(), mp::ser::Error<SinkErr>>, Bad> { imp(|| mser_to(fl, s, v)) }
pub fn mser<T: Serialize + ?Sized>(fl: Fl, v: &T) -> Result<Result<Vec<u8>, String>, Bad> {
    let mut s = Sink::default();
    Ok(mser_sink(fl, v, &mut s)?.map(|_| s.buf).map_err(|e| kind(&e)))
}
pub fn jser_ok(enc: Enc, sh: S, v: &V) -> Result<Vec<u8>, Bad> {
    match jser(enc, &SV(sh, v))? { Ok(b) => Ok(b), Err(k) => Err(Bad { key: String::new(), msg: format!("serializing {v:?} as {sh:?} ({enc:?}) failed: {k}") }) }
}
pub fn mser_ok(fl: Fl, sh: S, v: &V) -> Result<Vec<u8>, Bad> {
    match mser(fl, &SV(sh, v))? { Ok(b) => Ok(b), Err(k) => Err(Bad { key: String::new(), msg: format!("serializing {v:?} as {sh:?} ({fl:?}) failed: {k}") }) }
}

// ------------------------------------------------------------------ decoding as a runtime shape
thread_local! {
    static SHAPE: Cell<S> = const { Cell::new(&Sh::Unit) };
    static LENT: RefCell<Vec<(usize, Vec<u8>, bool)>> = const { RefCell::new(Vec::new()) };
}
/// A `Deserialize` type whose shape is chosen at run time, so the public functions can be called.
pub struct Dyn(pub V);
impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let rec = Rec::default();
        let r = Sd(SHAPE.with(|s| s.get()), &rec).deserialize(d);
        LENT.with(|l| *l.borrow_mut() = rec.lent.take());
        r.map(Dyn)
    }
}
pub struct Lent { pub at: usize, pub bytes: Vec<u8>, pub is_str: bool }
/// `hint`: what was wrong with the numbers of elements announced to the reader
pub struct Out<Er> { pub res: Result<V, Er>, pub lent: Vec<Lent>, pub used: usize, pub hint: Option<String> }

pub const PAD: usize = 24;
fn canary(i: usize) -> u8 { [0x22, 0x5c, 0xa5, b'0'][i % 4] ^ (i as u8 & 0x80) }
/// A buffer with guard bytes on both sides of the document.
pub struct Guard { pub buf: Vec<u8>, pub n: usize }
impl Guard {
    pub fn new(doc: &[u8]) -> Guard {
        let mut buf = Vec::with_capacity(doc.len() + 2 * PAD);
        for i in 0..PAD { buf.push(canary(i)) }
        buf.extend_from_slice(doc);
        for i in 0..PAD { buf.push(canary(i)) }
        Guard { buf, n: doc.len() }
    }
    pub fn doc(&mut self) -> &mut [u8] { &mut self.buf[PAD..PAD + self.n] }
    pub fn check(&self) -> R {
        for i in 0..PAD {
            ensure!(self.buf[i] == canary(i), "byte {} before the input slice was modified", PAD - i);
            ensure!(self.buf[PAD + self.n + i] == canary(i), "byte {i} after the input slice was modified");
        }
        Ok(())
    }
    /// positions of what was lent out, checked for containment, stability, UTF-8 and overlap
    pub fn lent(&self) -> Result<Vec<Lent>, Bad> { self.lent_within(&[]) }
    /// `foreign`: constants a custom decoder hands out itself
    pub fn lent_within(&self, foreign: &[&[u8]]) -> Result<Vec<Lent>, Bad> {
        let l = LENT.with(|l| l.take());
        let base = self.buf.as_ptr() as usize + PAD;
        let mut o: Vec<Lent> = vec![];
        for (a, bytes, is_str) in l {
            if !bytes.is_empty() {
                if !(a >= base && a < base + self.n) && foreign.contains(&&bytes[..]) { o.push(Lent { at: usize::MAX, bytes, is_str }); continue }
                if !(a >= base && a + bytes.len() <= base + self.n) { fail!("borrowed slice lies outside the input") }
                let at = a - base;
                let now = &self.buf[PAD + at..PAD + at + bytes.len()];
                if now != &bytes[..] { fail!("borrowed content changed from {:?} to {:?} while decoding", jref::show(&bytes), jref::show(now)) }
            }
            if is_str && std::str::from_utf8(&bytes).is_err() { fail!("borrowed str is not UTF-8: {bytes:02x?}") }
            o.push(Lent { at: if bytes.is_empty() { usize::MAX } else { a - base }, bytes, is_str });
        }
        let mut spans: Vec<(usize, usize)> = o.iter().filter(|p| p.at != usize::MAX).map(|p| (p.at, p.bytes.len())).collect();
        spans.sort();
        for w in spans.windows(2) { if w[0].0 + w[0].1 > w[1].0 { fail!("borrowed slices overlap") } }
        Ok(o)
    }
}

pub fn jdec(sh: S, doc: &[u8], dec: Dec) -> Result<Out<js::de::Error>, Bad> {
    jdec_with(sh, doc, dec, |d| match dec {
        Dec::Nope => js::from_mut_slice::<Dyn>(d),
        Dec::Hex => js::from_mut_slice_hex_bytes::<Dyn>(d),
        Dec::B64 => js::from_mut_slice_base64_bytes::<Dyn>(d),
    }.map(|d| d.0))
}
/// decode through `f`, with guarded input and lent slices checked
pub fn jdec_with(sh: S, doc: &[u8], dec: impl std::fmt::Debug, f: impl for<'a> FnOnce(&'a mut [u8]) -> js::de::Result<V>) -> Result<Out<js::de::Error>, Bad> {
    let mut g = Guard::new(doc);
    SHAPE.with(|s| s.set(sh));
    LENT.with(|l| l.borrow_mut().clear());
    let ctx = |b: Bad| Bad { msg: format!("{} decoding `{}` as {sh:?} ({dec:?})", b.msg, jref::show(doc)), key: b.key };
    let res = imp(|| f(g.doc())).map_err(ctx)?;
    HINT.with(|h| h.take());
    g.check().map_err(ctx)?;
    let lent = g.lent_within(&[b"~", b"three hundred", b"number"]).map_err(ctx)?;
    Ok(Out { res, lent, used: 0, hint: None })
}
pub fn mdec(sh: S, doc: &[u8]) -> Result<Out<mp::de::Error>, Bad> {
    let mut g = Guard::new(doc);
    SHAPE.with(|s| s.set(sh));
    LENT.with(|l| l.borrow_mut().clear());
    let res = imp(|| mp::from_slice::<Dyn>(g.doc())).map_err(|b| Bad { msg: format!("{} decoding [{}] as {sh:?}", b.msg, mref::hex(doc)), key: b.key })?;
    let ctx = |b: Bad| Bad { msg: format!("{} decoding [{}] as {sh:?}", b.msg, mref::hex(doc)), key: b.key };
    let hint = HINT.with(|h| h.take());
    g.check().map_err(ctx)?;
    let lent = g.lent().map_err(ctx)?;
    let mut used = 0;
    let res = res.map(|(d, n)| { used = n; d.0 });
    if used > doc.len() { fail!("consumed length {used} exceeds the input decoding [{}] as {sh:?}", mref::hex(doc)) }
    Ok(Out { res, lent, used, hint })
}

// ------------------------------------------------------------------ judging against the reference
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Seen { Accept, Reject, Eof, Free }
/// Decode with the implementation and compare with the reference decoder. Returns the reference's
/// opinion, so a search can prune.
pub fn jjudge(sh: S, doc: &[u8], dec: Dec) -> Result<Seen, Bad> {
    let out = jdec(sh, doc, dec)?;
    let want = jref::decode_full(sh, doc, dec);
    let cx = || format!("decoding `{}` as {sh:?} ({dec:?})", jref::show(doc));
    match (want, out.res) {
        (Ok((v, r)), Ok(g)) => {
            ensure!(veq(&v, &g, false), "wrong value {g:?}, want {v:?} {}", cx());
            if !r.lenient || r.lits.len() == out.lent.len() {
                ensure!(r.lits.len() == out.lent.len(), "{} borrowed values, want {} {}", out.lent.len(), r.lits.len(), cx());
                for (l, (a, b)) in out.lent.iter().zip(&r.lits) {
                    ensure!(l.bytes.is_empty() || (l.at > *a && l.at + l.bytes.len() < *b), "borrowed value at {}..{} is not at its literal {a}..{b} {}", l.at, l.at + l.bytes.len(), cx());
                }
            }
            Ok(Seen::Accept)
        }
        (Ok((v, r)), Err(e)) => { ensure!(r.lenient, "rejected with {e:?}, want {v:?} {}", cx()); Ok(Seen::Accept) }
        (Err(jref::E::Dc), _) => Ok(Seen::Free),
        (Err(e), Ok(g)) => fail!("accepted as {g:?}, must be rejected ({e:?}) {}", cx()),
        (Err(jref::E::Eof), Err(_)) => Ok(Seen::Eof),
        (Err(_), Err(_)) => Ok(Seen::Reject),
    }
}
pub fn mjudge(sh: S, doc: &[u8]) -> Result<Seen, Bad> {
    let out = mdec(sh, doc)?;
    let want = mref::decode_full(sh, doc);
    let cx = || format!("decoding [{}] as {sh:?}", mref::hex(doc));
    ensure!(out.hint.is_none(), "{} {}", out.hint.as_ref().unwrap(), cx());
    match (want, out.res) {
        (Ok((v, r)), Ok(g)) => {
            ensure!(veq(&v, &g, false), "wrong value {}, want {} {}", mref::brief(&g), mref::brief(&v), cx());
            ensure!(out.used == r.i, "consumed {} bytes, want {} {}", out.used, r.i, cx());
            ensure!(r.lits.len() == out.lent.len(), "{} borrowed values, want {} {}", out.lent.len(), r.lits.len(), cx());
            for (l, (a, b)) in out.lent.iter().zip(&r.lits) {
                ensure!(l.bytes.is_empty() || (l.at == *a && l.at + l.bytes.len() == *b), "borrowed value at {}..{} instead of {a}..{b} {}", l.at, l.at + l.bytes.len(), cx());
            }
            Ok(Seen::Accept)
        }
        (Ok((v, _)), Err(e)) => fail!("rejected with {e:?}, want {} {}", mref::brief(&v), cx()),
        (Err(jref::E::Dc), _) => Ok(Seen::Free),
        (Err(e), Ok(g)) => fail!("accepted as {}, must be rejected ({e:?}) {}", mref::brief(&g), cx()),
        (Err(jref::E::Eof), Err(_)) => Ok(Seen::Eof),
        (Err(_), Err(_)) => Ok(Seen::Reject),
    }
}
/// select the shape `Dyn` decodes as
pub fn set_shape(sh: S) { SHAPE.with(|s| s.set(sh)) }
/// make values recorded outside `Dyn` available to `Guard::lent`
pub fn put_lent(rec: &Rec) { LENT.with(|l| *l.borrow_mut() = rec.lent.take()) }
