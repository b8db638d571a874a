//! Extreme nesting, one case per process (a stack overflow aborts the process).
use crate::run::{set_shape, Dyn};
use crate::shape::*;
use serde::Deserialize;
use ser_write_json as js;
use ser_write_msgpack as mp;

#[derive(Deserialize)] #[allow(dead_code)] struct Rec1(Vec<Rec1>);
#[derive(Deserialize)] #[allow(dead_code)] struct OneField { #[serde(default)] known: u8 }
/// every case must return from the call and print "deep ok"
pub fn deep(case: &str) {
    const N: usize = 1_000_000;
    let case = case.to_string();
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || -> Result<(), String> {
        let rep = |s: &[u8]| s.repeat(N);
        let eof = |r: Result<(), String>, want_ok: bool| if r.is_ok() == want_ok { Ok(()) } else { Err(format!("{r:?}")) };
        let balanced = |a: &[u8], m: &[u8], z: &[u8]| [rep(a), m.to_vec(), rep(z)].concat();
        let jign = |mut d: Vec<u8>| js::from_mut_slice::<serde::de::IgnoredAny>(&mut d).map(|_| ()).map_err(|e| format!("{e:?}"));
        let eat = |d: &[u8]| { let mut x = mp::de::Deserializer::from_slice(d); x.eat_message().map_err(|e| format!("{e:?}"))?; if x.remaining_len() == 1 { Ok(()) } else { Err("wrong length".into()) } };
        match case.as_str() {
            "json-ignored-array" => { eof(jign(rep(b"[")), false)?; eof(jign(balanced(b"[", b"1", b"]")), true) }
            "json-ignored-object" => { eof(jign(rep(b"{\"\":")), false)?; eof(jign(balanced(b"{\"\":", b"1", b"}")), true) }
            "json-any" => { set_shape(&Sh::Any); eof(js::from_mut_slice::<Dyn>(&mut rep(b"[")).map(std::mem::forget).map_err(|e| format!("{e:?}")), false) }
            "json-recursive" => eof(js::from_mut_slice::<Rec1>(&mut rep(b"[")).map(std::mem::forget).map_err(|e| format!("{e:?}")), false),
            "msgpack-any" => { set_shape(&Sh::Any); eof(mp::from_slice::<Dyn>(&rep(&[0x91])).map(std::mem::forget).map_err(|e| format!("{e:?}")), false) }
            "msgpack-recursive" => eof(mp::from_slice::<Rec1>(&rep(&[0x91])).map(std::mem::forget).map_err(|e| format!("{e:?}")), false),
            "msgpack-skip-array" => { for a in [&[0x91][..], &[0xdc, 0, 1], &[0xdd, 0, 0, 0, 1], &[0x92, 0xc0]] { let mut d = [rep(a), vec![0xc0]].concat(); eof(eat(&d), false)?; d.push(7); eof(eat(&d), true)?; d.truncate(d.len() - 2); eof(eat(&d), false)?; } Ok(()) }
            "msgpack-skip-map" => { for a in [&[0x81, 0xa0][..], &[0xde, 0, 1, 5], &[0xdf, 0, 0, 0, 1, 0xc0]] { eof(eat(&[rep(a), vec![0xc0, 7]].concat()), true)?; eof(eat(&rep(a)), false)?; } Ok(()) }
            "msgpack-skip-key" => eof(eat(&[rep(&[0x81]), vec![0xc0], rep(&[0xc0]), vec![7]].concat()), true),
            "msgpack-ignored" => {
                let d = [vec![0x82, 0xa1, b'u'], rep(&[0x91]), vec![0xc0, 0xa5], b"known".to_vec(), vec![9]].concat();
                let r = mp::from_slice::<OneField>(&d).map_err(|e| format!("{e:?}"))?;
                if r.0.known != 9 || r.1 != d.len() { return Err("wrong value".into()) }
                let d = [rep(&[0x91]), vec![0xc0]].concat();
                let r = mp::from_slice::<serde::de::IgnoredAny>(&d).map_err(|e| format!("{e:?}"))?;
                if r.1 == d.len() { Ok(()) } else { Err("wrong length".into()) }
            }
            _ => Err("unknown case".into()),
        }
    }).unwrap();
    match h.join() { Ok(Ok(())) => println!("deep ok"), Ok(Err(e)) => println!("wrong result: {}", &e[..e.len().min(300)]), Err(_) => println!("panic") }
}
