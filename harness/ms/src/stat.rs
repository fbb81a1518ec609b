//! Static types in every format.
use std::sync::OnceLock;

use pbt::{ensure, hex, short, Case, Res, Src};
use st::{Codec, Entry, Kind, Obj, Val};

use mz::js::Js;

/// Codecs and the entries they are for, by index.
pub fn codecs() -> &'static [(Codec, &'static [Entry])] {
    static ALL: OnceLock<Vec<(Codec, &'static [Entry])>> = OnceLock::new();
    ALL.get_or_init(|| {
        let mut out = Vec::new();
        stf_storage_a::codecs(&mut out);
        stf_storage_b::codecs(&mut out);
        stf_wire_a::codecs(&mut out);
        stf_wire_b::codecs(&mut out);
        stf_descriptive_a::codecs(&mut out);
        stf_descriptive_b::codecs(&mut out);
        stf_packed::codecs(&mut out);
        stf_text::codecs(&mut out);
        out.into_iter().map(|c| (c, st::list::ENTRIES)).collect()
    })
}

pub fn entries() -> &'static [Entry] {
    st::list::ENTRIES
}

/// A codec and a type it is for.
pub fn pick(s: &mut Src) -> (&'static Codec, usize, &'static Entry) {
    let (c, es) = s.pick(codecs());
    loop {
        let i = s.index(es.len());
        if c.takes(&es[i]) {
            return (c, i, &es[i]);
        }
    }
}

pub fn show(c: &Codec, e: &Entry, v: &Obj) -> String {
    short(format!("{} {} {}", c.name, e.name, (e.debug)(&**v)))
}

/// Values come back from their own bytes, and use all of them.
pub fn round_trip(s: &mut Src, c: &mut Case) -> Res {
    let (f, i, e) = pick(s);
    let v = (e.gen)(s);
    c.desc(|| show(f, e, &v));
    if (e.model)(&*v, f.text).size() > 1 {
        c.nontrivial(&(f.name, e.name, (e.debug)(&*v)));
    }
    let b = match (f.fns[i].enc)(&*v) {
        Ok(b) => b,
        Err(err) => {
            // Only lengths and pointer sized numbers may fail to fit.
            ensure!(f.opts.ptr != 0 && f.opts.ptr != 8, "{}: encoding failed: {err}", show(f, e, &v));
            c.label("does not fit the pointer width");
            return Ok(());
        }
    };
    let (out, n) = (f.fns[i].dec)(&b).map_err(|err| format!("{}: decoding {} failed: {err}", show(f, e, &v), hex(&b)))?;
    ensure!((e.valid)(&*out), "{}: decoded an invalid value", show(f, e, &v));
    ensure!((e.same)(&*v, &*out), "{}: decoded {} from {}", show(f, e, &v), short((e.debug)(&*out)), hex(&b));
    ensure!(n == b.len(), "{}: used {n} of {} bytes", show(f, e, &v), b.len());
    if f.kind != Kind::Value {
        // Whatever follows is left alone.
        let mut long = b.clone();
        if f.kind == Kind::Json {
            long.extend(*s.pick(&[b"\n\n", b", ", b"]}", b" 1"]));
        } else if f.kind != Kind::Packed || s.bool() {
            long.extend(s.bytes(9));
        }
        let got = (f.fns[i].dec)(&long);
        match got {
            Ok((out, m)) => {
                ensure!((e.same)(&*v, &*out), "{}: decoded {} from {} with something after it", show(f, e, &v), short((e.debug)(&*out)), hex(&b));
                ensure!(m == n || f.kind == Kind::Json, "{}: used {m} of {n} bytes with something after it", show(f, e, &v));
            }
            Err(err) => return Err(format!("{}: decoding failed with something after it: {err}", show(f, e, &v))),
        }
    }
    Ok(())
}

/// The bytes are those of the model.
pub fn layout(s: &mut Src, c: &mut Case) -> Res {
    let (f, i, e) = loop {
        let p = pick(s);
        if !matches!(p.0.kind, Kind::Json | Kind::Value) {
            break p;
        }
    };
    let v = (e.gen)(s);
    // What is copied as memory in a container is not on its own.
    let m = match (e.model)(&*v, f.text) {
        Val::Raw(_, plain) => *plain,
        m => m,
    };
    c.desc(|| show(f, e, &v));
    if m.size() > 1 {
        c.nontrivial(&(f.name, e.name, (e.debug)(&*v)));
    }
    let got = (f.fns[i].enc)(&*v);
    let Some(want) = dynv::refm::encode(f.kind, f.opts, &m) else {
        ensure!(got.is_err(), "{}: a number which does not fit is encoded", show(f, e, &v));
        return Ok(());
    };
    let got = got.map_err(|err| format!("{}: encoding failed: {err}", show(f, e, &v)))?;
    ensure!(got == want, "{}: encoded as {} and not as {}", show(f, e, &v), hex(&got), hex(&want));
    Ok(())
}

/// The document is the data of the model.
pub fn document(s: &mut Src, c: &mut Case) -> Res {
    let (f, es) = codecs().iter().find(|(c, _)| c.kind == Kind::Json).expect("a JSON codec");
    let i = loop {
        let i = s.index(es.len());
        if f.takes(&es[i]) {
            break i;
        }
    };
    let e = &es[i];
    let v = (e.gen)(s);
    let m = (e.model)(&*v, true);
    c.desc(|| show(f, e, &v));
    if m.size() > 1 {
        c.nontrivial(&(e.name, (e.debug)(&*v)));
    }
    let got = (f.fns[i].enc)(&*v).map_err(|err| format!("{}: encoding failed: {err}", show(f, e, &v)))?;
    let js = Js::parse(&got).map_err(|err| format!("{}: {} is not JSON: {err}", show(f, e, &v), String::from_utf8_lossy(&got)))?;
    ensure!(js.is(&m), "{}: encoded as {}", show(f, e, &v), short(String::from_utf8_lossy(&got)));
    // Spelled in another way it is the same.
    let mut wild = String::new();
    js.render_into(s, &mut wild, false);
    let (out, _) = (f.fns[i].dec)(wild.as_bytes()).map_err(|err| format!("{}: decoding {} failed: {err}", show(f, e, &v), short(&wild)))?;
    ensure!((e.same)(&*v, &*out), "{}: decoded {} from {}", show(f, e, &v), short((e.debug)(&*out)), short(&wild));
    Ok(())
}

/// Arrays of what is copied when encoding but validated when decoding.
pub fn validated_arrays() -> Option<String> {
    let b = st::musli::packed::to_vec(&([true, false], 7u8)).ok()?;
    match st::musli::packed::from_slice::<([bool; 2], u8)>(&b) {
        Ok(([true, false], 7)) => None,
        got => Some(format!("packed: ([true, false], 7u8) is encoded as {} and decoded as {got:?}", hex(&b))),
    }
}
