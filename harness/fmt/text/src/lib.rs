use dynv::*;

pub fn formats(out: &mut Vec<Fmt>) {
    dynv::fmt!(out, "json", Json, o(false, false, 0), JSON, dynv::musli::json::Encoding::new());
    out.push(value());
}

/// The dynamic value is not a sequence of bytes: `enc` keeps what it made in a
/// slot which `dec` reads.
fn value() -> Fmt {
    thread_local! {
        static SLOTS: std::cell::RefCell<Vec<dynv::musli::value::Value<dynv::musli::alloc::System>>> = const { std::cell::RefCell::new(Vec::new()) };
    }
    Fmt {
        name: "value",
        kind: Kind::Value,
        opts: o(false, false, 0),
        caps: BINARY,
        enc: |v| {
            let v = dynv::musli::value::encode(En::<0>(v)).map_err(|e| e.to_string())?;
            SLOTS.with(|s| {
                let mut s = s.borrow_mut();
                s.clear();
                s.push(v);
            });
            Ok(Vec::new())
        },
        dec: |ty, _| {
            SLOTS.with(|s| {
                let s = s.borrow();
                with_ty(ty, || dynv::musli::value::decode::<De>(&s[0])).map(|d| d.0).map_err(|e| e.to_string())
            })
        },
        dec_rest: |ty, _| {
            SLOTS.with(|s| {
                let s = s.borrow();
                with_ty(ty, || dynv::musli::value::decode::<De>(&s[0])).map(|d| (d.0, 0)).map_err(|e| e.to_string())
            })
        },
    }
}

pub fn throughs(out: &mut Vec<Through>) {
    dynv::through!(out, "json", Json, o(false, false, 0), dynv::musli::json::Encoding::new());
}
