use crate::*;

// Documents of linked parts.

#[derive(ZeroCopy, Clone, Copy)]
#[repr(C)]
#[zero_copy(bounds = {E: ByteOrder, O: musli_zerocopy::Size})]
struct Node<E: ByteOrder, O: musli_zerocopy::Size> {
    kind: u8,
    number: Endian<u32, E>,
    text: Ref<str, E, O>,
    parts: Ref<[Ref<[Endian<u16, E>], E, O>], E, O>,
    next: Ref<[Endian<i64, E>], E, O>,
}

#[derive(Debug, Clone, PartialEq)]
struct Model {
    kind: u8,
    number: u32,
    text: String,
    parts: Vec<Vec<u16>>,
    next: Vec<i64>,
}

fn document<E: ByteOrder, O: Sz>(s: &mut Src, c: &mut Case) -> Res {
    let n = s.size(0, 4);
    let model: Vec<Model> = (0..n)
        .map(|_| Model {
            kind: s.upto(255) as u8,
            number: s.unsigned(32) as u32,
            text: s.string(8),
            parts: (0..s.size(0, 3)).map(|_| (0..s.size(0, 3)).map(|_| s.unsigned(16) as u16).collect()).collect(),
            next: (0..s.size(0, 2)).map(|_| s.signed(64) as i64).collect(),
        })
        .collect();
    let text = format!("{} {}: {model:?}", name::<E>(), name::<O>());
    c.desc(|| text.clone());
    let out = catch_unwind(AssertUnwindSafe(|| {
        let mut buf = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
        let root = buf.store_uninit::<Ref<[Node<E, O>], E, O>>();
        let mut nodes = vec![];
        for m in &model {
            let text = buf.store_unsized(m.text.as_str());
            let mut parts = vec![];
            for p in &m.parts {
                let p: Vec<Endian<u16, E>> = p.iter().map(|n| Endian::new(*n)).collect();
                parts.push(buf.store_slice(&p));
            }
            let parts = buf.store_slice(&parts);
            let next: Vec<Endian<i64, E>> = m.next.iter().map(|n| Endian::new(*n)).collect();
            let next = buf.store_slice(&next);
            nodes.push(Node { kind: m.kind, number: Endian::new(m.number), text, parts, next });
        }
        let r = buf.store_slice(&nodes);
        buf.load_uninit_mut(root).write(&r);
        buf.align_in_place();
        buf
    }));
    let buf = match out {
        Ok(buf) => buf,
        Err(_) => {
            // Only a document beyond what the offsets reach is refused.
            ensure!(size_of::<O>() == 1, "{text}: storing panicked");
            return Ok(());
        }
    };
    if n > 0 && model.iter().any(|m| !m.parts.is_empty()) {
        c.nontrivial(&(name::<(E, O)>(), format!("{model:?}")));
    }
    let bytes = buf.as_slice().to_vec();
    // At an aligned address.
    let slack = (0isize - bytes.len() as isize).rem_euclid(16) as usize;
    let (out, _) = guarded(&bytes, slack, |b| -> Result<Vec<Model>, musli_zerocopy::Error> {
        let buf = Buf::new(b);
        let root = *buf.load(Ref::<Ref<[Node<E, O>], E, O>, E, O>::zero())?;
        let mut got = vec![];
        for node in buf.load(root)? {
            let mut parts = vec![];
            for p in buf.load(node.parts)? {
                parts.push(buf.load(*p)?.iter().map(|n| n.to_ne()).collect());
            }
            got.push(Model {
                kind: node.kind,
                number: node.number.to_ne(),
                text: buf.load(node.text)?.to_owned(),
                parts,
                next: buf.load(node.next)?.iter().map(|n| n.to_ne()).collect(),
            });
        }
        Ok(got)
    });
    let got = out.map_err(|e| format!("{text}: {e}"))?;
    ensure_eq!(got, model, "{text}");
    // The same document, read by hand.
    let got = by_hand::<E, O>(&bytes).ok_or_else(|| format!("{text}: not what the layout says: {}", hex(&bytes)))?;
    ensure_eq!(got, model, "{text}: by the layout");
    Ok(())
}

fn by_hand<E: ByteOrder, O: Sz>(b: &[u8]) -> Option<Vec<Model>> {
    let w = size_of::<O>();
    let big = name::<E>().ends_with("Big");
    let int = |at: usize, n: usize| -> Option<u64> {
        let b = b.get(at..at + n)?;
        Some(if big { b.iter().fold(0, |a, b| a << 8 | *b as u64) } else { b.iter().rev().fold(0, |a, b| a << 8 | *b as u64) })
    };
    let reference = |at: usize| -> Option<(usize, usize)> { Some((int(at, w)? as usize, int(at + w, w)? as usize)) };
    let align = w.max(4);
    let refs = 8usize.div_ceil(w) * w;
    let size = (refs + 6 * w).div_ceil(align) * align;
    let (at, n) = reference(0)?;
    let mut out = vec![];
    for n in 0..n {
        let at = at + n * size;
        let (t, tn) = reference(at + refs)?;
        let (p, pn) = reference(at + refs + 2 * w)?;
        let (x, xn) = reference(at + refs + 4 * w)?;
        let mut parts = vec![];
        for n in 0..pn {
            let (q, qn) = reference(p + n * 2 * w)?;
            parts.push((0..qn).map(|n| int(q + 2 * n, 2).map(|n| n as u16)).collect::<Option<_>>()?);
        }
        out.push(Model {
            kind: *b.get(at)?,
            number: int(at + 4, 4)? as u32,
            text: String::from_utf8(b.get(t..t + tn)?.to_vec()).ok()?,
            parts,
            next: (0..xn).map(|n| int(x + 8 * n, 8).map(|n| n as i64)).collect::<Option<_>>()?,
        });
    }
    Some(out)
}

pub fn documents(s: &mut Src, c: &mut Case) -> Res {
    let n = s.upto(9);
    every_order!(n, document, [], s, c)
}
