use crate::*;

/// Iteration from both ends.
fn iterate<T: Z, E: ByteOrder, O: Sz>(s: &mut Src, c: &mut Case) -> Res {
    let max = size_max::<O>() as usize;
    let size = size_of::<T>();
    let len = s.size(0, 30).min(max);
    let span = len.saturating_sub(1) * size;
    if span > max {
        return Ok(());
    }
    let at = if s.bool() { s.size(0, 60).min(max - span) } else { (max - span) - s.size(0, 9).min(max - span) };
    let text = format!("Ref<[{}], {}, {}> to {len} at {at}", name::<T>(), name::<E>(), name::<O>());
    let mut want: VecDeque<usize> = (0..len).map(|n| at + n * size).collect();
    let mut it = Ref::<[T], E, O>::with_metadata(at, len).iter();
    let mut log = String::new();
    let mut out = || -> Res {
        for _ in 0..len + 2 {
            let back = s.bool();
            log.push(if back { '<' } else { '>' });
            let (got, want) = if back { (it.next_back(), want.pop_back()) } else { (it.next(), want.pop_front()) };
            ensure_eq!(got.map(|r| r.offset()), want, "after {log}");
        }
        Ok(())
    };
    let out = out();
    c.desc(|| format!("{text}: {log}"));
    if len > 1 {
        c.nontrivial(&(&text, &log));
    }
    out.map_err(|e| format!("{text}: {e}"))
}

typed!(all, iterate, Iterate);
