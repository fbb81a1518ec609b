/// Shrink a failing choice sequence. `fails` runs a candidate and, if it still
/// fails, returns the choices it actually consumed.
pub fn shrink(
    start: Vec<u64>,
    mut budget: usize,
    mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>,
) -> Vec<u64> {
    fn better(a: &[u64], b: &[u64]) -> bool {
        (a.len(), a) < (b.len(), b)
    }

    let mut best = start;

    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            let mut ok = false;
            if budget > 0 && cand != best {
                budget -= 1;
                if let Some(used) = fails(&cand) {
                    if better(&used, &best) {
                        best = used;
                        ok = true;
                    }
                }
            }
            ok
        }};
    }

    loop {
        let before = best.clone();

        // Delete spans.
        let mut size = best.len();
        while size > 0 {
            let mut at = 0;
            while at + size <= best.len() {
                let mut c = best.clone();
                c.drain(at..at + size);
                if !attempt!(c) {
                    at += size.max(1);
                }
                if budget == 0 {
                    return best;
                }
            }
            size /= 2;
        }

        // Zero spans.
        for size in [8usize, 4, 2, 1] {
            let mut at = 0;
            while at + size <= best.len() {
                if best[at..at + size].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[at..at + size].fill(0);
                    attempt!(c);
                }
                at += size;
            }
        }

        // Delete one element and lower an earlier one (lengths).
        for i in 0..best.len().min(200) {
            for span in [1usize, 2, 3, 4] {
                if i < best.len() && best[i] > 0 && i + 1 + span <= best.len() {
                    let mut c = best.clone();
                    c[i] -= 1;
                    c.drain(i + 1..i + 1 + span);
                    attempt!(c);
                }
            }
        }

        // Minimise values by binary search.
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            let mut hi = best[i];
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if attempt!(c) {
                    if i >= best.len() {
                        break;
                    }
                    hi = best[i].min(mid);
                } else {
                    lo = mid + 1;
                }
                if budget == 0 {
                    return best;
                }
            }
            i += 1;
        }

        if best == before || budget == 0 {
            return best;
        }
    }
}
