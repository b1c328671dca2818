//! Tape minimisation: deletes, zeroes and lowers choices while the same violation class persists.

/// `test` returns true if the tape still fails with the same class.
pub fn shrink(start: Vec<u32>, max_tests: usize, mut test: impl FnMut(&[u32]) -> bool) -> (Vec<u32>, usize) {
    let mut best = start;
    let mut tests = 0usize;
    let trim = |t: &mut Vec<u32>| {
        while t.last() == Some(&0) {
            t.pop();
        }
    };
    let mut cand = best.clone();
    trim(&mut cand);
    if cand.len() < best.len() {
        tests += 1;
        if test(&cand) {
            best = cand;
        }
    }
    loop {
        let before = best.clone();
        // Delete chunks, largest first.
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if tests >= max_tests {
                    return (best, tests);
                }
                let j = (i + size).min(best.len());
                let mut c = best[..i].to_vec();
                c.extend_from_slice(&best[j..]);
                trim(&mut c);
                tests += 1;
                if test(&c) {
                    best = c;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Zero chunks.
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if tests >= max_tests {
                    return (best, tests);
                }
                let j = (i + size).min(best.len());
                if best[i..j].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    for v in &mut c[i..j] {
                        *v = 0;
                    }
                    trim(&mut c);
                    tests += 1;
                    if test(&c) {
                        best = c;
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Lower single values.
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u32;
            while i < best.len() && best[i] > lo {
                if tests >= max_tests {
                    return (best, tests);
                }
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                trim(&mut c);
                tests += 1;
                if test(&c) {
                    best = c;
                } else {
                    if mid + 1 >= best[i] {
                        break;
                    }
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if best == before {
            return (best, tests);
        }
    }
}
