//! Enumerators: ordered trees, permutations, sequences.

/// All ordered tree shapes with `n` nodes, as parent vectors in pre-order
/// (`parents[0]` unused; `parents[i] < i`).
pub fn shapes(n: usize) -> Vec<Vec<usize>> {
    // Build by attaching node i to any node on the current rightmost path.
    fn rec(n: usize, cur: &mut Vec<usize>, path: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        let i = cur.len();
        let saved = path.clone();
        for k in (0..saved.len()).rev() {
            cur.push(saved[k]);
            path.truncate(k + 1);
            path.push(i);
            rec(n, cur, path, out);
            cur.pop();
            path.clear();
            path.extend_from_slice(&saved);
        }
    }
    let mut out = Vec::new();
    if n == 0 {
        return out;
    }
    rec(n, &mut vec![0], &mut vec![0], &mut out);
    out
}

/// All words of length `len` over `0..k`.
pub fn words(len: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..len {
        let mut next = Vec::with_capacity(out.len() * k);
        for w in &out {
            for c in 0..k {
                let mut v: Vec<usize> = w.clone();
                v.push(c);
                next.push(v);
            }
        }
        out = next;
    }
    out
}

/// All permutations of `0..n` in lexicographic order.
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    fn rec(n: usize, cur: &mut Vec<usize>, used: &mut Vec<bool>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in 0..n {
            if !used[i] {
                used[i] = true;
                cur.push(i);
                rec(n, cur, used, out);
                cur.pop();
                used[i] = false;
            }
        }
    }
    let mut out = Vec::new();
    rec(n, &mut vec![], &mut vec![false; n], &mut out);
    out
}

/// Arrangements: all sequences of distinct elements drawn from `0..n`, lengths `0..=n`.
pub fn arrangements(n: usize, max_len: usize) -> Vec<Vec<usize>> {
    fn rec(n: usize, max: usize, cur: &mut Vec<usize>, used: &mut Vec<bool>, out: &mut Vec<Vec<usize>>) {
        out.push(cur.clone());
        if cur.len() == max {
            return;
        }
        for i in 0..n {
            if !used[i] {
                used[i] = true;
                cur.push(i);
                rec(n, max, cur, used, out);
                cur.pop();
                used[i] = false;
            }
        }
    }
    let mut out = Vec::new();
    rec(n, max_len, &mut vec![], &mut vec![false; n], &mut out);
    out.sort_by_key(|v| v.len());
    out
}
