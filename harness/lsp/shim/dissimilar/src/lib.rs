//! Stand-in for dissimilar: a shortest diff by characters, or, so as not to depend on which one, by words or lines.
use std::cell::Cell;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Chunk<'a> {
    Equal(&'a str),
    Delete(&'a str),
    Insert(&'a str),
}

thread_local! {
    /// 0: by characters, 1: by words, 2: by lines, 3: everything
    pub static GRAIN: Cell<u8> = const { Cell::new(0) };
}

fn pieces(s: &str, grain: u8) -> Vec<&str> {
    let mut out = vec![];
    let mut start = 0;
    let mut last: Option<char> = None;
    for (i, c) in s.char_indices() {
        let split = match (grain, last) {
            (_, None) => false,
            (0, _) => true,
            (1, Some(l)) => !(c.is_alphanumeric() && l.is_alphanumeric()),
            (2, Some(l)) => l == '\n',
            _ => false,
        };
        if split {
            out.push(&s[start..i]);
            start = i;
        }
        last = Some(c);
    }
    if start < s.len() {
        out.push(&s[start..]);
    }
    out
}

pub fn diff<'a>(a: &'a str, b: &'a str) -> Vec<Chunk<'a>> {
    if a == b {
        return if a.is_empty() { vec![] } else { vec![Chunk::Equal(a)] };
    }
    let grain = GRAIN.get();
    let (xs, ys) = (pieces(a, grain), pieces(b, grain));
    let pre = xs.iter().zip(&ys).take_while(|(x, y)| x == y).count();
    let post = xs[pre..].iter().rev().zip(ys[pre..].iter().rev()).take_while(|(x, y)| x == y).count();
    let (n, m) = (xs.len() - pre - post, ys.len() - pre - post);
    // longest common subsequence of what is between
    let mut lcs = vec![vec![0u32; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            lcs[i][j] = if xs[pre + i] == ys[pre + j] { lcs[i + 1][j + 1] + 1 } else { lcs[i + 1][j].max(lcs[i][j + 1]) };
        }
    }
    // kinds: 0 equal, 1 delete, 2 insert
    let mut ops: Vec<(u8, usize)> = vec![(0, pre)];
    let (mut i, mut j, mut del, mut ins) = (0, 0, 0, 0);
    while i < n || j < m {
        if i < n && j < m && xs[pre + i] == ys[pre + j] {
            ops.extend([(1, del), (2, ins), (0, 1)]);
            (del, ins) = (0, 0);
            i += 1;
            j += 1;
        } else if j == m || (i < n && lcs[i + 1][j] >= lcs[i][j + 1]) {
            del += 1;
            i += 1;
        } else {
            ins += 1;
            j += 1;
        }
    }
    ops.extend([(1, del), (2, ins), (0, post)]);
    let mut merged: Vec<(u8, usize)> = vec![];
    for (k, n) in ops {
        match merged.last_mut() {
            _ if n == 0 => {}
            Some(last) if last.0 == k => last.1 += n,
            _ => merged.push((k, n)),
        }
    }
    // An equality that is no longer than the changes on both of its sides is none worth keeping.
    if grain == 0 {
        let changes = |m: &[(u8, usize)]| m.iter().map(|it| it.1).max().unwrap_or(0);
        let mut i = 1;
        while i + 1 < merged.len() {
            let from = merged[..i].iter().rposition(|it| it.0 == 0).map_or(0, |at| at + 1);
            let to = merged[i + 1..].iter().position(|it| it.0 == 0).map_or(merged.len(), |at| at + i + 1);
            let n = merged[i].1;
            if merged[i].0 == 0 && from < i && i + 1 < to && n <= changes(&merged[from..i]) && n <= changes(&merged[i + 1..to]) {
                let sum = |k: u8| merged[from..to].iter().filter(|it| it.0 == 0 || it.0 == k).map(|it| it.1).sum();
                let new: Vec<(u8, usize)> = [(1, sum(1)), (2, sum(2))].into_iter().filter(|it| it.1 > 0).collect();
                merged.splice(from..to, new);
                i = 1;
            } else {
                i += 1;
            }
        }
    }
    let (mut out, mut x, mut y, mut px, mut py) = (vec![], 0, 0, 0, 0);
    for (k, n) in merged {
        let lx: usize = if k == 2 { 0 } else { xs[px..px + n].iter().map(|s| s.len()).sum() };
        let ly: usize = if k == 1 { 0 } else { ys[py..py + n].iter().map(|s| s.len()).sum() };
        out.push(match k {
            0 => Chunk::Equal(&a[x..x + lx]),
            1 => Chunk::Delete(&a[x..x + lx]),
            _ => Chunk::Insert(&b[y..y + ly]),
        });
        x += lx;
        y += ly;
        px += if k == 2 { 0 } else { n };
        py += if k == 1 { 0 } else { n };
    }
    out
}
