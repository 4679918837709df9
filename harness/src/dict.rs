//! Numbers and words found in the source of the library under test, so that workloads go near the places where its
//! behaviour may change.
use crate::rng::Rng;
use std::sync::OnceLock;

struct Dict {
    numbers: Vec<usize>,
    words: Vec<Vec<u8>>,
}
static DICT: OnceLock<Dict> = OnceLock::new();

/// One entry per line: `n 123` or `w 68656c6c6f` (hexadecimal).
pub fn load(path: &str) {
    let mut d = Dict { numbers: vec![], words: vec![] };
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(n) = l.strip_prefix("n ") {
            if let Ok(n) = n.parse() {
                d.numbers.push(n);
            }
        } else if let Some(w) = l.strip_prefix("w ") {
            d.words.push((0..w.len() / 2).filter_map(|i| u8::from_str_radix(&w[2 * i..2 * i + 2], 16).ok()).collect());
        }
    }
    let _ = DICT.set(d);
}

/// A number near one of the source, at most `max`.
pub fn number(r: &mut Rng, max: usize) -> usize {
    if let Some(d) = DICT.get() {
        if !d.numbers.is_empty() {
            for _ in 0..4 {
                let n = (*r.pick(&d.numbers) + r.below(3)).saturating_sub(1);
                if n <= max {
                    return n;
                }
            }
        }
    }
    let n = (1usize << r.range(0, 16)) + r.below(3);
    n.saturating_sub(1).min(max)
}

pub fn word<'a>(r: &mut Rng) -> &'a [u8] {
    match DICT.get() {
        Some(d) if !d.words.is_empty() => r.pick(&d.words),
        _ => b"",
    }
}

/// All the numbers of the source and their neighbours.
pub fn numbers() -> Vec<usize> {
    let mut v = Vec::new();
    if let Some(d) = DICT.get() {
        for n in d.numbers.iter().filter(|n| **n < 100_000).take(400) {
            v.extend([n.saturating_sub(1), *n, n + 1]);
        }
    }
    v
}

pub fn is_empty() -> bool {
    DICT.get().map_or(true, |d| d.words.is_empty())
}
