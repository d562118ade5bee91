//! Shared parts of the conformance harness: random source, JSON, lattice embeddings and the guard
//! that turns panics, runaway loops and runaway allocation of the code under test into data.

pub mod api;
pub mod embed;
pub mod guard;
pub mod json;

pub use embed::{Emb, Lat, OFF};
pub use guard::{call, start, Sink};
pub use json::J;

/// SplitMix64.
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64, stream: &str) -> Self {
        let mut h = seed ^ 0xcbf2_9ce4_8422_2325;
        for b in stream.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
        }
        let mut r = Rng(h);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in `0..n`.
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    /// Uniform in `lo..=hi`.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % (hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

/// Command line: `<bin> <mode> key=value ...`.
pub struct Args {
    pub mode: String,
    map: std::collections::HashMap<String, String>,
}

impl Args {
    pub fn parse() -> Self {
        let mut it = std::env::args().skip(1);
        let mode = it.next().unwrap_or_default();
        let map = it
            .filter_map(|a| a.split_once('=').map(|(k, v)| (k.to_string(), v.to_string())))
            .collect();
        let a = Args { mode, map };
        api::switch(a.num("pre", 0) == 1);
        a
    }
    pub fn get(&self, k: &str) -> &str {
        self.map.get(k).map(|s| s.as_str()).unwrap_or("")
    }
    pub fn num(&self, k: &str, default: u64) -> u64 {
        self.map.get(k).and_then(|v| v.parse().ok()).unwrap_or(default)
    }
    pub fn seed(&self) -> u64 {
        self.num("seed", 1)
    }
    pub fn thorough(&self) -> bool {
        self.get("tier") == "thorough"
    }
}

/// Formats a list of displayable things as a JSON array.
pub fn arr<T: std::fmt::Display>(v: impl IntoIterator<Item = T>) -> String {
    let mut s = String::from("[");
    for (i, x) in v.into_iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&x.to_string());
    }
    s.push(']');
    s
}

pub fn arr2(v: &[Vec<i64>]) -> String {
    arr(v.iter().map(|p| arr(p.iter())))
}

/// How often each of n points is repeated: mostly once, else so often that the cloud has
/// hundreds or tens of thousands of points.
pub fn some_reps(r: &mut Rng, n: usize, heavy: bool) -> Vec<i64> {
    let mut v = vec![1; n];
    if heavy && n > 0 {
        let total = *r.pick(&[130, 257, 300, 600, 1030, 4100, 33_000, 66_000, 70_000]);
        match r.below(3) {
            0 => v.iter_mut().for_each(|x| *x = total / n as i64 + 1),
            1 => v[r.below(n)] = total,
            _ => {
                let (i, j) = (r.below(n), r.below(n));
                v[i] += total / 2;
                v[j] += total / 2;
            }
        }
    }
    v
}
pub fn expand<P: Clone>(v: &[P], reps: &[i64]) -> Vec<P> {
    v.iter().zip(reps).flat_map(|(p, k)| std::iter::repeat(p.clone()).take(*k as usize)).collect()
}
