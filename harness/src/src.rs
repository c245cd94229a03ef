//! The choice tape: every random decision of a generator is one `u64` drawn
//! here.  In generation mode the words come from a seeded SplitMix64 stream and
//! are recorded; in replay mode they come from a recorded (possibly shrunk)
//! tape, and a tape that runs out yields zeros.  Shrinking works on the tape, so
//! it needs no per-type shrinkers and never leaves the generator's domain.
#![allow(dead_code)]
use std::collections::BTreeSet;
use std::sync::OnceLock;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// Numbers worth trying: the integer literals of the program's own source (its unit tests left
/// out), one off, and as exponents, besides the usual widths.  It only widens what is generated.
pub fn dictionary() -> &'static [u64] {
    static D: OnceLock<Vec<u64>> = OnceLock::new();
    D.get_or_init(|| {
        let mut s: BTreeSet<u64> = BTreeSet::new();
        let mut near = |v: u64| { for x in [v.wrapping_sub(1), v, v.wrapping_add(1)] { if x > 2 { s.insert(x); } } };
        for k in [16, 31, 32, 48, 53, 63] { near(1 << k); }
        for k in [3, 6, 9, 10, 12, 18] { near(10u64.pow(k)); }
        let repo = format!("{}/src", include_str!("../Cargo.toml").split("path = \"").nth(1).and_then(|s| s.split('"').next()).unwrap_or(""));
        let mut files = vec![];
        walk(std::path::Path::new(&repo), &mut files);
        files.sort();
        for f in files {
            let t = match std::fs::read_to_string(&f) { Ok(t) => t, Err(_) => continue };
            let t = t.split("mod tests {").next().unwrap_or("");
            for v in literals(t) {
                near(v);
                if v < 64 { near(1 << v); }
                if v < 20 { near(10u64.pow(v as u32)); }
            }
        }
        s.into_iter().collect()
    })
}
fn walk(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(r) = std::fs::read_dir(d) {
        for e in r.flatten() {
            let p = e.path();
            if p.is_dir() { walk(&p, out) } else if p.extension().map_or(false, |x| x == "rs") { out.push(p) }
        }
    }
}
fn literals(t: &str) -> Vec<u64> {
    let mut v = vec![];
    for line in t.lines() {
        let line = line.split("//").next().unwrap_or("");
        for tok in line.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')) {
            if !tok.starts_with(|c: char| c.is_ascii_digit()) { continue; }
            let tok: String = tok.chars().filter(|c| *c != '_').collect();
            let (radix, body) = match tok.get(..2) { Some("0x") => (16, &tok[2..]), Some("0b") => (2, &tok[2..]), Some("0o") => (8, &tok[2..]), _ => (10, &tok[..]) };
            // a type suffix ends the number
            let body = body.split(|c| c == 'u' || c == 'i').next().unwrap_or("");
            if let Ok(x) = u64::from_str_radix(body, radix) { v.push(x); }
        }
    }
    v
}

pub struct Src {
    tape: Vec<u64>,
    pos: usize,
    rng: Option<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { tape: Vec::with_capacity(64), pos: 0, rng: Some(seed) }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { tape, pos: 0, rng: None }
    }
    pub fn into_tape(mut self) -> Vec<u64> {
        self.tape.truncate(self.pos);
        self.tape
    }
    /// one raw word
    pub fn word(&mut self) -> u64 {
        let w = match self.rng {
            Some(ref mut s) => {
                *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
                let w = mix(*s);
                self.tape.push(w);
                w
            }
            None => self.tape.get(self.pos).copied().unwrap_or(0),
        };
        self.pos += 1;
        if self.rng.is_none() && self.pos > self.tape.len() {
            self.tape.push(0);
        }
        w
    }
    /// a value from the dictionary; the tape records the value itself, so a replay does not
    /// depend on the dictionary
    pub fn landmark(&mut self) -> u64 {
        if self.rng.is_none() { return self.word(); }
        let w = self.word();
        let d = dictionary();
        let mut v = d[(w % d.len() as u64) as usize];
        let x = mix(w);
        // now and then a multiple of it, or a multiple and a smaller one
        if x % 4 == 0 && v < 1 << 32 {
            let k = (x >> 8) % (1 << (1 + (x >> 2) % 31));
            let r = match (x >> 40) % 4 { 0 | 1 => 0, 2 => d[((x >> 42) % d.len() as u64) as usize] % v, _ => v - 1 };
            v = v * k + r;
        }
        *self.tape.last_mut().unwrap() = v;
        v
    }
    /// uniform in 0..n (n >= 1)
    pub fn below(&mut self, n: u64) -> u64 {
        let w = self.word();
        if n == 0 { 0 } else { w % n }
    }
    pub fn below128(&mut self, n: u128) -> u128 {
        let w = ((self.word() as u128) << 64) | self.word() as u128;
        if n == 0 { 0 } else { w % n }
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if lo >= hi { self.word(); return lo; }
        let span = hi - lo;
        if span == u64::MAX { return self.word(); }
        lo + self.below(span + 1)
    }
    pub fn usize(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.usize(xs.len())] }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) >= den - num }
    /// index into weights; shrinks to 0
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let t: u64 = w.iter().sum();
        let mut x = self.below(t);
        for (i, k) in w.iter().enumerate() {
            if x < *k { return i; }
            x -= *k;
        }
        w.len() - 1
    }
    /// log-uniform with at most `bits` bits (0 possible)
    pub fn log(&mut self, bits: u32) -> u64 {
        if self.below(40) == 39 { let v = self.landmark(); if bits >= 64 || v >> bits == 0 { return v; } }
        let k = self.below(bits as u64 + 1) as u32;
        let w = self.word();
        if k == 0 { 0 } else { (w & (u64::MAX >> (64 - k))) | (1u64 << (k - 1)) }
    }
    /// log-uniform in 1..=max
    pub fn log_to(&mut self, max: u64) -> u64 {
        if max <= 1 { self.word(); self.word(); return max.max(1); }
        let bits = 64 - max.leading_zeros();
        let x = self.log(bits).max(1);
        if x > max { 1 + x % max } else { x }
    }
    /// any u64, weighted towards edges
    pub fn any64(&mut self) -> u64 {
        match self.weighted(&[3, 6, 2, 2, 2, 1]) {
            5 => self.landmark(),
            0 => self.below(20),
            1 => self.log(64),
            2 => { let k = self.below(64); let d = self.below(5); (1u64 << k).wrapping_add(d).wrapping_sub(2) }
            3 => u64::MAX - self.below(20),
            _ => self.word(),
        }
    }
    pub fn bytes32(&mut self) -> [u8; 32] {
        let mut o = [0u8; 32];
        for i in 0..4 { o[i * 8..i * 8 + 8].copy_from_slice(&self.word().to_le_bytes()); }
        o
    }
}
