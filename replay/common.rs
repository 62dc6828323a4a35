// Shared by the probe modules: deterministic generator, JSON output.
#[allow(dead_code)]
pub struct Rng(pub u64);
#[allow(dead_code)]
impl Rng {
    pub fn new(seed: u64) -> Self { let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03); for _ in 0..8 { r.next(); } r }
    pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() >> 11) as usize % n } }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
}
#[allow(dead_code)]
pub fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"'); o
}
#[allow(dead_code)]
pub fn qs(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| q(s)).collect::<Vec<_>>().join(",")) }
#[allow(dead_code)]
pub fn qss(v: &[Vec<String>]) -> String { format!("[{}]", v.iter().map(|s| qs(s)).collect::<Vec<_>>().join(",")) }
/// What one probe run did.
#[allow(dead_code)]
pub struct Report { pub prop: String, pub evals: u64, pub distinct: std::collections::HashSet<u64>, pub samples: Vec<String>, pub fails: Vec<(String, String, String)>, pub budget: u64 }
#[allow(dead_code)]
impl Report {
    pub fn new(prop: &str, budget: u64) -> Self { Report { prop: prop.into(), evals: 0, distinct: Default::default(), samples: vec![], fails: vec![], budget } }
    /// one evaluated case; `nontrivial` cases are counted once per distinct input
    pub fn case(&mut self, input: &str, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new(); input.hash(&mut h); self.distinct.insert(h.finish());
            if self.samples.len() < 3 { self.samples.push(input.chars().take(400).collect()); }
        }
    }
    pub fn fail(&mut self, key: &str, input: String, what: String) {
        if self.fails.iter().filter(|f| f.0 == key).count() < 1 { self.fails.push((key.into(), input, what)); }
    }
    pub fn print(&self) {
        for (k, i, w) in &self.fails { println!("{{\"fail\":{},\"input\":{},\"what\":{}}}", q(k), q(i), q(w)); }
        println!("{{\"evals\":{},\"distinct\":{},\"samples\":{}}}", self.evals, self.distinct.len(), qs(&self.samples));
    }
}
