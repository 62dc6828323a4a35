// Executable form of the contracts of src/scheduler.rs, run against the real code (public entry points only).
use crate::common::*;
use super::{create_scheduler, DistributionMode};
use std::collections::{BTreeSet, HashMap};

const MODES: [&str; 5] = ["load", "loadscope", "loadfile", "worksteal", "no"];
fn mode(s: &str) -> DistributionMode {
    match s { "load" => DistributionMode::Load, "loadscope" => DistributionMode::LoadScope, "loadfile" => DistributionMode::LoadFile,
        "worksteal" => DistributionMode::WorkSteal, _ => DistributionMode::No }
}
fn file_of(s: &str) -> String { match s.find("::") { None => s.into(), Some(i) => s[..i].into() } }
fn scope_of(s: &str) -> String {
    let Some(i) = s.find("::") else { return s.into() };
    let r = &s[i + 2..]; let n = match r.find('[') { None => r, Some(j) => &r[..j] };
    match n.find("::") { None => s[..i].into(), Some(j) => format!("{}::{}", &s[..i], &n[..j]) }
}
fn counts<'a>(v: impl Iterator<Item = &'a String>) -> HashMap<&'a String, usize> { let mut m = HashMap::new(); for x in v { *m.entry(x).or_insert(0) += 1; } m }
fn run(m: &str, tests: &[String], n: usize) -> Result<Vec<Vec<String>>, String> {
    let t = tests.to_vec(); let mm = mode(m);
    std::panic::catch_unwind(move || create_scheduler(mm).distribute_tests(t, n)).map_err(|_| "panicked".to_string())
}
fn one(r: &mut Report, m: &str, tests: &[String], n: usize) {
    let input = format!("mode={} workers={} tests={}", m, n, qs(tests));
    r.case(&input, tests.len() >= 2 && n >= 2);
    let b = match run(m, tests, n) { Ok(b) => b, Err(e) => { r.fail("panic", input, e); return } };
    let show = || format!("batches={}", qss(&b));
    let p = r.prop.clone();
    if p == "C01" {
        if counts(b.iter().flatten()) != counts(tests.iter()) { r.fail("partition", input.clone(), format!("tests lost, repeated or invented: {}", show())); }
        if b.iter().any(|x| x.is_empty()) { r.fail("nonempty", input.clone(), format!("empty batch: {}", show())); }
        if b.len() > n { r.fail("limit", input.clone(), format!("more batches than workers: {}", show())); }
        for x in &b {
            // tests of one scope keep their relative order (checked where ids are distinct)
            let pos: HashMap<&String, usize> = tests.iter().enumerate().map(|(i, t)| (t, i)).collect();
            if pos.len() == tests.len() {
                let mut last: HashMap<String, usize> = HashMap::new();
                for t in x { if let Some(&i) = pos.get(t) { let k = scope_of(t); if let Some(&l) = last.get(&k) { if l > i { r.fail("order", input.clone(), format!("order changed inside a scope: {}", show())); } } last.insert(k, i); } }
            }
        }
    }
    if p == "C02" {
        let key: Option<fn(&str) -> String> = match m { "loadscope" => Some(scope_of), "loadfile" => Some(file_of), _ => None };
        if let Some(k) = key {
            let mut w: HashMap<String, usize> = HashMap::new();
            for (i, x) in b.iter().enumerate() { for t in x { let kk = k(t); if let Some(&j) = w.get(&kk) { if j != i { r.fail("split", input.clone(), format!("{} is split over workers: {}", kk, show())); } } w.insert(kk, i); } }
        }
        if m == "no" && b.len() > 1 { r.fail("no", input.clone(), format!("more than one worker in mode no: {}", show())); }
    }
    if p == "C03" {
        let want = match m { "loadscope" => tests.iter().map(|t| scope_of(t)).collect::<BTreeSet<_>>().len(), "loadfile" => tests.iter().map(|t| file_of(t)).collect::<BTreeSet<_>>().len(), _ => tests.len() };
        if m != "no" && b.len() != want.min(n) { r.fail("count", input.clone(), format!("{} workers used, {} expected: {}", b.len(), want.min(n), show())); }
        if m == "load" || m == "worksteal" {
            let mx = b.iter().map(|x| x.len()).max().unwrap_or(0); let mn = b.iter().map(|x| x.len()).min().unwrap_or(0);
            if mx - mn > 1 { r.fail("balance", input.clone(), format!("uneven batches: {}", show())); }
        }
        if let Ok(b2) = run(m, tests, n) { if b2 != b { r.fail("repeat", input.clone(), format!("second distribution differs: {} then {}", show(), qss(&b2))); } }
    }
}
pub fn probe(prop: &str, seed: u64, thorough: bool) -> Report {
    std::panic::set_hook(Box::new(|_| {}));
    let mut r = Report::new(prop, 0);
    let names = ["a.py::t1", "a.py::t2", "a.py::A::m1", "a.py::A::m2", "a.py::B::m1", "b.py::t1", "b.py::A::m1", "a.py::t1[x::y]", "a.py::t1[q]", "a.py::A::m1[x::y]", "a.py::t2[a[b::c]", "a.py", "b.py::", "", "::", "c:d.py::x", "a.py::B::C::m", "a.py::A::m 1", "é.py::t", "a.py:::x", "a.py::A[x]::m"];
    let s = |i: usize| names[i].to_string();
    for m in MODES {
        // every count/remainder combination for distinct tests
        let top = if thorough { 64 } else { 34 };
        for len in 0..top { let t: Vec<String> = (0..len).map(|i| format!("f{}.py::t{}", i % 5, i)).collect(); for n in 1..(if thorough { 24 } else { 14 }) { one(&mut r, m, &t, n); } }
        // every list of up to 3 ids of the pool
        for n in 1..4 { for i in 0..names.len() { one(&mut r, m, &[s(i)], n); for j in 0..names.len() { one(&mut r, m, &[s(i), s(j)], n); } } }
        for i in 0..names.len() { for j in 0..names.len() { for k in 0..names.len() { one(&mut r, m, &[s(i), s(j), s(k)], 2); } } }
        // many tests of one group, wide worker counts
        for len in [50usize, 100, 257, 1000] { for n in [1usize, 2, 3, 7, 8, 16, 63, 64, 65, 100, 256, 1001] {
            let t: Vec<String> = (0..len).map(|i| format!("d/f{}.py::C{}::t{}", i / 10, i % 3, i)).collect(); one(&mut r, m, &t, n);
            let u: Vec<String> = (0..len).map(|_| "same.py::t".to_string()).collect(); one(&mut r, m, &u, n); } }
    }
    let mut g = Rng::new(seed);
    let total = if thorough { 400_000 } else { 40_000 };
    for _ in 0..total {
        let m = *g.pick(&MODES); let n = 1 + g.below(9); let top = if g.below(4) == 0 { 40 } else { 9 }; let len = g.below(top);
        let mut t: Vec<String> = Vec::new();
        for _ in 0..len {
            let f = ["a.py", "b.py", "d/a.py", "a", "x y.py", "[.py", "z.py"][g.below(7)];
            let c = ["", "A::", "B::", "A::N::", "Ab::"][g.below(5)];
            let p = ["", "", "[1]", "[a::b]", "[a-b]", "[::]", "[x[y::z]]", "[é]"][g.below(8)];
            let tn = g.below(6); t.push(format!("{}::{}t{}{}", f, c, tn, p));
        }
        one(&mut r, m, &t, n);
    }
    r
}
