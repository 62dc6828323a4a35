// Executable form of C23, collection side: the real pattern matcher and both real discoverers against the documented meaning.
use crate::common::*;
use super::*;
use std::path::Path;
use crate::python_discovery::pattern;

// shell-style matching; a text with an unclosed '[' is no pattern and is taken apart at a leading and trailing star
fn wild(p: &[char], n: &[char]) -> bool {
    match p.first() { None => n.is_empty(), Some('*') => (0..=n.len()).any(|k| wild(&p[1..], &n[k..])), Some('?') => !n.is_empty() && wild(&p[1..], &n[1..]), Some(c) => n.first() == Some(c) && wild(&p[1..], &n[1..]) }
}
fn selects(p: &str, n: &str) -> bool {
    let (pc, nc): (Vec<char>, Vec<char>) = (p.chars().collect(), n.chars().collect());
    if !pc.contains(&'[') { return wild(&pc, &nc); }
    let (f, l) = (pc.first() == Some(&'*'), pc.last() == Some(&'*'));
    if f && l { let m: String = pc[1..pc.len() - 1].iter().collect(); n.contains(&m) } else if f { nc.ends_with(&pc[1..]) } else if l { nc.starts_with(&pc[..pc.len() - 1]) } else { pc == nc }
}
fn single(p: String) -> String { let mut p = p; while p.contains("**") { p = p.replace("**", "*"); } p }
fn word(g: &mut Rng, al: &[char], max: usize) -> String { (0..g.below(max + 1)).map(|_| *g.pick(al)).collect() }
pub fn probe(prop: &str, seed: u64, thorough: bool) -> Report {
    let mut g = Rng::new(seed);
    let n = if thorough { 400_000 } else { 40_000 };
    let mut r = Report::new(prop, n as u64);
    let al = ['a', 'b', '*', '_', 'T', 'é', '?', '['];
    for _ in 0..n {
        let mut p = word(&mut g, &al, 5);
        match g.below(4) { 0 => p.push('*'), 1 => p.insert(0, '*'), 2 => { p.insert(0, '*'); p.push('*'); } _ => {} }
        let p = single(p);
        let name = match g.below(4) { 0 => word(&mut g, &al, 7), 1 => p.clone(), 2 => format!("{}{}", p.trim_end_matches('*'), word(&mut g, &al, 3)), _ => format!("{}{}", word(&mut g, &al, 3), p.strip_prefix('*').unwrap_or(&p)) };
        let input = format!("pattern {:?}, name {:?}", p, name);
        r.case(&input, !p.is_empty() && !name.is_empty());
        let got = pattern::matches(&p, &name);
        if got != selects(&p, &name) { r.fail("match", input, format!("matches() says {}", got)); }
    }
    // both discoverers, with lists of patterns
    let id = ['a', 'b', '_', 'T', 't'];
    for round in 0..if thorough { 150 } else { 12 } {
        let pats = |g: &mut Rng| -> Vec<String> { (0..1 + g.below(3)).map(|_| { let mut p = word(g, &id, 3); match g.below(4) { 0 => p.push('*'), 1 => p.insert(0, '*'), 2 => { p.insert(0, '*'); p.push('*'); } _ => {} } single(p) }).collect() };
        let (pf, pc) = (pats(&mut g), pats(&mut g));
        let mut names: Vec<String> = vec![];
        for p in pf.iter().chain(pc.iter()) { for _ in 0..4 { let mut w = match g.below(4) { 0 => p.replace('*', ""), 1 => format!("{}{}", p.replace('*', ""), word(&mut g, &id, 2)), 2 => format!("{}{}", word(&mut g, &id, 2), p.replace('*', "")), _ => word(&mut g, &id, 4) }; if w.is_empty() { w.push('x'); } if !names.contains(&w) && w != "__init__" && !["as", "is"].contains(&w.as_str()) { names.push(w); } } }
        let (fs, cs) = names.split_at(names.len() / 2);
        let mut src = String::new();
        for f in fs { src += &format!("def {}(): pass\n", f); }
        for c in cs { src += &format!("class {}:\n{}", c, fs.iter().map(|f| format!("    def {}(self): pass\n", f)).collect::<String>()); }
        if fs.is_empty() || cs.is_empty() { continue; }
        let cfg = TestDiscoveryConfig { python_functions: pf.clone(), python_classes: pc.clone(), ..TestDiscoveryConfig::default() };
        let mut want: Vec<String> = fs.iter().filter(|f| pf.iter().any(|p| selects(p, f))).cloned().collect();
        for c in cs.iter().filter(|c| pc.iter().any(|p| selects(p, c))) { for f in fs.iter().filter(|f| pf.iter().any(|p| selects(p, f))) { want.push(format!("{}::{}", c, f)); } }
        want.sort();
        let input = format!("functions {:?}, classes {:?}, names {:?} / {:?}", pf, pc, fs, cs);
        r.case(&input, true);
        let full = |ts: Vec<TestInfo>| { let mut v: Vec<String> = ts.into_iter().map(|t| match t.class_name { Some(c) => format!("{}::{}", c, t.name), None => t.name }).collect(); v.sort(); v };
        let a = discover_tests(Path::new("test_x.py"), &src, &cfg).map(full).map_err(|e| e.to_string());
        let b = discover_tests_with_inheritance(Path::new("/nonexistent/test_x.py"), &src, &cfg, Path::new("/nonexistent")).map(|x| full(x.0)).map_err(|e| e.to_string());
        for (which, got) in [("module discovery", a), ("discovery with inheritance", b)] {
            if got.as_ref().ok() != Some(&want) { r.fail("select", input.clone(), format!("{}: {:?}, the patterns select {:?} (round {})", which, got, want, round)); }
        }
    }
    r
}
