// Executable form of the contracts of src/cli.rs, src/utils.rs and DistributionMode, run against the real code.
use crate::common::*;
use clap::Parser;
fn args(a: &[&str]) -> Option<super::Args> { super::Args::try_parse_from(std::iter::once("rtest").chain(a.iter().cloned())).ok() }
fn decimal(s: &str) -> Option<usize> { if !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) { s.parse().ok() } else { None } }
fn one(r: &mut Report, g: &mut Rng) {
    let fixed = ["auto", "logical", "Auto", "AUTO", "auto ", " auto", "logical1", "autological", "", " ", "-1", "1.0", "0x4", "four", "1e3", "00", "007", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "1_000", "٣", "4 ", " 4", "--", "max", "none", "No"];
    let req: Option<String> = match g.below(5) { 0 => None, 1 | 2 => Some(g.pick(&fixed).to_string()), 3 => Some(g.below(20).to_string()), _ => Some((g.next() >> g.below(63)).to_string()) };
    let max: Option<usize> = match g.below(4) { 0 => Some(g.below(4)), 1 => Some((g.next() >> g.below(63)) as usize), _ => None };
    let input = format!("numprocesses={:?} maxprocesses={:?}", req, max);
    let mut a: Vec<String> = vec![]; if let Some(s) = &req { a.push(format!("--numprocesses={}", s)); } if let Some(m) = max { a.push(format!("--maxprocesses={}", m)); }
    let Some(args) = args(&a.iter().map(|s| s.as_str()).collect::<Vec<_>>()) else { r.case(&input, false); return };
    r.case(&input, req.is_some());
    let got = std::panic::catch_unwind(move || args.get_num_processes().map(|p| crate::utils::determine_worker_count(p, args.maxprocesses)));
    let Ok(got) = got else { r.fail("panic", input, "panicked".into()); return };
    let want: Option<usize> = match req.as_deref() { None => Some(1), Some("auto") => Some(num_cpus::get_physical()), Some("logical") => Some(num_cpus::get()), Some(s) => decimal(s) };
    let want = want.map(|w| match max { Some(m) => w.min(m), None => w });
    match (&got, want) { (Ok(a), Some(b)) if *a == b => {}, (Err(_), None) => {}, (a, b) => r.fail("count", input, format!("got {:?}, expected {}", a, match b { Some(b) => b.to_string(), None => "a rejection".into() })) }
}
fn dist(r: &mut Report, g: &mut Rng) {
    let modes = ["load", "loadscope", "loadfile", "worksteal", "no"];
    let other = ["Load", "LOAD", "load ", " load", "", "loads", "loadgroup", "each", "work-steal", "worksteal\n", "none", "n", "lo", "loadscopeloadfile", "loadfiles", "scope", "file"];
    let s = if g.below(2) == 0 { g.pick(&modes).to_string() } else if g.below(2) == 0 { g.pick(&other).to_string() } else { let m = g.pick(&modes); let i = g.below(m.len()); format!("{}{}{}", &m[..i], g.pick(&["", "x", "-", "o"]), &m[i..]) };
    let input = format!("dist={:?}", s); let ok = modes.contains(&s.as_str()); r.case(&input, true);
    match s.parse::<crate::scheduler::DistributionMode>() {
        Ok(m) => { if !ok { r.fail("mode", input.clone(), format!("accepted as {}", m)); } else if m.to_string() != s { r.fail("name", input.clone(), format!("printed as {:?}", m.to_string())); } }
        Err(_) => if ok { r.fail("mode", input.clone(), "rejected".into()); } }
    if let Some(a) = args(&[&format!("--dist={}", s)]) { if a.validate_dist().is_ok() != ok { r.fail("validate", input, format!("validate_dist says {:?}", a.validate_dist())); } }
}
pub fn probe(prop: &str, seed: u64, thorough: bool) -> Report {
    std::panic::set_hook(Box::new(|_| {}));
    let mut g = Rng::new(seed); let n = if thorough { 60000 } else { 6000 };
    let mut r = Report::new(prop, n as u64);
    if let Some(a) = args(&[]) { if a.validate_dist().is_err() { r.fail("default", "no options".into(), "the default distribution mode is rejected".into()); } }
    for _ in 0..n { one(&mut r, &mut g); dist(&mut r, &mut g); if r.fails.len() >= 5 { break; } }
    r
}
