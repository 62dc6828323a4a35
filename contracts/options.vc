@unit options
@source src/cli.rs src/utils.rs src/scheduler.rs
@prelude core maps seqs
@include enum NumProcesses
@include enum Runner
@opt typemap Self::Err => ParseDistributionModeError
@include struct Args
@include enum DistributionMode
@include enum ParseDistributionModeError
@spec
broadcast use {vstd::seq_lib::group_seq_properties};
impl Disp for ParseDistributionModeError { uninterp spec fn disp(&self) -> Seq<char>;
  #[verifier::external_body] fn x_disp(&self) -> (r: String) { unimplemented!() }
  #[verifier::external_body] fn x_to_string(&self) -> (r: String) { unimplemented!() } }
pub open spec fn mode_name(m: DistributionMode) -> Seq<char> { match m { DistributionMode::Load => "load"@, DistributionMode::LoadScope => "loadscope"@, DistributionMode::LoadFile => "loadfile"@, DistributionMode::WorkSteal => "worksteal"@, DistributionMode::No => "no"@ } }
pub open spec fn is_mode(s: Seq<char>) -> bool { s == "load"@ || s == "loadscope"@ || s == "loadfile"@ || s == "worksteal"@ || s == "no"@ }
pub uninterp spec fn physical() -> usize;
pub uninterp spec fn logical() -> usize;
pub mod num_cpus { use vstd::prelude::*; use super::*;
  #[verifier::external_body] pub fn get_physical() -> (r: usize) ensures r == physical() { unimplemented!() }
  #[verifier::external_body] pub fn get() -> (r: usize) ensures r == logical() { unimplemented!() } }
pub open spec fn requested(o: Option<String>) -> Option<Option<NumProcesses>> { match o { None => Some(None), Some(s) => if s@ == "auto"@ { Some(Some(NumProcesses::Auto)) } else if s@ == "logical"@ { Some(Some(NumProcesses::Logical)) }
  else { match usize_of(s@) { Some(n) => Some(Some(NumProcesses::Count(n))), None => None } } } }
pub open spec fn desired(p: Option<NumProcesses>) -> usize { match p { None => 1usize, Some(NumProcesses::Auto) => physical(), Some(NumProcesses::Logical) => logical(), Some(NumProcesses::Count(n)) => n } }

@fn DistributionMode::from_str(s)
@ensures
  C12_accepted: r is Ok <==> is_mode(s@)
  C12_name: r is Ok ==> mode_name(r->Ok_0) == s@
@fn DistributionMode::fmt(f)
@ensures
  C12_printed: old(f).good() ==> r is Ok && final(f)@ == old(f)@ + mode_name(*self)
@fn Args::get_num_processes()
@ensures
  C12_request: match requested(self.numprocesses) { Some(p) => r == Ok::<Option<NumProcesses>, String>(p), None => r is Err }
@fn Args::validate_dist()
@ensures
  C12_dist: r is Ok <==> is_mode(self.dist@)
@fn determine_worker_count(num_processes, max_processes)
@ensures
  C12_count: r == match max_processes { Some(m) => if m < desired(num_processes) { m } else { desired(num_processes) }, None => desired(num_processes) }
