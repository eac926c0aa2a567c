//! The monitors, grouped by property.
pub mod cli;
pub mod col;
pub mod ctx;
pub mod data;
pub mod det;
pub mod err;
pub mod from;
pub mod labels;
pub mod lnk;
pub mod load;
pub mod mem;
pub mod meta;
pub mod pol;
pub mod safe;
pub mod stage;
pub mod syn;
pub mod util;
pub mod warn;

use crate::run::Mon;
use crate::run::Prop;

pub fn props() -> Vec<Prop> {
	vec![stage::c01(), ctx::c02(), err::c03(), meta::c04(), stage::c06(), labels::c07(), stage::c08(), stage::c05(), from::c09(), data::c10(), data::c12(), load::c13(), syn::c15(), det::c11(), lnk::c23(), col::c21(), safe::c16(), pol::c20(), cli::c19(), warn::c22(), mem::c14()]
}

/// Monitors that only reproduce known findings.
pub fn probes() -> Vec<Mon> {
	vec![Mon { name: "reverse-map", gen: |_| crate::json::J::Null, judge: stage::probe_reverse_map, fixed: crate::run::none, quick: 0, threads: 1 }]
}
