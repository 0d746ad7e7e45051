mod c_paths;
mod c_rules;
mod c_eq;
mod c_expr;
mod c_dates;
mod c_time;
mod c_gens;
mod c_bodies;
mod c_defs;
mod c_conv;
mod c_data;
mod c_load;
mod c_merge;
mod c_meta;
mod c_check;
mod c_edit;
mod c_pact;
mod docs;
mod os;
mod vals;
use mccore::Check;
fn main() {
  std::env::set_var("TZ", "UTC0");
  mccore::main(&[
    Check { id: "C01", run: c_pact::c01 },
    Check { id: "C02", run: c_load::c02 },
    Check { id: "C03", run: c_merge::c03 },
    Check { id: "C05", run: c_conv::c05 },
    Check { id: "C06", run: c_eq::c06 },
    Check { id: "C07", run: c_bodies::c07 },
    Check { id: "C08", run: c_bodies::c08 },
    Check { id: "C09", run: c_data::c09 },
    Check { id: "C10", run: c_paths::c10 },
    Check { id: "C11", run: c_paths::c11 },
    Check { id: "C12", run: c_rules::c12 },
    Check { id: "C13", run: c_rules::c13 },
    Check { id: "C14", run: c_defs::c14 },
    Check { id: "C15", run: c_rules::c15 },
    Check { id: "C16", run: c_gens::c16 },
    Check { id: "C17", run: c_gens::c17 },
    Check { id: "C18", run: c_dates::c18 },
    Check { id: "C19", run: c_time::c19 },
    Check { id: "C20", run: c_data::c20 },
    Check { id: "C21", run: c_expr::c21 },
    Check { id: "C22", run: c_meta::c22 },
    Check { id: "C23", run: c_check::c23 },
    Check { id: "C27", run: c_edit::c27 },
    Check { id: "C24", run: c_data::c24 },
    Check { id: "C25", run: c_data::c25 },
  ])
}
