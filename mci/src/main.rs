mod ffi;
mod alloc;
mod c_model;
mod c_set;
mod c_tools;
#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;
mod c_build;
mod c_json;
mod c_pacts;
mod c_dsl;
use mccore::Check;
fn main() {
  std::env::set_var("TZ", "UTC0");
  mccore::main(&[
    Check { id: "C61", run: c_build::c61 },
    Check { id: "C63", run: c_model::c63 },
    Check { id: "C65", run: c_tools::c65 },
    Check { id: "C64", run: c_set::c64 },
    Check { id: "C66", run: c_pacts::c66 },
    Check { id: "C68", run: c_dsl::c68 },
    Check { id: "C69", run: c_dsl::c69 },
    Check { id: "C62", run: c_json::c62 },
  ]);
}
