mod net;
mod c_broker;
mod c_verify;
mod c_states;
mod c_publish;
mod c_http;
mod c_handle;
use mccore::Check;
fn main() {
  std::env::set_var("TZ", "UTC0");
  mccore::main(&[
    Check { id: "C50", run: c_verify::c50 },
    Check { id: "C51", run: c_states::c51 },
    Check { id: "C52", run: c_broker::c52 },
    Check { id: "C53", run: c_http::c53 },
    Check { id: "C67", run: c_handle::c67 },
    Check { id: "C54", run: c_publish::c54 },
  ]);
}
