mod jmodel;
mod m_json;
mod m_text;
mod m_body;
mod m_msg;
mod m_http;
mod m_values;
mod m_xml;
mod m_gen;
mod m_xpath;
mod m_engine;
mod m_order;
#[path = "../../mc/src/os.rs"]
#[allow(dead_code)]
mod os;
use mccore::Check;
fn main() {
  std::env::set_var("TZ", "UTC0");
  mccore::main(&[
    Check { id: "C30", run: m_json::c30 },
    Check { id: "C35", run: m_values::c35 },
    Check { id: "C33", run: m_text::c33 },
    Check { id: "C36", run: m_body::c36 },
    Check { id: "C34", run: m_msg::c34 },
    Check { id: "C31", run: m_http::c31 },
    Check { id: "C32", run: m_http::c32 },
    Check { id: "C37", run: m_xml::c37 },
    Check { id: "C38", run: m_gen::c38 },
    Check { id: "C26", run: m_xpath::c26 },
    Check { id: "C39", run: m_order::c39 },
    Check { id: "C40", run: m_engine::c40 },
  ]);
}
