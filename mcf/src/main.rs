mod c_file;
mod ctl;
mod sys;
fn main() {
  let args: Vec<String> = std::env::args().collect();
  if args.len() == 4 && args[1] == "--scenario" { return c_file::single(args[2] == "thorough", args[3].parse().expect("a number")); }
  mccore::main(&[mccore::Check { id: "C04", run: c_file::c04 }])
}
