mod cond;
mod engine;
mod hist;
mod host;
mod plan;
mod pool;
mod remote;
mod rng;
mod rt;
mod util;

use std::collections::HashMap;

fn main() {
  let mut args = std::env::args().skip(1);
  let suite = args.next().expect("suite");
  match suite.as_str() {
    "child" => return host::child(&args.next().unwrap()),
    "docker" => return host::docker(args.collect()),
    _ => {}
  }
  let mut opts: HashMap<String, String> = HashMap::new();
  while let Some(k) = args.next() {
    opts.insert(k.trim_start_matches("--").to_string(), args.next().expect("value"));
  }
  std::panic::set_hook(Box::new(|_| {}));
  match suite.as_str() {
    "engine" => pool::engine(&opts),
    "schedules" => pool::schedules(&opts),
    "cond" => cond::cond(&opts),
    "host" => host::host(&opts),
    "remote" => remote::remote(&opts),
    "plan" => plan::plan(&opts),
    "hist" => pool::hist(&opts),
    _ => {
      eprintln!("unknown suite {}", suite);
      std::process::exit(2);
    }
  }
}
