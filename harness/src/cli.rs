//! Command line shared by the two explorers.
use crate::engine::{self, Prop, Tier};

pub fn main(props: Vec<Prop>) {
    engine::install_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let find = |id: &str| {
        props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {:?}", id);
            std::process::exit(2)
        })
    };
    let tier = |t: &str| if t == "thorough" { Tier::Thorough } else { Tier::Quick };
    let code = match arg(0) {
        "list" => {
            props.iter().for_each(|p| println!("{}", p.id));
            0
        }
        "check" => engine::supervise(find(arg(1)), tier(arg(2))),
        "run" => engine::child_main(find(arg(1)), tier(arg(2)), arg(3)),
        "spaces" => {
            (find(arg(1)).spaces)(tier(arg(2))).iter().for_each(|s| println!("{}", s.name));
            0
        }
        "case" => engine::case_main(find(arg(1)), tier(arg(2)), arg(3), arg(4).parse().unwrap_or(u64::MAX)),
        "list-violations" => engine::list_main(find(arg(1)), tier(arg(2)), arg(3)),
        "dict" => {
            println!("{:?}\n{:?}", crate::dict::dict().nums, crate::dict::dict().words);
            0
        }
        "worker" => crate::hist::worker(),
        _ => {
            eprintln!("usage: mc list | check ID [quick|thorough] | case ID TIER SPACE INDEX");
            2
        }
    };
    std::process::exit(code)
}
