#[macro_use]
mod pbt;
mod chainsim;
mod fslog;
mod props;
mod scratch;
mod sim;

use pbt::{Ctx, Property};

fn main() {
    let props: Vec<&'static Property> = props::all();
    let args: Vec<String> = std::env::args().collect();
    if args.len() >= 3 && args[1] == "--replay" {
        std::process::exit(pbt::replay(&props, &args[2]));
    }
    if args.len() == 6 && args[1] == "--child" {
        std::process::exit(props::stores::child(&args[2..]));
    }
    if args.len() == 2 && args[1] == "--list" {
        for p in &props {
            println!("{}", p.id);
        }
        return;
    }
    if args.len() == 6 && args[1] == "--case" {
        std::process::exit(pbt::single(&props, &args[2..]));
    }
    let id = args.get(1).expect("usage: nkverif <ID> | --replay FILE | --list");
    let ctx = Ctx {
        verif: std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()),
        tier: match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => "thorough".into(),
            _ => "quick".into(),
        },
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        scale: std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
    };
    let p = props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    });
    std::process::exit(pbt::check(p, &ctx));
}
