//! vp: decides foca's properties by generated-input search. See /verif/DESIGN.md
#![allow(dead_code)]
mod alloc_guard;
mod codec;
mod drive;
mod gen;
mod handler;
mod id;
mod inst;
mod model;
mod runner;
mod sim;
mod tape;

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;

use std::process::exit;

use runner::{Opts, Prop};

fn props() -> Vec<Prop> {
    vec![c01::prop(), c02::prop(),
        c03::prop(), c04::prop(), c05::prop(), c06::prop(), c07::prop(), c08::prop(), c09::prop(), c10::prop(), c11::prop(), c12::prop(), c13::prop(), c14::prop(), c15::prop(), c16::prop(), c17::prop(), c18::prop(), c19::prop(), c20::prop()]
}

fn usage() -> ! {
    eprintln!("usage: vp check <PROPERTY> [--thorough] [--seed N] [--evidence F] [--flavour S] [--merge F]... [--only SUB] [--scale X] [--known F] [--replays DIR]");
    eprintln!("       vp replay <FILE>");
    exit(2)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let all = props();
    match args.first().map(|s| s.as_str()) {
        Some("check") if args.len() >= 2 => {
            let Some(p) = all.iter().find(|p| p.id == args[1]) else {
                eprintln!("no such property: {}", args[1]);
                exit(2)
            };
            let mut o = Opts {
                thorough: false,
                seed: 1,
                evidence: None,
                replays: "/verif/replays".into(),
                merge: vec![],
                flavour: "checked".into(),
                only: None,
                scale: 1.0,
                known: vec![],
            };
            let mut i = 2;
            while i < args.len() {
                let val = || args.get(i + 1).cloned().unwrap_or_else(|| usage());
                match args[i].as_str() {
                    "--thorough" => {
                        o.thorough = true;
                        i += 1;
                        continue;
                    }
                    "--seed" => o.seed = val().parse().unwrap_or(1),
                    "--evidence" => o.evidence = Some(val()),
                    "--flavour" => o.flavour = val(),
                    "--merge" => o.merge.push(val()),
                    "--only" => o.only = Some(val()),
                    "--scale" => o.scale = val().parse().unwrap_or(1.0),
                    "--replays" => o.replays = val(),
                    "--known" => o.known = runner::read_known(&val(), p.id),
                    _ => usage(),
                }
                i += 2;
            }
            let rc = runner::run_prop(p, &o);
            c02::dump();
            exit(rc)
        }
        Some("replay") if args.len() == 2 => exit(runner::replay(&all, &args[1])),
        Some("list") => {
            for p in &all {
                println!("{}: {}", p.id, p.subs.iter().map(|s| s.name).collect::<Vec<_>>().join(" "));
            }
        }
        _ => usage(),
    }
}
