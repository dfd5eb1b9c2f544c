mod alloc;
mod aside;
mod case;
mod determ;
mod dynval;
mod engine;
#[cfg(feature = "gen")]
mod gen;
mod idsprop;
mod ledger;
mod locks;
#[cfg(feature = "gen")]
mod orch;
mod props;
mod shapes;
mod types;
mod vecprop;

#[cfg(not(miri))]
#[global_allocator]
static A: alloc::Tracking = alloc::Tracking;

fn main() {
    engine::install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match a.as_slice() {
        // every case of a file, one after the other: exit 3 at the first that fails
        ["run", prop, file] => {
            let p = props::find(prop);
            let text = std::fs::read_to_string(file).expect("readable case file");
            for (n, c) in case::Case::decode_all(&text).iter().enumerate() {
                if let (Err(m), _) = p.run(c) {
                    println!("case {}: {}", n, m);
                    std::process::exit(3);
                }
            }
            std::process::exit(0);
        }
        // as above for an interpreter that can be stopped: says where it is
        ["batch", prop, file] => {
            let p = props::find(prop);
            let text = std::fs::read_to_string(file).expect("readable case file");
            let mut done = 0;
            for (n, c) in case::Case::decode_all(&text).iter().enumerate() {
                eprintln!("case {}", n);
                let r = p.run(c);
                if let Err(m) = r.0 {
                    println!("case {}: {}", n, m);
                    std::process::exit(3);
                }
                done += 1;
            }
            println!("done {}", done);
        }
        #[cfg(feature = "gen")]
        ["worker", prop, seed, shard, of, from, to, dir] => {
            orch::worker(props::find(prop), seed.parse().unwrap(), shard.parse().unwrap(), of.parse().unwrap(), (from.parse().unwrap(), to.parse().unwrap()), dir)
        }
        #[cfg(feature = "gen")]
        ["generate", prop, short, seed, n, file] => orch::generate(props::find(prop), *short == "short", seed.parse().unwrap(), n.parse().unwrap(), file),
        #[cfg(feature = "gen")]
        ["replay", prop, file] => orch::replay(props::find(prop), file),
        #[cfg(feature = "gen")]
        ["check", prop] => orch::check(props::find(prop)),
        _ => {
            eprintln!("usage: ecsfuzz check|run|worker|generate ...");
            std::process::exit(2)
        }
    }
}
