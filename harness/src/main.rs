//! `verif-harness <id>` runs a check, `verif-harness replay <id> <file>` re-judges one case.

mod builder;
mod codec;
mod dtree;
mod faults;
mod ftree;
mod gen;
mod hostile;
mod import;
mod inspect;
mod interleave;
mod mem;
mod pbx;
mod programs;
mod streaming;
mod resolve;
mod runner;
mod visit;
mod walkc;
mod whole;

use runner::Tier;

#[global_allocator]
static ALLOCATOR: mem::Counting = mem::Counting;

enum Mode<'a> {
    Replay(&'a str),
    Run,
    Hunt,
}

macro_rules! dispatch {
    ($id:expr, $tier:expr, $seed:expr, $replay:expr, $($name:literal => $check:expr,)*) => {
        match $id {
            $($name => match $replay {
                Mode::Replay(f) => runner::replay(&$check, f),
                Mode::Run => runner::run(&$check, $tier, $seed),
                Mode::Hunt => runner::hunt(&$check, $tier, $seed),
            },)*
            other => {
                eprintln!("unknown property {}", other);
                2
            }
        }
    };
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let (id, file) = match args.iter().map(|s| s.as_str()).collect::<Vec<_>>()[..] {
        ["replay", id, file] => (id, Some(file)),
        [id] => (id, None),
        _ => {
            eprintln!("usage: verif-harness <property> | replay <property> <file>");
            std::process::exit(2);
        }
    };
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<u64>().ok())
        .unwrap_or(1);
    // the check itself runs in a child, which may crash
    let mut mode = match file {
        Some(f) => Mode::Replay(f),
        None => Mode::Run,
    };
    if std::env::var_os("VERIF_WORKER").is_none() {
        let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        match runner::worker("run", &args).status() {
            Err(e) => {
                eprintln!("cannot start the worker: {}", e);
                std::process::exit(3);
            }
            Ok(s) => match s.code() {
                Some(c) => std::process::exit(c),
                None if !runner::crashed(&s) => {
                    eprintln!("the worker was ended: {}", s);
                    std::process::exit(4);
                }
                None => match file {
                    Some(f) => {
                        println!("replay: the process crashes on this case");
                        println!("VIOLATION property={} replay={}", id, f);
                        std::process::exit(1);
                    }
                    None => mode = Mode::Hunt,
                },
            },
        }
    }
    // a call which never returns is an error of the run, not a verdict
    let limit = if tier == Tier::Quick { 780 } else { 6 * 3600 };
    std::thread::spawn(move || {
        let parent = std::os::unix::process::parent_id();
        for _ in 0..limit {
            std::thread::sleep(std::time::Duration::from_secs(1));
            // nobody is waiting for the answer any more
            if std::env::var_os("VERIF_WORKER").is_some() && std::os::unix::process::parent_id() != parent {
                std::process::exit(5);
            }
        }
        eprintln!("no answer after {} s: a call does not return", limit);
        std::process::exit(4);
    });
    runner::install_panic_hook();
    let code = dispatch!(id, tier, seed, mode,
        "C01" => import::C01,
        "C02" => import::C02,
        "C03" => import::C03,
        "C04" => builder::C04,
        "C05" => visit::C05,
        "C06" => visit::C06,
        "C07" => visit::C07,
        "C08" => builder::C08,
        "C09" => builder::C09,
        "C10" => builder::C10,
        "C11" => resolve::C11,
        "C12" => resolve::C12,
        "C13" => walkc::C13,
        "C14" => walkc::C14,
        "C15" => hostile::C15,
        "C16" => faults::C16,
        "C17" => codec::C17,
        "C18" => walkc::C18,
        "C19" => walkc::C19,
        "C20" => codec::C20,
        "C21" => walkc::C21,
        "C22" => resolve::C22,
        "C23" => faults::C23,
        "C25" => inspect::C25,
        "C26" => faults::C26,
        "C24" => hostile::C24,
        "C27" => whole::C27,
        "C28" => interleave::C28,
        "C29" => programs::C29,
        "C30" => streaming::C30,
    );
    if id == "C29" {
        programs::clean();
    }
    std::process::exit(code);
}
