mod codec;
mod kem;
mod master;
mod refm;
mod rt;
mod signer;
mod sponge;
mod util;
mod prog;
mod arena;
mod fuzz;
mod world;
mod tall;

use rt::Ctx;

#[global_allocator]
static GLOBAL: rt::Counting = rt::Counting;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx),
    pub quick: u64,
    pub thorough_mult: u64,
    /// Leading choices of the first runs, so that these situations are always visited.
    pub directed: &'static [&'static [u64]],
    pub rule: &'static str,
    pub state_measure: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

mod props;

pub fn scen(p: &'static Prop) -> impl Fn(&mut Ctx) {
    move |c: &mut Ctx| (p.run)(c)
}

pub fn find(id: &str) -> &'static Prop {
    props::PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.trim().parse().ok()).unwrap_or(1u64);
    let arg = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    let code = match arg(1) {
        "worker" => {
            master::worker(find(arg(2)), arg(3) == "thorough");
            0
        }
        "check" => master::check(find(arg(2)), arg(3) == "thorough", seed, &verif),
        "replay" => master::replay(arg(2)),
        "list" => {
            for p in props::PROPS {
                println!("{}", p.id);
            }
            0
        }
        "selftest" => {
            refm::selftest();
            0
        }
        _ => {
            eprintln!("usage: mamsim check <property> [quick|thorough] | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
