//! Monitors for poseidon-circuit. One subcommand per property.
#![allow(deprecated)]
#[allow(dead_code)]
mod circ;
#[allow(dead_code)]
mod conv;
#[cfg(any(feature = "c03", feature = "c09"))]
#[allow(dead_code)]
mod forge;
#[cfg(any(feature = "c01", feature = "c03"))]
#[allow(dead_code)]
mod c01;
#[cfg(feature = "c03")]
mod c03;
#[cfg(any(feature = "c05", feature = "c06", feature = "c15"))]
#[allow(dead_code)]
mod c05;
#[cfg(feature = "c06")]
mod c06;
#[cfg(feature = "c07")]
mod c07;
#[cfg(feature = "c08")]
mod c08;
#[cfg(feature = "c09")]
mod c09;
#[cfg(any(feature = "c09", feature = "c15"))]
#[allow(dead_code)]
mod perm;
#[cfg(feature = "c11")]
mod c11;
#[cfg(feature = "c14")]
mod c14;
#[cfg(feature = "c15")]
mod c15;
#[cfg(feature = "c19")]
mod c19;
#[cfg(feature = "c19")]
#[path = "../../base/src/toy.rs"]
mod toy;

use oracle::mon::{self, Args};

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    pub args: Args,
}
pub fn set_mode(mode: &str) {
    match mode {
        "unset" => std::env::remove_var("CIRCUIT_ASSIGNMENT_TYPE"),
        m => std::env::set_var("CIRCUIT_ASSIGNMENT_TYPE", m),
    }
}

fn main() {
    let args = Args::parse();
    let ctx = Ctx {
        seed: args.u64("seed", 1),
        thorough: args.get("tier", "quick") == "thorough",
        threads: args.u64("threads", 8) as usize,
        args,
    };
    let out = ctx.args.get("out", "/dev/stdout");
    set_mode(&ctx.args.get("mode", "serial"));
    if ctx.args.get("selftest", "1") == "1" {
        oracle::selftest(ctx.seed);
    }
    mon::install(ctx.args.u64("hang", 120));
    let m = match ctx.args.1.first().map(|s| s.as_str()) {
        #[cfg(feature = "c01")]
        Some("c01") => c01::run(&ctx),
        #[cfg(feature = "c03")]
        Some("c03") => c03::run(&ctx),
        #[cfg(feature = "c05")]
        Some("c05") => c05::run(&ctx),
        #[cfg(feature = "c06")]
        Some("c06") => c06::run(&ctx),
        #[cfg(feature = "c07")]
        Some("c07") => c07::run(&ctx),
        #[cfg(feature = "c08")]
        Some("c08") => c08::run(&ctx),
        #[cfg(feature = "c09")]
        Some("c09") => c09::go(&ctx),
        #[cfg(feature = "c19")]
        Some("c19") => c19::run(&ctx),
        #[cfg(feature = "c11")]
        Some("c11") => c11::run(&ctx),
        #[cfg(feature = "c11")]
        Some("c13") => c11::switches(&ctx),
        #[cfg(feature = "c14")]
        Some("c14") => c14::run(&ctx),
        #[cfg(feature = "c15")]
        Some("c15") => c15::capacity(&ctx),
        #[cfg(feature = "c15")]
        Some("c16") => c15::faults(&ctx),
        #[cfg(feature = "c15")]
        Some("c17") => c15::history(&ctx),
        #[cfg(feature = "c15")]
        Some("c18") => c15::keys(&ctx),
        x => {
            eprintln!("unknown subcommand {x:?}");
            std::process::exit(2);
        }
    };
    std::process::exit(m.finish(&out));
}
