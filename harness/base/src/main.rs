//! Monitors for poseidon-base. One subcommand per property.
#![allow(deprecated)]
#[allow(dead_code)]
mod conv;
#[cfg(feature = "b01")]
mod b01;
#[cfg(feature = "b02")]
mod b02;
#[cfg(feature = "b03")]
mod b03;
#[cfg(feature = "b04")]
mod b04;
#[cfg(feature = "b05")]
mod b05;
#[cfg(feature = "b06")]
mod b06;
#[cfg(feature = "b07")]
mod b07;
#[cfg(feature = "b08")]
mod b08;
#[cfg(feature = "b09")]
mod b09;
#[cfg(feature = "b10")]
mod b10;
#[allow(dead_code)]
mod cases;
#[cfg(any(feature = "b05", feature = "b06"))]
#[allow(dead_code)]
mod spec;
#[cfg(any(feature = "b05", feature = "b06", feature = "b10"))]
#[allow(dead_code)]
mod toy;

use oracle::mon::{self, Args};

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    pub args: Args,
}

fn main() {
    let args = Args::parse();
    let ctx = Ctx {
        seed: args.u64("seed", 1),
        thorough: args.get("tier", "quick") == "thorough",
        threads: args.u64("threads", 8) as usize,
        args,
    };
    let out = ctx.args.get("out", "/dev/stdout");
    if ctx.args.get("selftest", "1") == "1" {
        oracle::selftest(ctx.seed);
    }
    mon::install(ctx.args.u64("hang", 120));
    let m = match ctx.args.1.first().map(|s| s.as_str()) {
        #[cfg(feature = "b01")]
        Some("b01") => b01::run(&ctx),
        #[cfg(feature = "b02")]
        Some("b02") => b02::run(&ctx),
        #[cfg(feature = "b03")]
        Some("b03") => b03::run(&ctx),
        #[cfg(feature = "b04")]
        Some("b04") => b04::run(&ctx),
        #[cfg(feature = "b05")]
        Some("b05") => b05::run(&ctx),
        #[cfg(feature = "b06")]
        Some("b06") => b06::run(&ctx),
        #[cfg(feature = "b07")]
        Some("b07") => b07::run(&ctx),
        #[cfg(feature = "b08")]
        Some("b08") => b08::run(&ctx),
        #[cfg(feature = "b09")]
        Some("b09") => b09::run(&ctx),
        #[cfg(feature = "b10")]
        Some("b10") => b10::run(&ctx),
        x => {
            eprintln!("unknown subcommand {x:?}");
            std::process::exit(2);
        }
    };
    std::process::exit(m.finish(&out));
}
