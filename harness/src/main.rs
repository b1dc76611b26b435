#![allow(dead_code)]
//! Bounded stand-ins and counterexample search, on the real crate and the real binary.
mod common;
#[cfg(feature = "C01")]
mod c01;
#[cfg(feature = "C02")]
mod c02;
#[cfg(feature = "C03")]
mod c03;
#[cfg(feature = "C04")]
mod c04;
#[cfg(feature = "C05")]
mod c05;
#[cfg(feature = "C06")]
mod c06;
#[cfg(feature = "C07")]
mod c07;
#[cfg(feature = "C08")]
mod c08;
#[cfg(feature = "C09")]
mod c09;
#[cfg(feature = "C10")]
mod c10;
#[cfg(feature = "C11")]
mod c11;
#[cfg(feature = "C12")]
mod c12;
#[cfg(feature = "C13")]
mod c13;
#[cfg(feature = "C14")]
mod c14;
#[cfg(feature = "C15")]
mod c15;
#[cfg(feature = "C16")]
mod c16;
#[cfg(feature = "C17")]
mod c17;
#[cfg(feature = "C18")]
mod c18;
#[cfg(feature = "C19")]
mod c19;
#[cfg(feature = "C20")]
mod c20;
#[cfg(feature = "C21")]
mod c21;
#[cfg(feature = "C22")]
mod c22;
#[cfg(feature = "C23")]
mod c23;
use common::*;
use std::collections::BTreeMap;
use std::path::PathBuf;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // cdxharness ID quick|thorough SEED BIN SCRATCH OUT [KNOWN_FILE]
    let known: Vec<String> = a
        .get(7)
        .and_then(|f| std::fs::read_to_string(f).ok())
        .map(|s| s.lines().map(|x| x.to_string()).collect())
        .unwrap_or_default();
    let mut ctx = Ctx {
        thorough: a[2] == "thorough",
        seed: a[3].parse().unwrap_or(1),
        bin: PathBuf::from(&a[4]),
        dir: PathBuf::from(&a[5]),
        out: PathBuf::from(&a[6]),
        property: a[1].clone(),
        fails: Vec::new(),
        groups: BTreeMap::new(),
        max_fails: 12,
        known,
        known_hit: BTreeMap::new(),
        start: std::time::Instant::now(),
    };
    std::panic::set_hook(Box::new(|_| {}));
    watchdog(ctx.out.clone(), ctx.property.clone(), 20);
    match a[1].as_str() {
        #[cfg(feature = "C01")]
        "C01" => c01::run(&mut ctx),
        #[cfg(feature = "C02")]
        "C02" => c02::run(&mut ctx),
        #[cfg(feature = "C03")]
        "C03" => c03::run(&mut ctx),
        #[cfg(feature = "C04")]
        "C04" => c04::run(&mut ctx),
        #[cfg(feature = "C05")]
        "C05" => c05::run(&mut ctx),
        #[cfg(feature = "C06")]
        "C06" => c06::run(&mut ctx),
        #[cfg(feature = "C07")]
        "C07" => c07::run(&mut ctx),
        #[cfg(feature = "C08")]
        "C08" => c08::run(&mut ctx),
        #[cfg(feature = "C09")]
        "C09" => c09::run(&mut ctx),
        #[cfg(feature = "C10")]
        "C10" => c10::run(&mut ctx),
        #[cfg(feature = "C11")]
        "C11" => c11::run(&mut ctx),
        #[cfg(feature = "C12")]
        "C12" => c12::run(&mut ctx),
        #[cfg(feature = "C13")]
        "C13" => c13::run(&mut ctx),
        #[cfg(feature = "C14")]
        "C14" => c14::run(&mut ctx),
        #[cfg(feature = "C15")]
        "C15" => c15::run(&mut ctx),
        #[cfg(feature = "C16")]
        "C16" => c16::run(&mut ctx),
        #[cfg(feature = "C17")]
        "C17" => c17::run(&mut ctx),
        #[cfg(feature = "C18")]
        "C18" => c18::run(&mut ctx),
        #[cfg(feature = "C19")]
        "C19" => c19::run(&mut ctx),
        #[cfg(feature = "C20")]
        "C20" => c20::run(&mut ctx),
        #[cfg(feature = "C21")]
        "C21" => c21::run(&mut ctx),
        #[cfg(feature = "C22")]
        "C22" => c22::run(&mut ctx),
        #[cfg(feature = "C23")]
        "C23" => c23::run(&mut ctx),
        x => {
            eprintln!("unknown property {x}");
            std::process::exit(2);
        }
    }
    ctx.write_report(None);
    std::process::exit(i32::from(!ctx.fails.is_empty()));
}
