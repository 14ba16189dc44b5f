#![allow(dead_code)]
mod checks;
mod checks2;
mod checks3;
mod checks4;
mod checks5;
mod checks6;
mod checks7;
mod checks8;
mod gens;
mod infra;
mod json;
mod model;
mod probe;
mod syntax;
mod typing;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 { eprintln!("mc <property> [--thorough]"); std::process::exit(2) }
    let thorough = a.iter().any(|x| x == "--thorough") || std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    if a[1] == "--list" { for c in checks::TABLE { println!("{}", c.0) } return; }
    if a[1] == "--build" { infra::build_repo(&infra::root(), &infra::repo()); return; }
    let f = match checks::TABLE.iter().find(|c| c.0 == a[1]) { Some(f) => f.1, None => infra::fatal("unknown property") };
    let prop = a[1].clone();
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
        let ctx = infra::Ctx::new(&prop, thorough);
        f(&ctx);
        ctx.finish()
    }).unwrap();
    match h.join() { Ok(c) => std::process::exit(c), Err(_) => { println!("ERROR: the check itself panicked"); std::process::exit(2) } }
}
