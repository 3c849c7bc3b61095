mod core;
mod c01;
mod c02;
mod c03;
mod c04;
mod c09;
mod c10;
mod c12;
mod c14;
mod c18;
mod c15;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a.get(1).expect("property");
    let seed: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = a.get(3).map(|s| s == "thorough").unwrap_or(false);
    let mut c = core::Ctx::new(prop, seed, thorough);
    match prop.as_str() {
        "C01" => c01::c01(&mut c),
        "C02" => c02::c02(&mut c),
        "C03" => c03::c03(&mut c),
        "C04" => c04::c04(&mut c),
        "C05" => c04::c05(&mut c),
        "C06" => c04::c06(&mut c),
        "C07" => c04::c07(&mut c),
        "C08" => c04::c08(&mut c),
        "C09" => c09::c09(&mut c),
        "C10" => c10::c10(&mut c),
        "C11" => c10::c11(&mut c),
        "C12" => c12::c12(&mut c),
        "C13" => c12::c13(&mut c),
        "C16" => c12::c16(&mut c),
        "C17" => c10::c17(&mut c),
        "C14" => c14::c14(&mut c),
        "C15" => c15::c15(&mut c),
        "C19" => c15::c19(&mut c),
        "C18" => c18::c18(&mut c),
        _ => { eprintln!("unknown property {}", prop); std::process::exit(2) }
    }
    println!("{}", c.report());
}
