#![allow(dead_code)]
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c12;
mod e2e;
mod util;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut rep = util::Rep {
        evaluations: 0,
        distinct: Default::default(),
        samples: vec![],
        fails: vec![],
        seed: a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1),
        scale: a.get(3).and_then(|s| s.parse().ok()).unwrap_or(1),
    };
    std::panic::set_hook(Box::new(|_| ()));
    e2e::init();
    match a[1].as_str() {
        "C01" => c01::run(&mut rep),
        "C02" => c02::run(&mut rep),
        "C03" => c03::run(&mut rep),
        "C04" => c04::run(&mut rep),
        "C05" => c05::run(&mut rep),
        "C06" => c06::run(&mut rep),
        "C07" => c07::run(&mut rep),
        "C09" => c09::run(&mut rep),
        "C12" => c12::run(&mut rep),
        "C08" => c08::run(&mut rep),
        p => {
            eprintln!("no harness for {p}");
        }
    }
    e2e::cleanup();
    for s in &rep.samples {
        println!("SAMPLE {}", s.replace('\n', " "));
    }
    println!("STATS {{\"evaluations\": {}, \"distinct\": {}}}", rep.evaluations, rep.distinct.len());
    std::process::exit(if rep.fails.is_empty() { 0 } else { 1 });
}
