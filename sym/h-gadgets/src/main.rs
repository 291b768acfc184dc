mod bits;
mod boolean;
mod case;
mod chain;
mod fr;
mod path;
mod range;
mod tape;
mod words;
use symeng::*;

fn main() {
    // definitions of bits nest deeply
    std::thread::Builder::new().stack_size(2 << 30).spawn(run).unwrap().join().unwrap()
}
fn run() {
    let id = std::env::args().nth(1).expect("property id");
    let mut rep = Report::new(&id);
    match id.as_str() {
        "D01" => boolean::run(&mut rep),
        "D02" => words::uint32(&mut rep),
        "D09" => words::sha(&mut rep),
        "D10" => words::blake(&mut rep),
        "D11" => path::run(&mut rep),
        "D06" => chain::mimc(&mut rep),
        "D07" => chain::poseidon(&mut rep),
        "D08" => chain::rescue(&mut rep),
        "D03" => fr::run(&mut rep),
        "D04" => range::run(&mut rep),
        "D05" => fr::lookups(&mut rep),
        _ => panic!("unknown property"),
    }
    rep.finish()
}
