//! replay HARNESS BYTES... : run a harness natively on the values of a counterexample (each the bytes of one value, joined by commas)
use kani_c17::*;
fn main() {
    let mut a = std::env::args().skip(1);
    let name = a.next().unwrap();
    #[cfg(not(kani))]
    kani::VALUES.with(|v| *v.borrow_mut() = a.map(|x| x.split(',').map(|b| b.parse().unwrap()).collect()).collect());
    match name.as_str() {
        "lex1::order" => lex1::order(),
        "lex1::sum" => lex1::sum(),
        "lex1::delta" => lex1::delta(),
        "lex1::deltas_add_up" => lex1::deltas_add_up(),
        "lex2::order" => lex2::order(),
        "lex2::sum" => lex2::sum(),
        "lex2::delta" => lex2::delta(),
        "lex2::deltas_add_up" => lex2::deltas_add_up(),
        "lex3::order" => lex3::order(),
        "lex3::sum" => lex3::sum(),
        "lex3::delta" => lex3::delta(),
        "lex3::deltas_add_up" => lex3::deltas_add_up(),
        "by1::division" => by1::division(),
        "by2::division" => by2::division(),
        "by3::division" => by3::division(),
        "by5::division" => by5::division(),
        "by6::division" => by6::division(),
        "by7::division" => by7::division(),
        "plain::delta" => plain::delta(),
        "plain::wide_division" => plain::wide_division(),
        "plain::saturation" => plain::saturation(),
        "gamma::threshold" => gamma::threshold(),
        "gamma::greedy" => gamma::greedy(),
        "gamma::coarse" => gamma::coarse(),
        _ => panic!("no harness {name}"),
    }
    println!("HELD");
}
