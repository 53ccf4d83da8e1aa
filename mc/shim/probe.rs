// Prints the iteration order of a hash table of n names: which orders do the enumerated seeds reach?
use std::collections::HashMap;
fn main() {
    let n: usize = std::env::args().nth(1).unwrap().parse().unwrap();
    let m: HashMap<String, usize> = (0..n).map(|i| (format!("k{i}"), i)).collect();
    println!("{:?}", m.values().collect::<Vec<_>>());
}
