//! Runs a harness natively on the bytes of a solver assignment:
//! `replay NAME HEX`. The process exits with 0 if no assertion fails, with 77
//! if the bytes do not satisfy the assumptions, and otherwise panics (101) or
//! crashes.
fn main() {
    #[cfg(not(kani))]
    {
        let name = std::env::args().nth(1).expect("harness name");
        let hex = std::env::args().nth(2).unwrap_or_default();
        let bytes = (0..hex.len() / 2)
            .map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap())
            .collect();
        harness::nd::set_queue(bytes);
        for table in harness::TABLES {
            for (n, f) in table.iter() {
                if *n == name {
                    f();
                    println!("REPLAY-OK");
                    return
                }
            }
        }
        eprintln!("no such harness: {name}");
        std::process::exit(78);
    }
}
