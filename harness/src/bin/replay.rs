fn main() {
    let a: Vec<String> = std::env::args().collect();
    let job: usize = a[2].parse().unwrap();
    let hx = a.get(3).cloned().unwrap_or_default();
    let bytes: Vec<u8> = (0..hx.len() / 2).map(|i| u8::from_str_radix(&hx[2 * i..2 * i + 2], 16).unwrap()).collect();
    for h in vharness::all() {
        if h.name == a[1] {
            vharness::api::set_feed(bytes);
            (h.run)(job);
            println!("REPLAY-OK");
            return;
        }
    }
    eprintln!("no such harness");
    std::process::exit(3);
}
