//! Replay driver: evaluates the real crate on concrete inputs.
//! stdin lines:  <fn> <a:hex bits> <b:hex bits> <o_id> <region|->      stdout: hex bits of the result
use std::io::{BufRead, Write};
fn call(f: &str, a: f64, b: f64, o: i32, r: Option<i32>) -> f64 {
    macro_rules! d { ($g:ident) => { match r { Some(r) => seuif97::$g(a, b, (o, r)), None => seuif97::$g(a, b, o) } } }
    match f {
        "pt" => d!(pt), "ph" => d!(ph), "ps" => d!(ps), "hs" => d!(hs),
        "pv" => d!(pv), "tv" => d!(tv), "th" => d!(th), "ts" => d!(ts),
        "px" => seuif97::px(a, b, o), "tx" => seuif97::tx(a, b, o),
        "hx" => seuif97::hx(a, b, o), "sx" => seuif97::sx(a, b, o),
        _ => { eprintln!("bad fn {f}"); std::process::exit(9) }
    }
}
fn main() {
    let i = std::io::stdin();
    let o = std::io::stdout();
    let mut o = std::io::BufWriter::new(o.lock());
    let flush = std::env::args().any(|x| x == "--flush");
    std::panic::set_hook(Box::new(|_| {}));
    for l in i.lock().lines() {
        let l = l.unwrap();
        let t: Vec<&str> = l.split_whitespace().collect();
        if t.len() < 5 { continue; }
        let a = f64::from_bits(u64::from_str_radix(t[1], 16).unwrap());
        let b = f64::from_bits(u64::from_str_radix(t[2], 16).unwrap());
        let id: i32 = t[3].parse().unwrap();
        let r: Option<i32> = if t[4] == "-" { None } else { Some(t[4].parse().unwrap()) };
        let f = t[0].to_string();
        match std::panic::catch_unwind(|| call(&f, a, b, id, r)) {
            Ok(v) => writeln!(o, "{:016x}", v.to_bits()).unwrap(),
            Err(_) => writeln!(o, "panic").unwrap(),
        }
        if flush { o.flush().unwrap(); }
    }
}
