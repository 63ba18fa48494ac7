//! Writes `<len u32><verdict u8><module>` records to stdout for a comparison of the reference
//! validator with another implementation (see tools/xcheck.js).
use refwasm::*;
use std::io::Write;
fn main() {
    let mut a = std::env::args().skip(1);
    let seed: u64 = a.next().unwrap().parse().unwrap();
    let n: u64 = a.next().unwrap().parse().unwrap();
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    let mut bad = 0;
    for i in 0..n {
        let mut s = src::Src::random(src::mix(seed ^ src::mix(i)));
        let kind = s.below(4);
        let mut m = match kind {
            0 => gen::border_module(&mut s),
            1 => gen::valid_module(&mut s, gen::CONTROL),
            _ => gen::valid_module(&mut s, gen::SMALL),
        };
        if kind == 1 || kind == 2 {
            if let Err(e) = validate::validate(&m) {
                bad += 1;
                eprintln!("generated as valid, reference says {:?}: {:?}", e, m);
            }
        }
        if kind == 3 || kind == 1 && i % 2 == 0 {
            for _ in 0..1 + s.below(2) {
                mutate::module(&mut s, &mut m);
            }
        }
        let b = encode::encode(&m);
        let d = decode::decode(&b);
        if d != Ok(m.clone()) {
            bad += 1;
            eprintln!("does not decode to itself: {:?}\n{:?}", m, d);
        }
        let st = encode::encode_styled(&m, &mut s);
        let d = decode::decode(&st);
        if d != Ok(m.clone()) {
            bad += 1;
            eprintln!("styled does not decode to itself: {:?}\n{:?}", m, d);
        }
        let (ok, why) = match validate::validate(&m) {
            Ok(_) => (1u8, 0u8),
            Err(e) => (0, e as u8),
        };
        out.write_all(&(b.len() as u32).to_le_bytes()).unwrap();
        out.write_all(&[ok, why]).unwrap();
        out.write_all(&b).unwrap();
        if bad > 5 {
            break;
        }
    }
}
