//! O01: ISO code tables.
use rqmc::{ensure, h, refuses, Ck, Res};
use std::collections::BTreeMap;
use RustQuant_iso::{MICStatus, OperatingOrSegment, ISO_3166, ISO_4217};
#[path = "../refs/iso.rs"]
mod data;

fn o01(ck: &Ck) {
    ck.assume("the reference tables (ISO 3166, 4217 and 10383 as of the pinned commit) are held in harness/src/refs/iso.rs; alpha-2/alpha-3 codes, currency numbers and minor units were compared with the tables of JDK 17");
    let table: BTreeMap<&str, (&str, &str)> = data::COUNTRIES.split(' ').collect::<Vec<_>>().chunks(3).map(|c| (c[0], (c[1], c[2]))).collect();
    let same = |c: ISO_3166, a: &str, want: (&str, &str)| -> Res {
        ensure!(c.alpha_2 == a && c.alpha_2() == a, "the country looked up as {a} has code {}", c.alpha_2());
        ensure!(c.alpha_3 == want.0 && c.alpha_3() == want.0, "{a} has three-letter code {}, expected {}", c.alpha_3(), want.0);
        ensure!(c.numeric == want.1 && c.numeric() == want.1, "{a} has number {}, expected {}", c.numeric(), want.1);
        Ok(())
    };
    // all strings of up to two (quick) or three (thorough) symbols over letters of both cases, digits and others
    let sy: Vec<char> = ('A'..='Z').chain('a'..='z').chain("09 -é".chars()).collect();
    let n = ck.pick(2, 3);
    ck.par(sy.len(), |w, i| {
        for len in 1..=n {
            rqmc::words(sy.len(), len - 1, &mut |rest| {
                let s: String = std::iter::once(sy[i]).chain(rest.iter().map(|&k| sy[k])).collect();
                w.case("lookup", || format!("{s:?}"), |w| {
                    w.op();
                    let got = ISO_3166::from_alpha_2(&s);
                    w.state(h(&s));
                    match (got, table.get(s.as_str())) {
                        (None, None) => Ok(()),
                        (Some(c), Some(&want)) => { w.outcome(h(c.alpha_2)); same(c, &s, want) }
                        (Some(c), None) => rqmc::fail(format!("{s:?} is not an assigned code but gives {}", c.alpha_3)),
                        (None, Some(_)) => rqmc::fail(format!("{s} is assigned but not found")),
                    }
                });
            });
        }
    });
    ck.seq(|w| {
        w.case("lookup", || "empty string".into(), |_| { ensure!(ISO_3166::from_alpha_2("").is_none(), "the empty string is a country"); Ok(()) });
        for (a, c) in data::COUNTRY_CONSTS {
            w.case("countries", || format!("constant of {a}"), |w| { w.op(); w.outcome(h(&c.numeric)); same(*c, a, table[a]) });
        }
        for (i, (a, num, minor, c)) in data::CURRENCIES.iter().enumerate() {
            w.case("currencies", || format!("{a}"), |w| {
                w.op();
                let code: ISO_4217 = c.code();
                ensure!(code == c.code && code.alphabetic() == *a && code.alphabetic == *a, "alphabetic code {}", code.alphabetic());
                ensure!(code.numeric() == *num && code.numeric == *num, "{a} has number {}, expected {num}", code.numeric());
                ensure!(c.minor() == *minor && c.minor == *minor, "{a} has {} digits, expected {minor}", c.minor());
                ensure!(c.fractions() == 10usize.pow(*minor as u32) && c.fractions == c.fractions(), "{a} has {} fractions for {minor} digits", c.fractions());
                ensure!(!c.name().is_empty() && c.name() == c.name && !c.symbol().is_empty() && c.symbol() == c.symbol, "name or symbol");
                ensure!(ISO_4217::new(a, num) == code, "a code made from its parts differs");
                for (j, (b, _, _, d)) in data::CURRENCIES.iter().enumerate() {
                    ensure!((i == j) == (*c == *d) && (i == j) == (c.code() == d.code()), "{a} and {b} compare wrongly");
                    ensure!(i == j || (c.name() != d.name()), "{a} and {b} have the same name");
                }
                w.outcome(h(code.numeric()));
                Ok(())
            });
        }
        let ops: BTreeMap<&str, bool> = data::MICS.iter().map(|m| (m.0, m.3)).collect();
        for &(name, op, cc, seg, st, c) in data::MICS {
            w.case("market-identifiers", || name.to_string(), |w| {
                w.op();
                ensure!(name.len() == 4 && name.bytes().all(|b| b.is_ascii_uppercase() || b.is_ascii_digit()), "identifier {name}");
                ensure!(c.operating_mic == op, "{name} is operated by {}, expected {op}", c.operating_mic);
                ensure!(c.country_code == cc, "{name} is in {}, expected {cc}", c.country_code);
                ensure!((c.oprt_sgmt == OperatingOrSegment::Segment) == seg, "{name} is a {:?}", c.oprt_sgmt);
                ensure!(matches!((c.status, st), (MICStatus::Active, 'A') | (MICStatus::Updated, 'U') | (MICStatus::Expired, 'E')), "{name} is {:?}", c.status);
                ensure!(seg || c.operating_mic == name, "{name} is an operating market operated by {}", c.operating_mic);
                ensure!(!seg || ops.contains_key(c.operating_mic), "{name} is a segment of the unknown {}", c.operating_mic);
                ensure!(cc == "ZZ" || ISO_3166::from_alpha_2(c.country_code).is_some(), "{name} is in the unknown country {}", c.country_code);
                w.outcome(h(&(c.operating_mic, c.country_code)));
                Ok(())
            });
        }
    });
    let _ = refuses(|| ());
}
fn main() { Ck::main(|ck| match ck.prop.as_str() { "O01" => o01(ck), p => panic!("unknown property {p}") }) }
