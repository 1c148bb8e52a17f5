//! Reference holiday calendars, written as per-year *generators* (the implementation is a per-day predicate).
//! Own civil calendar arithmetic, own Easter computus (Western and Orthodox) and own Hebrew calendar.
use std::collections::{BTreeMap, BTreeSet};

pub type Day = i64; // days since 1970-01-01
pub fn days(y: i64, m: i64, d: i64) -> Day {
    // Julian day number of a proleptic Gregorian date (Fliegel & Van Flandern), shifted to the Unix epoch
    let a = (14 - m) / 12;
    let yy = y + 4800 - a;
    let mm = m + 12 * a - 3;
    d + (153 * mm + 2) / 5 + 365 * yy + yy.div_euclid(4) - yy.div_euclid(100) + yy.div_euclid(400) - 32045 - 2440588
}
pub fn leap(y: i64) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
pub fn mlen(y: i64, m: i64) -> i64 { match m { 4 | 6 | 9 | 11 => 30, 2 => 28 + leap(y) as i64, _ => 31 } }
/// Monday = 0 .. Sunday = 6
pub fn wd(n: Day) -> i64 { (n + 3).rem_euclid(7) }
pub const MON: i64 = 0; pub const TUE: i64 = 1; pub const WED: i64 = 2; pub const THU: i64 = 3; pub const FRI: i64 = 4; pub const SAT: i64 = 5; pub const SUN: i64 = 6;

/// Western Easter Sunday (anonymous Gregorian computus).
pub fn easter_sunday(y: i64) -> Day {
    let (a, b, c) = (y % 19, y / 100, y % 100);
    let (d, e) = (b / 4, b % 4);
    let f = (b + 8) / 25;
    let g = (b - f + 1) / 3;
    let hh = (19 * a + b - d - g + 15) % 30;
    let (i, k) = (c / 4, c % 4);
    let l = (32 + 2 * e + 2 * i - hh - k) % 7;
    let m = (a + 11 * hh + 22 * l) / 451;
    days(y, (hh + l - 7 * m + 114) / 31, (hh + l - 7 * m + 114) % 31 + 1)
}
/// Orthodox Easter Sunday (Meeus' Julian algorithm, converted to the Gregorian calendar).
pub fn orthodox_easter_sunday(y: i64) -> Day {
    let (a, b, c) = (y % 4, y % 7, y % 19);
    let d = (19 * c + 15) % 30;
    let e = (2 * a + 4 * b - d + 34) % 7;
    let t = d + e + 114;
    // Julian date y-(t/31)-(t%31+1): Julian day number
    let (m, dd) = (t / 31, t % 31 + 1);
    let aa = (14 - m) / 12;
    let yy = y + 4800 - aa;
    let mm = m + 12 * aa - 3;
    dd + (153 * mm + 2) / 5 + 365 * yy + yy / 4 - 32083 - 2440588
}

struct Y { y: i64, s: BTreeSet<Day> }
impl Y {
    fn n(&self, m: i64, d: i64) -> Day { days(self.y, m, d) }
    fn f(&mut self, m: i64, d: i64) -> &mut Self { let n = self.n(m, d); self.s.insert(n); self }
    fn fs(&mut self, l: &[(i64, i64)]) -> &mut Self { for &(m, d) in l { self.f(m, d); } self }
    fn since(&mut self, y0: i64, m: i64, d: i64) -> &mut Self { if self.y >= y0 { self.f(m, d); } self }
    fn only(&mut self, y0: i64, m: i64, d: i64) -> &mut Self { if self.y == y0 { self.f(m, d); } self }
    /// plus the following Monday when it falls on a weekend
    fn mon(&mut self, m: i64, d: i64) -> &mut Self {
        let n = self.n(m, d); self.s.insert(n);
        match wd(n) { SAT => { self.s.insert(n + 2); } SUN => { self.s.insert(n + 1); } _ => {} }
        self
    }
    /// plus the following Monday when it falls on a Sunday
    fn sunmon(&mut self, m: i64, d: i64) -> &mut Self { let n = self.n(m, d); self.s.insert(n); if wd(n) == SUN { self.s.insert(n + 1); } self }
    /// plus two days later when it falls on a weekend (pairs such as Christmas and Boxing Day)
    fn plus2(&mut self, m: i64, d: i64) -> &mut Self { let n = self.n(m, d); self.s.insert(n); if wd(n) >= SAT { self.s.insert(n + 2); } self }
    /// plus Monday when on Sunday, plus Friday when on Saturday
    fn us(&mut self, m: i64, d: i64) -> &mut Self {
        let n = self.n(m, d); self.s.insert(n);
        match wd(n) { SAT => { self.s.insert(n - 1); } SUN => { self.s.insert(n + 1); } _ => {} }
        self
    }
    /// the k-th given weekday of the month
    fn nth(&mut self, k: i64, w: i64, m: i64) -> &mut Self { let n = self.n(m, 1); let n = n + (w - wd(n)).rem_euclid(7) + 7 * (k - 1); self.s.insert(n); self }
    fn last(&mut self, w: i64, m: i64) -> &mut Self { let n = self.n(m, mlen(self.y, m)); let n = n - (wd(n) - w).rem_euclid(7); self.s.insert(n); self }
    /// the given weekday on or after a date
    fn onafter(&mut self, w: i64, m: i64, d: i64) -> &mut Self { let n = self.n(m, d); self.s.insert(n + (w - wd(n)).rem_euclid(7)); self }
    /// relative to Easter Sunday
    fn easter(&mut self, off: i64) -> &mut Self { let e = easter_sunday(self.y); self.s.insert(e + off); self }
}

pub const MARKETS: [&str; 29] = ["None", "Weekends", "Argentina", "Australia", "Austria", "Botswana", "Brazil", "Canada", "Chile", "China",
    "CzechRepublic", "Denmark", "Finland", "France", "Germany", "HongKong", "Hungary", "Iceland", "India", "Indonesia", "Israel", "Italy",
    "Mexico", "Netherlands", "NewZealand", "Singapore", "UnitedKingdom", "UnitedStates", "Switzerland"];

const GOOD_FRIDAY: i64 = -2;
const EASTER_MON: i64 = 1;
const ASCENSION: i64 = 39;
const WHIT_MON: i64 = 50;
const CORPUS: i64 = 60;

/// Dates announced year by year (lunar, Islamic and Hindu festivals, bridging days): `Market yyyy mmdd mmdd-mmdd ...`
const TABLE: &str = include_str!("announced.txt");
pub fn announced() -> BTreeMap<String, BTreeSet<Day>> {
    let mut out: BTreeMap<String, BTreeSet<Day>> = BTreeMap::new();
    for l in TABLE.lines() {
        if l.starts_with('#') || l.trim().is_empty() { continue; }
        let mut it = l.split_whitespace();
        let mk = it.next().unwrap().to_string();
        let y: i64 = it.next().unwrap().parse().unwrap();
        for t in it {
            let p = |s: &str| { let v: i64 = s.parse().unwrap(); days(y, v / 100, v % 100) };
            let (a, b) = match t.split_once('-') { Some((a, b)) => (p(a), p(b)), None => (p(t), p(t)) };
            for n in a..=b { out.entry(mk.clone()).or_default().insert(n); }
        }
    }
    out
}

// ---- Hebrew calendar (Reingold & Dershowitz arithmetic) -------------------------------------------------
fn h_leap(y: i64) -> bool { (7 * y + 1).rem_euclid(19) < 7 }
fn h_elapsed(y: i64) -> i64 {
    let months = (235 * y - 234).div_euclid(19);
    let parts = 12084 + 13753 * months;
    let day = 29 * months + parts.div_euclid(25920);
    if (3 * (day + 1)).rem_euclid(7) < 3 { day + 1 } else { day }
}
/// 1 Tishri of the Hebrew year, as days since 1970-01-01.
fn h_new_year(y: i64) -> Day {
    let (p, c, n) = (h_elapsed(y - 1), h_elapsed(y), h_elapsed(y + 1));
    let corr = if n - c == 356 { 2 } else if c - p == 382 { 1 } else { 0 };
    // Hebrew epoch is R.D. -1373427; R.D. 719163 is 1970-01-01
    -1373427 + c + corr - 719163 + 0
}
/// Months from Tishri: Tishri, Marheshvan, Kislev, Tevet, Shevat, [Adar I,] Adar, Nisan, Iyar, Sivan, Tammuz, Av, Elul.
fn h_months(y: i64) -> Vec<(&'static str, i64)> {
    let len = h_new_year(y + 1) - h_new_year(y);
    let long_mar = len % 10 == 5;
    let short_kis = len % 10 == 3;
    let mut v = vec![("Tishri", 30), ("Marheshvan", if long_mar { 30 } else { 29 }), ("Kislev", if short_kis { 29 } else { 30 }), ("Tevet", 29), ("Shevat", 30)];
    if h_leap(y) { v.push(("AdarI", 30)); }
    v.extend([("Adar", 29), ("Nisan", 30), ("Iyar", 29), ("Sivan", 30), ("Tammuz", 29), ("Av", 30), ("Elul", 29)]);
    v
}
fn h_date(y: i64, month: &str, d: i64) -> Day {
    let mut n = h_new_year(y);
    for (m, l) in h_months(y) { if m == month { return n + d - 1; } n += l; }
    panic!("no month {month}")
}
fn israel(y: i64, s: &mut BTreeSet<Day>) {
    for hy in [y + 3760, y + 3761] {
        for (m, d) in [("Elul", 29), ("Tishri", 1), ("Tishri", 2), ("Tishri", 9), ("Tishri", 10), ("Tishri", 14), ("Tishri", 15), ("Tishri", 22), ("Tishri", 23),
            ("Adar", 14), ("Nisan", 14), ("Nisan", 15), ("Nisan", 20), ("Nisan", 21), ("Sivan", 5), ("Sivan", 6), ("Av", 9)] {
            s.insert(h_date(hy, m, d));
        }
        // fast of 9 Av is observed on Sunday when it falls on the Sabbath
        let av = h_date(hy, "Av", 9);
        if wd(av) == SAT { s.insert(av + 1); }
        // Independence Day: 5 Iyar, moved off Friday/Saturday to Thursday and off Monday to Tuesday; Memorial Day the day before
        let i5 = h_date(hy, "Iyar", 5);
        let ind = match wd(i5) { FRI => i5 - 1, SAT => i5 - 2, MON => i5 + 1, _ => i5 };
        s.insert(ind);
        s.insert(ind - 1);
    }
    let (a, b) = (days(y, 1, 1), days(y, 12, 31));
    s.retain(|n| *n >= a && *n <= b);
}

pub fn is_weekend(market: &str, n: Day) -> bool { let w = wd(n); if market == "Israel" { w == FRI || w == SAT } else { w >= SAT } }

pub fn holidays(market: &str, y: i64, ann: &BTreeMap<String, BTreeSet<Day>>) -> BTreeSet<Day> {
    let mut g = Y { y, s: BTreeSet::new() };
    match market {
        "None" | "Weekends" => {}
        "Argentina" => {
            g.f(1, 1).easter(-3).easter(GOOD_FRIDAY).fs(&[(5, 1), (5, 25), (7, 9), (12, 8), (12, 24), (12, 25), (12, 31)]);
            g.nth(3, MON, 6).nth(3, MON, 8);
            // Columbus Day: 12 October, Tue/Wed to the preceding Monday, Thu/Fri to the following one
            let n = g.n(10, 12);
            match wd(n) { MON => { g.s.insert(n); } TUE => { g.s.insert(n - 1); } WED => { g.s.insert(n - 2); } THU => { g.s.insert(n + 4); } FRI => { g.s.insert(n + 3); } _ => {} }
            if wd(g.n(12, 31)) == SAT { g.f(12, 30); }
        }
        "Australia" => {
            g.mon(1, 1).mon(1, 26).easter(GOOD_FRIDAY).easter(EASTER_MON).f(4, 25).nth(2, MON, 6).nth(1, MON, 8).nth(1, MON, 10).plus2(12, 25).plus2(12, 26).only(2022, 9, 22);
        }
        "Austria" => {
            g.fs(&[(1, 1), (1, 6), (5, 1), (8, 15), (11, 1), (12, 8), (12, 25), (12, 26)]).easter(EASTER_MON).easter(ASCENSION).easter(WHIT_MON).easter(CORPUS).since(1967, 10, 26);
            if (1919..=1934).contains(&y) { g.f(11, 12); }
        }
        "Botswana" => {
            for (m, d) in [(1, 1), (10, 1)] { let n = g.n(m, d); g.s.insert(n); if wd(n) == SUN { g.s.insert(n + 1); g.s.insert(n + 2); } }
            g.easter(GOOD_FRIDAY).easter(EASTER_MON).sunmon(5, 1).easter(ASCENSION).sunmon(7, 1).nth(3, MON, 7).sunmon(9, 30).f(12, 25).sunmon(12, 26);
        }
        "Brazil" => {
            g.fs(&[(1, 1), (4, 21), (5, 1), (9, 7), (10, 12), (11, 2), (11, 15), (12, 25)]).since(2024, 11, 20).easter(GOOD_FRIDAY).easter(-48).easter(-47).easter(CORPUS);
        }
        "Canada" => {
            g.mon(1, 1).easter(GOOD_FRIDAY).onafter(MON, 5, 18).mon(7, 1).nth(1, MON, 8).nth(1, MON, 9).nth(2, MON, 10).mon(11, 11).plus2(12, 25).plus2(12, 26);
            if y >= 2008 { g.nth(3, MON, 2); }
            if y >= 2021 { g.mon(9, 30); }
        }
        "Chile" => {
            g.fs(&[(1, 1), (5, 1), (5, 21), (7, 16), (8, 15), (9, 18), (9, 19), (11, 1), (12, 8), (12, 25)]).easter(GOOD_FRIDAY).easter(-1).since(2021, 6, 21);
            if y > 2016 && wd(g.n(1, 1)) == SUN { g.f(1, 2); }
            for (m, d) in [(6, 29), (10, 12)] { let n = g.n(m, d); match wd(n) { w @ MON..=THU => { g.s.insert(n - w); } FRI => { g.s.insert(n + 3); } _ => {} } }
            let w17 = wd(g.n(9, 17));
            if (w17 == MON && y >= 2007) || (w17 == FRI && y > 2016) { g.f(9, 17); }
            if y >= 2007 && wd(g.n(9, 20)) == FRI { g.f(9, 20); }
            if y >= 2008 { let n = g.n(10, 31); match wd(n) { TUE => g.s.insert(n - 4), WED => g.s.insert(n + 2), _ => g.s.insert(n) }; }
        }
        "China" => {
            g.f(1, 1);
            // standing rules before the yearly announcements took over
            if y <= 2008 { g.fs(&[(4, 4), (6, 9), (9, 15)]); }
            if y <= 2007 { for d in 1..=7 { g.f(5, d).f(10, d); } }
        }
        "CzechRepublic" => {
            g.fs(&[(1, 1), (5, 1), (5, 8), (7, 5), (7, 6), (9, 28), (10, 28), (11, 17), (12, 24), (12, 25), (12, 26)]).easter(EASTER_MON).only(2004, 1, 2).only(2004, 12, 31);
            if y >= 2016 { g.easter(GOOD_FRIDAY); }
        }
        "Denmark" => {
            g.fs(&[(1, 1), (6, 5), (12, 24), (12, 25), (12, 26), (12, 31)]).easter(-3).easter(GOOD_FRIDAY).easter(EASTER_MON).easter(ASCENSION).easter(WHIT_MON);
            if y <= 2023 { g.easter(26); }
            if y >= 2009 { g.easter(40); }
        }
        "Finland" => { g.fs(&[(1, 1), (1, 6), (5, 1), (12, 6), (12, 24), (12, 25), (12, 26)]).easter(GOOD_FRIDAY).easter(EASTER_MON).easter(ASCENSION).onafter(FRI, 6, 18); }
        "France" => { g.fs(&[(1, 1), (5, 1), (5, 8), (7, 14), (8, 15), (11, 1), (11, 11), (12, 25)]).easter(EASTER_MON).easter(ASCENSION).easter(WHIT_MON); }
        "Germany" => { g.fs(&[(1, 1), (5, 1), (10, 3), (12, 24), (12, 25), (12, 26)]).easter(GOOD_FRIDAY).easter(EASTER_MON).easter(ASCENSION).easter(WHIT_MON).easter(CORPUS); }
        "HongKong" => { g.sunmon(1, 1).easter(GOOD_FRIDAY).easter(EASTER_MON).sunmon(5, 1).sunmon(7, 1).sunmon(10, 1).f(12, 25).f(12, 26); }
        "Hungary" => { g.fs(&[(1, 1), (3, 15), (5, 1), (8, 20), (10, 23), (11, 1), (12, 25), (12, 26)]).easter(GOOD_FRIDAY).easter(EASTER_MON).easter(WHIT_MON); }
        "Iceland" => {
            g.fs(&[(1, 1), (5, 1), (6, 17), (12, 24), (12, 25), (12, 26), (12, 31)]).easter(-3).easter(GOOD_FRIDAY).easter(EASTER_MON).onafter(THU, 4, 19).easter(ASCENSION).easter(WHIT_MON).nth(1, MON, 8);
        }
        "India" => { g.fs(&[(1, 26), (5, 1), (8, 15), (10, 2), (12, 25)]).easter(GOOD_FRIDAY); }
        "Indonesia" => { g.fs(&[(1, 1), (5, 1), (6, 1), (8, 17), (12, 25), (12, 26)]).easter(GOOD_FRIDAY).easter(ASCENSION); }
        "Israel" => israel(y, &mut g.s),
        "Italy" => { g.fs(&[(1, 1), (1, 6), (4, 25), (5, 1), (6, 2), (8, 15), (11, 1), (12, 8), (12, 25), (12, 26)]).easter(EASTER_MON); }
        "Mexico" => {
            g.fs(&[(1, 1), (5, 1), (9, 16), (12, 25)]).nth(1, MON, 2).nth(3, MON, 3).nth(3, MON, 11);
            if (y - 2018) % 6 == 0 { g.f(10, 1); }
        }
        "Netherlands" => {
            g.fs(&[(1, 1), (12, 25), (12, 26)]).easter(GOOD_FRIDAY).easter(0).easter(EASTER_MON).easter(ASCENSION).easter(49).easter(WHIT_MON);
            if wd(g.n(4, 27)) == SUN { g.f(4, 26); } else { g.f(4, 27); }
            if y >= 2020 && y % 5 == 0 { g.f(5, 5); }
        }
        "NewZealand" => {
            g.plus2(1, 1).plus2(1, 2).onafter(MON, 1, 19).easter(GOOD_FRIDAY).easter(EASTER_MON).nth(1, MON, 6).nth(4, MON, 10).plus2(12, 25).plus2(12, 26);
            if y > 2013 { g.mon(2, 6).mon(4, 25); } else { g.f(2, 6).f(4, 25); }
        }
        "Singapore" => { g.sunmon(1, 1).easter(GOOD_FRIDAY).sunmon(5, 1).sunmon(8, 9).sunmon(12, 25); }
        "UnitedKingdom" => {
            g.mon(1, 1).easter(GOOD_FRIDAY).easter(EASTER_MON).last(MON, 8).plus2(12, 25).plus2(12, 26);
            if y == 1995 || y == 2020 { g.f(5, 8); } else { g.nth(1, MON, 5); }
            match y { 2002 => { g.f(6, 3).f(6, 4); } 2012 => { g.f(6, 4).f(6, 5); } 2022 => { g.f(6, 2).f(6, 3); } _ => { g.last(MON, 5); } }
            g.only(1999, 12, 31).only(2011, 4, 29).only(2022, 9, 19).only(2023, 5, 8);
        }
        "UnitedStates" => {
            let n = g.n(1, 1); g.s.insert(n); if wd(n) == SUN { g.s.insert(n + 1); }
            if wd(g.n(12, 31)) == FRI { g.f(12, 31); } // New Year's Day of the next year falls on Saturday
            if y >= 1983 { g.nth(3, MON, 1); }
            if y >= 1971 { g.nth(3, MON, 2).last(MON, 5).nth(2, MON, 10); } else { g.us(2, 22).us(5, 30); }
            if (1971..1978).contains(&y) { g.nth(4, MON, 10); } else { g.us(11, 11); }
            if y >= 2022 { g.us(6, 19); }
            g.us(7, 4).nth(1, MON, 9).nth(4, THU, 11).us(12, 25);
        }
        "Switzerland" => { g.fs(&[(1, 1), (1, 2), (5, 1), (8, 1), (12, 24), (12, 25), (12, 26), (12, 31)]).easter(GOOD_FRIDAY).easter(EASTER_MON).easter(ASCENSION).easter(WHIT_MON); }
        m => panic!("no reference for {m}"),
    }
    if let Some(a) = ann.get(market) {
        let (lo, hi) = (days(y, 1, 1), days(y, 12, 31));
        g.s.extend(a.range(lo..=hi).copied());
    }
    g.s
}
