//! D01-D05: calendars, business-day arithmetic, date rolling, day counts and date utilities.
use rqmc::*;
use std::collections::{BTreeMap, BTreeSet};
use time::{Date, Month, Weekday};
use DateRollingConvention as R;
use DayCountConvention as C;
use RustQuant_time::*;

#[path = "../refs/holidays.rs"]
mod holidays;
use holidays as hol;
use holidays::{days, leap, mlen, wd, Day};

const MS: [Market; 29] = [Market::None, Market::Weekends, Market::Argentina, Market::Australia, Market::Austria, Market::Botswana, Market::Brazil, Market::Canada, Market::Chile, Market::China,
    Market::CzechRepublic, Market::Denmark, Market::Finland, Market::France, Market::Germany, Market::HongKong, Market::Hungary, Market::Iceland, Market::India, Market::Indonesia, Market::Israel,
    Market::Italy, Market::Mexico, Market::Netherlands, Market::NewZealand, Market::Singapore, Market::UnitedKingdom, Market::UnitedStates, Market::Switzerland];

fn dt(n: Day) -> Date { Date::from_julian_day((n + 2440588) as i32).unwrap() }
fn nd(d: Date) -> Day { d.to_julian_day() as i64 - 2440588 }
fn ymd(n: Day) -> (i64, i64, i64) {
    // civil-from-days (own arithmetic, checked against `days`)
    let z = n + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + (m <= 2) as i64, m, d)
}
fn iso(n: Day) -> String { let (y, m, d) = ymd(n); format!("{y}-{m:02}-{d:02}") }
fn mon(m: i64) -> Month { Month::try_from(m as u8).unwrap() }
const WDS: [Weekday; 7] = [Weekday::Monday, Weekday::Tuesday, Weekday::Wednesday, Weekday::Thursday, Weekday::Friday, Weekday::Saturday, Weekday::Sunday];

/// Business-day table of one market over [lo, hi].
struct Tab { lo: Day, biz: Vec<bool>, cum: Vec<i64> }
impl Tab {
    fn new(m: usize, y0: i64, y1: i64, ann: &BTreeMap<String, BTreeSet<Day>>, extra: &BTreeSet<Day>) -> Tab {
        let lo = days(y0, 1, 1);
        let hi = days(y1, 12, 31);
        let mut h = BTreeSet::new();
        for y in y0..=y1 { h.extend(hol::holidays(hol::MARKETS[m], y, ann)); }
        let biz: Vec<bool> = (lo..=hi).map(|n| !hol::is_weekend(hol::MARKETS[m], n) && !h.contains(&n) && !extra.contains(&n)).collect();
        let mut cum = vec![0];
        for b in &biz { cum.push(cum.last().unwrap() + *b as i64); }
        Tab { lo, biz, cum }
    }
    fn b(&self, n: Day) -> bool { self.biz[(n - self.lo) as usize] }
    fn count(&self, a: Day, b: Day) -> i64 { if b < a { 0 } else { self.cum[(b - self.lo) as usize + 1] - self.cum[(a - self.lo) as usize] } }
    fn next(&self, mut n: Day) -> Day { while !self.b(n) { n += 1; } n }
    fn prev(&self, mut n: Day) -> Day { while !self.b(n) { n -= 1; } n }
    fn roll(&self, n: Day, c: R) -> Day {
        let (f, p) = (self.next(n), self.prev(n));
        let same = |x: Day| ymd(x).1 == ymd(n).1;
        match c {
            R::Actual => n,
            R::Following | R::ModifiedRolling => f,
            R::Preceding => p,
            R::ModifiedFollowing => if same(f) { f } else { p },
            R::ModifiedPreceding => if same(p) { p } else { f },
        }
    }
}
const CONVS: [R; 6] = [R::Actual, R::Following, R::ModifiedFollowing, R::Preceding, R::ModifiedPreceding, R::ModifiedRolling];

fn d01(ck: &Ck) {
    let ann = hol::announced();
    ck.assume("announced (lunar, Islamic, Hindu, bridging) dates are frozen from the repository's own tables; rule-based holidays come from an independent generator");
    ck.par(MS.len() * 299, |w, i| {
        let (mi, y) = (i / 299, 1901 + (i % 299) as i64);
        let c = Calendar::new(MS[mi]);
        w.case("market-year", || format!("{} {y}", hol::MARKETS[mi]), |w| {
            let want = hol::holidays(hol::MARKETS[mi], y, &ann);
            let mut hs = vec![];
            for n in days(y, 1, 1)..=days(y, 12, 31) {
                let d = dt(n);
                let (hw, ww) = (want.contains(&n), hol::is_weekend(hol::MARKETS[mi], n));
                let (ha, wa, ba) = (c.is_holiday(d), c.is_weekend(d), c.is_business_day(d));
                ensure!(ha == hw, "{}: is_holiday={ha}, the market's rules give {hw}", iso(n));
                ensure!(wa == ww, "{}: is_weekend={wa}, expected {ww}", iso(n));
                ensure!(ba == !(hw || ww), "{}: is_business_day={ba}, expected {}", iso(n), !(hw || ww));
                w.op();
                if ha { hs.push(n - days(y, 1, 1)); }
            }
            w.state(h(&(mi, &hs)));
            w.outcome(h(&hs));
            Ok(())
        });
    });
    // histories of user-added holidays, on top of every market
    let pool: Vec<Day> = vec![days(2024, 7, 3), days(2024, 7, 6), days(2024, 12, 25), days(2024, 7, 4)];
    let depth = ck.pick(5, 6);
    ck.par(MS.len(), |w, mi| {
        for len in 0..=depth {
            words(8, len, &mut |word| {
                w.case("added-holidays", || format!("{} {word:?}", hol::MARKETS[mi]), |w| {
                    let mut c = Calendar::new(MS[mi]);
                    let base = Calendar::new(MS[mi]);
                    let mut model: BTreeSet<Day> = BTreeSet::new();
                    for &o in word {
                        let p = pool[o % 4];
                        if o < 4 { c.add_holiday(dt(p)); model.insert(p); } else { c.add_holidays(vec![dt(p), dt(pool[(o + 1) % 4])]); model.insert(p); model.insert(pool[(o + 1) % 4]); }
                        w.op();
                        w.state(h(&(mi, &model)));
                        let got: BTreeSet<Day> = c.extra_holidays().iter().map(|d| nd(*d)).collect();
                        ensure!(got == model, "extra holidays {:?} expected {:?}", got, model);
                        for n in days(2024, 6, 28)..=days(2024, 7, 12) {
                            let hw = base.is_holiday(dt(n)) || model.contains(&n);
                            ensure!(c.is_holiday(dt(n)) == hw, "{} is_holiday={} expected {hw}", iso(n), !hw);
                            ensure!(c.is_business_day(dt(n)) == !(hw || c.is_weekend(dt(n))), "{} business day wrong", iso(n));
                        }
                        let k = c.clone();
                        ensure!(k.extra_holidays() == c.extra_holidays(), "clone lost holidays");
                    }
                    Ok(())
                });
            });
        }
    });
}

fn d02(ck: &Ck) {
    let ann = hol::announced();
    let none = BTreeSet::new();
    // every pair (a,b) inside windows that straddle year ends, leap days and month ends
    let wins: Vec<(Day, i64)> = ck.pick(vec![(days(2023, 12, 1), 100), (days(2024, 2, 1), 100), (days(2000, 2, 10), 60), (days(2010, 12, 10), 60)],
        vec![(days(2023, 6, 1), 700), (days(2023, 12, 1), 100), (days(2024, 2, 1), 100), (days(2000, 2, 10), 60), (days(2010, 12, 10), 60), (days(2020, 3, 20), 100), (days(1999, 12, 1), 60)]);
    ck.par(MS.len() * wins.len(), |w, i| {
        let (mi, (s, len)) = (i / wins.len(), wins[i % wins.len()]);
        let t = Tab::new(mi, 1990, 2030, &ann, &none);
        let c = Calendar::new(MS[mi]);
        for a in s..s + len {
            w.case("pairs", || format!("{} from {} over {len} days", hol::MARKETS[mi], iso(a)), |w| {
                let mut prev: Option<i64> = None;
                for b in s - 3..s + len {
                    let got = c.business_day_count(dt(a), dt(b));
                    let want = t.count(a, b);
                    ensure!(got == want, "business_day_count({}, {}) = {got}, expected {want}", iso(a), iso(b));
                    let cd = c.calendar_day_count(dt(a), dt(b));
                    ensure!(cd == b - a, "calendar_day_count({}, {}) = {cd}, expected {}", iso(a), iso(b), b - a);
                    if let Some(p) = prev { ensure!(got >= p && got <= p + 1, "count is not monotone in the end date at {}", iso(b)); }
                    prev = Some(got);
                    w.ops(2);
                    w.outcome(h(&(got, cd)));
                    w.state(h(&(mi, a, b)));
                }
                Ok(())
            });
        }
        // long spans: every start of a month against horizons
        for y in [1996i64, 2007, 2019] { for m in 1..=12 {
            for span in [365i64, 366, 1461, 3652] {
                let a = days(y, m, 1); let b = a + span;
                w.case("long", || format!("{} {} +{span}", hol::MARKETS[mi], iso(a)), |w| {
                    w.op();
                    let (got, want) = (c.business_day_count(dt(a), dt(b)), t.count(a, b));
                    ensure!(got == want, "business_day_count = {got}, expected {want}");
                    w.state(h(&(mi, a, b)));
                    Ok(())
                });
            }
        } }
        // horizons of decades to centuries, and lists of hundreds to thousands of dates
        if i % wins.len() == 0 {
            let far = Tab::new(mi, 1960, 2190, &ann, &none);
            for (y, m, d) in [(1960i64, 1, 1), (1987, 6, 30), (1999, 12, 31), (2024, 2, 29)] { for span in [5479i64, 10_958, 32_768, 36_525, 60_000] {
                let a = days(y, m, d); let b = a + span;
                if b > days(2190, 12, 31) { continue; }
                w.case("decades", || format!("{} {} +{span}", hol::MARKETS[mi], iso(a)), |w| {
                    w.ops(3);
                    let (got, want) = (c.business_day_count(dt(a), dt(b)), far.count(a, b));
                    ensure!(got == want, "business_day_count = {got}, expected {want}");
                    ensure!(c.calendar_day_count(dt(a), dt(b)) == span && c.calendar_day_count(dt(b), dt(a)) == -span, "calendar_day_count of {span} days");
                    w.state(h(&(mi, a, b)));
                    Ok(())
                });
            } }
            for (len, step) in [(257i64, 7i64), (500, 30), (1025, 3), (5000, 1), (40, 365), (12, 3000)] {
                w.case("lists-huge", || format!("{} {len} dates every {step} days", hol::MARKETS[mi]), |w| {
                    w.ops(2);
                    let x: Vec<Day> = (0..len).map(|k| days(2019, 12, 30) + k * step).collect();
                    let v: Vec<Date> = x.iter().map(|k| dt(*k)).collect();
                    let (cg, bg) = (c.calendar_day_counts(v.clone()), c.business_day_counts(v));
                    ensure!(cg.len() == x.len() - 1 && cg.iter().all(|d| *d == step), "calendar_day_counts over {len} dates every {step} days");
                    let bw: Vec<i64> = x.windows(2).map(|p| far.count(p[0], p[1])).collect();
                    ensure!(bg.len() == bw.len(), "{} counts for {len} dates", bg.len());
                    for k in 0..bw.len() { ensure!(bg[k] == bw[k], "business_day_counts[{k}] = {}, expected {}", bg[k], bw[k]); }
                    w.state(h(&(mi, len, step)));
                    Ok(())
                });
            }
        }
        // lists: every word of dates up to length 4 (repeats and descents included)
        let pool = [days(2023, 12, 22), days(2023, 12, 31), days(2024, 1, 1), days(2024, 1, 5), days(2024, 3, 1)];
        for len in 0..=ck.pick(5, 6) {
            words(pool.len(), len, &mut |x| {
                w.case("lists", || format!("{} {x:?}", hol::MARKETS[mi]), |w| {
                    let v: Vec<Date> = x.iter().map(|&k| dt(pool[k])).collect();
                    let cw: Vec<i64> = x.windows(2).map(|p| pool[p[1]] - pool[p[0]]).collect();
                    let bw: Vec<i64> = x.windows(2).map(|p| t.count(pool[p[0]], pool[p[1]])).collect();
                    let (cg, bg) = (c.calendar_day_counts(v.clone()), c.business_day_counts(v));
                    w.ops(2);
                    ensure!(cg == cw, "calendar_day_counts {cg:?} expected {cw:?}");
                    ensure!(bg == bw, "business_day_counts {bg:?} expected {bw:?}");
                    w.state(h(&x.to_vec()));
                    Ok(())
                });
            });
        }
        // long lists: every length to 60 (thorough: 200), rising and falling
        for len in 0..=ck.pick(60usize, 200) { for step in [1i64, 5] { for up in [true, false] {
            w.case("lists-long", || format!("{} {len} dates every {step} days, rising {up}", hol::MARKETS[mi]), |w| {
                let mut x: Vec<Day> = (0..len as i64).map(|k| days(2023, 1, 9) + k * step).collect();
                if !up { x.reverse() }
                let v: Vec<Date> = x.iter().map(|k| dt(*k)).collect();
                let cw: Vec<i64> = x.windows(2).map(|p| p[1] - p[0]).collect();
                let bw: Vec<i64> = x.windows(2).map(|p| t.count(p[0], p[1])).collect();
                let (cg, bg) = (c.calendar_day_counts(v.clone()), c.business_day_counts(v));
                w.ops(2);
                ensure!(cg == cw, "calendar_day_counts {cg:?} expected {cw:?}");
                ensure!(bg == bw, "business_day_counts {bg:?} expected {bw:?}");
                w.state(h(&(mi, len, step, up)));
                Ok(())
            });
        } } }
    });
    // user-added holidays: every subset of a 9-day window on the null calendar and on a real one
    for mi in [0usize, 27] {
        let s = days(2024, 7, 1);
        ck.par(512, |w, mask| {
            w.case("subsets", || format!("{} mask {mask:09b}", hol::MARKETS[mi]), |w| {
                let mut c = Calendar::new(MS[mi]);
                let ex: BTreeSet<Day> = (0..9).filter(|k| mask >> k & 1 == 1).map(|k| s + k).collect();
                c.add_holidays(ex.iter().map(|n| dt(*n)).collect());
                let t = Tab::new(mi, 2024, 2024, &ann, &ex);
                for a in s - 1..s + 10 { for b in a - 1..s + 10 {
                    w.op();
                    let (got, want) = (c.business_day_count(dt(a), dt(b)), t.count(a, b));
                    ensure!(got == want, "business_day_count({}, {}) = {got}, expected {want}", iso(a), iso(b));
                } }
                w.state(h(&(mi, mask)));
                Ok(())
            });
        });
    }
}

fn check_roll(w: &mut W, c: &Calendar, t: &Tab, n: Day) -> Res {
    for conv in CONVS {
        let got = nd(c.roll_date(dt(n), conv));
        let want = t.roll(n, conv);
        w.op();
        ensure!(got == want, "roll_date({}, {conv:?}) = {}, expected {}", iso(n), iso(got), iso(want));
        if conv != R::Actual {
            ensure!(t.b(got), "{conv:?} rolled {} onto a non-business day", iso(n));
            ensure!(!t.b(n) || got == n, "{conv:?} moved the business day {}", iso(n));
            ensure!(nd(c.roll_date(dt(got), conv)) == got, "{conv:?} is not idempotent at {}", iso(n));
        }
        w.outcome(h(&(conv as u8, got - n)));
    }
    ensure!(nd(next_business_day(dt(n), c)) == t.next(n), "next_business_day({})", iso(n));
    ensure!(nd(previous_business_day(dt(n), c)) == t.prev(n), "previous_business_day({})", iso(n));
    Ok(())
}
fn d03(ck: &Ck) {
    let ann = hol::announced();
    let none = BTreeSet::new();
    let years: Vec<i64> = (1902..=2198).collect();
    ck.par(MS.len() * years.len(), |w, i| {
        let (mi, y) = (i / years.len(), years[i % years.len()]);
        let t = Tab::new(mi, y - 1, y + 1, &ann, &none);
        let c = Calendar::new(MS[mi]);
        w.case("market-year", || format!("{} {y}", hol::MARKETS[mi]), |w| {
            for n in days(y, 1, 1)..=days(y, 12, 31) {
                check_roll(w, &c, &t, n)?;
                w.state(h(&(mi, t.b(n), t.next(n) - n, n - t.prev(n), ymd(t.next(n)).1 != ymd(n).1, ymd(t.prev(n)).1 != ymd(n).1)));
            }
            Ok(())
        });
    });
    // every pattern of closures in a window around a month end / year end, on the null calendar
    let width = ck.pick(18usize, 22);
    for s in [days(2024, 2, 24), days(2023, 12, 26), days(2025, 4, 25)] {
        ck.par(1 << width, |w, mask| {
            w.case("closures", || format!("from {} mask {mask:015b}", iso(s)), |w| {
                let mut c = Calendar::new(Market::None);
                let ex: BTreeSet<Day> = (0..width).filter(|k| mask >> k & 1 == 1).map(|k| s + k as i64).collect();
                c.add_holidays(ex.iter().map(|n| dt(*n)).collect());
                let lo = s - 8;
                let biz: Vec<bool> = (lo..s + width as i64 + 8).map(|n| wd(n) < 5 && !ex.contains(&n)).collect();
                let t = Tab { lo, biz, cum: vec![] };
                for k in 0..width as i64 { check_roll(w, &c, &t, s + k)?; }
                let all: Vec<Date> = (0..width as i64).rev().map(|k| dt(s + k)).collect();
                for conv in CONVS {
                    let got: Vec<Day> = c.roll_dates(all.clone(), conv).into_iter().map(nd).collect();
                    let want: Vec<Day> = all.iter().map(|d| t.roll(nd(*d), conv)).collect();
                    ensure!(got == want, "roll_dates {conv:?} differs");
                    w.op();
                }
                w.state(h(&(s, mask)));
                Ok(())
            });
        });
    }
}

// ---- day counts ------------------------------------------------------------------------------------------
/// number of 29 Februaries n with a < n <= b
fn leap_days(a: Day, b: Day) -> i64 {
    let mut k = 0;
    for y in ymd(a).0..=ymd(b).0 { if leap(y) { let f = days(y, 2, 29); if a < f && f <= b { k += 1; } } }
    k
}
fn eof(n: Day) -> bool { let (y, m, d) = ymd(n); m == 2 && d == mlen(y, 2) }
/// Published definitions; several values where the published texts leave a choice.
fn want_dcf(c: C, a: Day, b: Day) -> Vec<f64> {
    let act = (b - a) as f64;
    let (y1, m1, d1) = ymd(a);
    let (y2, m2, d2) = ymd(b);
    let t360 = |d1: i64, y2: i64, m2: i64, d2: i64| (360 * (y2 - y1) + 30 * (m2 - m1) + d2 - d1) as f64;
    let ylen = |y: i64| 365.0 + leap(y) as i64 as f64;
    match c {
        C::One_One => vec![1.0],
        C::Actual_360 => vec![act / 360.0],
        C::Actual_364 => vec![act / 364.0],
        C::Actual_366 => vec![act / 366.0],
        C::Actual_365_25 => vec![act / 365.25],
        C::Actual_365_Fixed => vec![act / 365.0],
        C::Actual_365_Actual => vec![act / if leap_days(a, b) > 0 { 366.0 } else { 365.0 }],
        // two published readings: annual coupons (leap day contained) and others (end date in a leap year)
        C::Actual_365_Leap => vec![act / if leap_days(a, b) > 0 { 366.0 } else { 365.0 }, act / ylen(y2)],
        C::No_Leap_360 => vec![(act - leap_days(a, b) as f64) / 360.0],
        C::No_Leap_365 => vec![(act - leap_days(a, b) as f64) / 365.0],
        C::Actual_Actual_ISDA => {
            if y1 == y2 { vec![act / ylen(y1)] }
            else { vec![(days(y1 + 1, 1, 1) - a) as f64 / ylen(y1) + (y2 - y1 - 1) as f64 + (b - days(y2, 1, 1)) as f64 / ylen(y2)] }
        }
        C::Actual_Actual_AFB => {
            // whole years counted back from the end date, remainder over 365 or 366
            let eom = eof(b);
            let back = |k: i64| { let y = y2 - k; let d = if m2 == 2 && (eom || d2 > mlen(y, 2)) { mlen(y, 2) } else { d2 }; days(y, m2, d) };
            let mut k = 0;
            while back(k + 1) >= a { k += 1; }
            let stub = back(k);
            let leaps = leap_days(a - 1, stub - 1);
            vec![k as f64 + (stub - a) as f64 / if leaps > 0 { 366.0 } else { 365.0 }]
        }
        C::Actual_Actual_ICMA => vec![],
        C::Thirty_360_ISDA => { let e1 = d1.min(30); let e2 = if d2 == 31 && e1 == 30 { 30 } else { d2 }; vec![t360(e1, y2, m2, e2) / 360.0] }
        C::Thirty_E_360 => vec![t360(d1.min(30), y2, m2, d2.min(30)) / 360.0],
        C::Thirty_E_360_ISDA => { let e1 = if eof(a) { 30 } else { d1.min(30) }; let e2 = if eof(b) { 30 } else { d2.min(30) }; vec![t360(e1, y2, m2, e2) / 360.0] }
        C::Thirty_E_365 => { let e1 = if eof(a) { 30 } else { d1.min(30) }; let e2 = if eof(b) { 30 } else { d2.min(30) }; vec![t360(e1, y2, m2, e2) / 365.0] }
        C::Thirty_E_Plus_360 => { let (y, m, d) = if d2 == 31 { ymd(b + 1) } else { (y2, m2, d2) }; vec![t360(d1.min(30), y, m, d) / 360.0] }
        C::Thirty_U_360 => {
            let (mut e1, mut e2) = (d1, d2);
            if eof(a) && eof(b) { e2 = 30; }
            if eof(a) { e1 = 30; }
            if e2 == 31 && e1 >= 30 { e2 = 30; }
            if e1 == 31 { e1 = 30; }
            vec![t360(e1, y2, m2, e2) / 360.0]
        }
    }
}
const DCS: [C; 18] = [C::One_One, C::Actual_360, C::Actual_364, C::Actual_366, C::Actual_365_25, C::Actual_365_Actual, C::Actual_365_Fixed, C::Actual_365_Leap, C::Actual_Actual_AFB,
    C::Actual_Actual_ISDA, C::No_Leap_360, C::No_Leap_365, C::Thirty_360_ISDA, C::Thirty_E_360, C::Thirty_E_360_ISDA, C::Thirty_E_365, C::Thirty_E_Plus_360, C::Thirty_U_360];
fn d04(ck: &Ck) {
    // starts: every day of the window; ends: every day of the following span
    let wins: Vec<(Day, i64, i64)> = ck.pick(
        vec![(days(1995, 1, 1), 1900, 3700), (days(1895, 1, 1), 1900, 4000), (days(2095, 12, 1), 900, 2600), (days(2022, 12, 1), 800, 11000)],
        vec![(days(1990, 1, 1), 5600, 7500), (days(1890, 1, 1), 5000, 7500), (days(2090, 12, 1), 5000, 4000), (days(2022, 12, 1), 1600, 24000), (days(1580, 1, 1), 9000, 1500)]);
    for (s, n, span) in wins {
        ck.par(n as usize, |w, i| {
            let a = s + i as i64;
            w.case("pairs", || format!("start {} ends +0..{span}", iso(a)), |w| {
                for b in a..a + span {
                    let (da, db) = (dt(a), dt(b));
                    for c in DCS {
                        let got = c.day_count_factor(da, db);
                        let want = want_dcf(c, a, b);
                        ensure!(want.iter().any(|x| close(got, *x, 1e-12, 1e-12)), "{c:?}({}, {}) = {got}, expected {want:?}", iso(a), iso(b));
                    }
                    w.ops(DCS.len() as u64);
                }
                let (y, m, d) = ymd(a);
                w.state(h(&(y, m, d)));
                Ok(())
            });
        });
    }
    // reversed dates: the plain act/N conventions are signed
    ck.par(400, |w, i| {
        let a = days(2023, 6, 1) + i as i64;
        w.case("reversed", || format!("start {}", iso(a)), |w| {
            for b in a - 800..a {
                for c in [C::Actual_360, C::Actual_364, C::Actual_366, C::Actual_365_25, C::Actual_365_Fixed, C::No_Leap_365, C::No_Leap_360] {
                    let (x, y) = (c.day_count_factor(dt(a), dt(b)), c.day_count_factor(dt(b), dt(a)));
                    ensure!(close(x, -y, 1e-12, 1e-12), "{c:?}({}, {}) = {x} but swapped gives {y}", iso(a), iso(b));
                    w.op();
                }
            }
            w.state(h(&a));
            Ok(())
        });
    });
    // the calendar front-end delegates, for single pairs and for lists
    let pool = [days(2023, 12, 31), days(2024, 2, 28), days(2024, 2, 29), days(2024, 8, 31), days(2026, 1, 30)];
    ck.par(MS.len(), |w, mi| {
        let c = Calendar::new(MS[mi]);
        for len in 0..=3 {
            words(pool.len(), len, &mut |x| {
                if x.windows(2).any(|p| p[0] > p[1]) { return; }
                w.case("calendar-lists", || format!("{} {x:?}", hol::MARKETS[mi]), |w| {
                    let v: Vec<Date> = x.iter().map(|&k| dt(pool[k])).collect();
                    for dc in DCS {
                        let got = c.day_count_factors(v.clone(), dc);
                        ensure!(got.len() == x.len().saturating_sub(1), "{} factors for {} dates", got.len(), x.len());
                        for (k, g) in got.iter().enumerate() {
                            let want = want_dcf(dc, pool[x[k]], pool[x[k + 1]]);
                            ensure!(want.iter().any(|y| close(*g, *y, 1e-12, 1e-12)), "{dc:?} factor {k} = {g}, expected {want:?}");
                            w.op();
                        }
                    }
                    w.state(h(&x.to_vec()));
                    Ok(())
                });
            });
        }
    });
}

type F = fn(i32, Month) -> Result<Date, time::Error>;
fn d05(ck: &Ck) {
    let firsts: [F; 7] = [get_first_monday_of_month, get_first_tuesday_of_month, get_first_wednesday_of_month, get_first_thursday_of_month, get_first_friday_of_month, get_first_saturday_of_month, get_first_sunday_of_month];
    let lasts: [F; 7] = [get_last_monday_of_month, get_last_tuesday_of_month, get_last_wednesday_of_month, get_last_thursday_of_month, get_last_friday_of_month, get_last_saturday_of_month, get_last_sunday_of_month];
    let (y0, y1) = (1i64, 9998i64);
    ck.par((y1 - y0 + 1) as usize, |w, i| {
        let y = y0 + i as i64;
        for m in 1..=12i64 {
            w.case("months", || format!("{y}-{m:02}"), |w| {
                let (f, l) = (days(y, m, 1), days(y, m, mlen(y, m)));
                ensure!(ymd(f) == (y, m, 1), "own calendar arithmetic");
                for k in 0..7i64 {
                    let ef = f + (k - wd(f)).rem_euclid(7);
                    let el = l - (wd(l) - k).rem_euclid(7);
                    let (gf, gl) = (firsts[k as usize](y as i32, mon(m)), lasts[k as usize](y as i32, mon(m)));
                    ensure!(gf.as_ref().map(|d| nd(*d)).ok() == Some(ef), "first {:?} of the month = {gf:?}, expected {}", WDS[k as usize], iso(ef));
                    ensure!(gl.as_ref().map(|d| nd(*d)).ok() == Some(el), "last {:?} of the month = {gl:?}, expected {}", WDS[k as usize], iso(el));
                    w.ops(2);
                }
                let (a, b) = (get_first_day_of_month(y as i32, mon(m)), get_last_day_of_month(y as i32, mon(m)));
                ensure!(a.as_ref().ok() == Some(&WDS[wd(f) as usize]), "weekday of the first day = {a:?}");
                ensure!(b.as_ref().ok() == Some(&WDS[wd(l) as usize]), "weekday of the last day = {b:?}, expected {:?}", WDS[wd(l) as usize]);
                for n in f..=l {
                    let d = dt(n);
                    ensure!(is_first_day_of_month(d) == (n == f), "is_first_day_of_month({})", iso(n));
                    ensure!(is_last_day_of_month(d) == (n == l), "is_last_day_of_month({})", iso(n));
                    ensure!(is_last_day_of_february(d) == (n == l && m == 2), "is_last_day_of_february({})", iso(n));
                    ensure!(is_weekend(d) == (wd(n) >= 5) && is_weekday(d) == (wd(n) < 5), "is_weekend({})", iso(n));
                    w.ops(4);
                    if (1901..=2199).contains(&y) {
                        for orth in [false, true] {
                            let e = if orth { hol::orthodox_easter_sunday(y) } else { hol::easter_sunday(y) } + 1;
                            let want = (y as i32, mon(m), (n - f + 1) as u8, WDS[wd(n) as usize], (n - days(y, 1, 1) + 1) as u16, (e - days(y, 1, 1) + 1) as u16);
                            let got = unpack_date(d, orth);
                            ensure!(got == want, "unpack_date({}, orthodox={orth}) = {got:?}, expected {want:?}", iso(n));
                            w.op();
                        }
                    }
                }
                w.state(h(&(wd(f), mlen(y, m))));
                w.outcome(h(&(wd(f), wd(l))));
                Ok(())
            });
        }
    });
    // ranges of years and days
    let pts: Vec<Day> = { let mut v = vec![]; for y in [1899i64, 1900, 1901, 1999, 2000, 2001, 2003, 2004, 2005, 2023, 2024, 2025, 2100] { for (m, d) in [(1, 1), (2, 28), (3, 1), (7, 15), (12, 31)] { v.push(days(y, m, d)); } if leap(y) { v.push(days(y, 2, 29)); } } v };
    ck.par(pts.len(), |w, i| {
        for &b in &pts {
            let a = pts[i];
            w.case("ranges", || format!("{} {}", iso(a), iso(b)), |w| {
                let (da, db) = (dt(a), dt(b));
                let ys: Vec<i64> = (ymd(a).0..=ymd(b).0).collect();
                ensure!(get_years_in_range(da, db).iter().map(|y| *y as i64).collect::<Vec<_>>() == ys, "get_years_in_range");
                ensure!(get_days_in_years_in_range(da, db).iter().map(|y| *y as i64).collect::<Vec<_>>() == ys.iter().map(|y| 365 + leap(*y) as i64).collect::<Vec<_>>(), "get_days_in_years_in_range");
                ensure!(contains_leap_year(da, db) == ys.iter().any(|y| leap(*y)), "contains_leap_year");
                ensure!(leap_year_count(da, db) == ys.iter().filter(|y| leap(**y)).count() as i64, "leap_year_count = {}", leap_year_count(da, db));
                ensure!(days_between(da, db) == (b - a).abs(), "days_between = {}", days_between(da, db));
                ensure!(close(year_fraction(da, db), (b - a).abs() as f64 / 365.25, 1e-12, 1e-12), "year_fraction = {}", year_fraction(da, db));
                w.ops(6);
                if b - a < 60000 {
                    let s = date_sequence(da, db);
                    ensure!(s.iter().map(|d| nd(*d)).eq(a..=b), "date_sequence has {} dates", s.len());
                    w.op();
                }
                w.state(h(&(a, b)));
                Ok(())
            });
        }
    });
    // ranges between years: every starting year x every short gap, every pair of years near 1900..2400, and some long gaps
    let ends: [(i64, i64); 4] = [(1, 1), (2, 28), (3, 1), (12, 31)];
    let range = |w: &mut W, y: i64, z: i64| {
        w.case("year-ranges", || format!("{y}..{z}"), |w| {
            let ys: Vec<i64> = (y..=z).collect();
            let n = ys.iter().filter(|y| leap(**y)).count() as i64;
            for (m, d) in ends { for (m2, d2) in ends {
                let (a, b) = (days(y, m, d), days(z, m2, d2));
                if a > b { continue; }
                let (da, db) = (dt(a), dt(b));
                ensure!(contains_leap_year(da, db) == (n > 0), "contains_leap_year({}, {}) = {}", iso(a), iso(b), n == 0);
                ensure!(leap_year_count(da, db) == n, "leap_year_count({}, {}) = {}, expected {n}", iso(a), iso(b), leap_year_count(da, db));
                ensure!(days_between(da, db) == b - a, "days_between({}, {}) = {}", iso(a), iso(b), days_between(da, db));
                ensure!(close(year_fraction(da, db), (b - a) as f64 / 365.25, 1e-12, 1e-12), "year_fraction({}, {}) = {}", iso(a), iso(b), year_fraction(da, db));
                w.ops(4);
            } }
            let (da, db) = (dt(days(y, 5, 20)), dt(days(z, 7, 9)));
            ensure!(get_years_in_range(da, db).iter().map(|y| *y as i64).eq(ys.iter().copied()), "get_years_in_range");
            ensure!(get_days_in_years_in_range(da, db).iter().map(|y| *y as i64).eq(ys.iter().map(|y| 365 + leap(*y) as i64)), "get_days_in_years_in_range");
            w.ops(2);
            w.state(h(&(y, z)));
            Ok(())
        });
    };
    ck.par(9999, |w, i| {
        let y = i as i64 + 1;
        for g in (0..=12).chain([27, 28, 50, 99, 100, 101, 396, 400]) { if y + g <= 9999 { range(w, y, y + g) } }
        if i % 50 == 0 { for g in [1000, 5000, 9000] { if y + g <= 9999 { range(w, y, y + g) } } }
        if (1890..=2410).contains(&y) { for z in y + 13..=ck.pick(y + 210, 2410).min(2410) { range(w, y, z) } }
    });
    // frequencies: every gap
    ck.par(ck.pick(400, 4000), |w, i| {
        let a = days(2023, 1, 1) + 37 * i as i64;
        for g in -3i64..=800 {
            w.case("frequency", || format!("{} +{g}", iso(a)), |w| {
                w.op();
                let got = refuses(|| Frequency::infer_frequency(dt(a), dt(a + g))).ok();
                let core = match g { 1 => Some(Frequency::Daily), 7 => Some(Frequency::Weekly), 14 => Some(Frequency::BiWeekly), 15 => Some(Frequency::SemiMonthly), 28..=31 => Some(Frequency::Monthly),
                    45 | 46 => Some(Frequency::SemiQuarterly), 91 | 92 => Some(Frequency::Quarterly), 121 | 122 => Some(Frequency::TriAnnually), 182 | 183 => Some(Frequency::SemiAnnually), 365 | 366 => Some(Frequency::Annually), _ => None };
                let near = match g { 89 | 90 => Some(Frequency::Quarterly), 44 | 47 => Some(Frequency::SemiQuarterly), 120 | 123 => Some(Frequency::TriAnnually), 181 | 184 => Some(Frequency::SemiAnnually), _ => None };
                ensure!(got == core || (got.is_some() && got == near), "gap of {g} days inferred as {got:?}, expected {core:?}");
                w.outcome(h(&got.map(|f| f as isize)));
                w.state(h(&g));
                Ok(())
            });
        }
    });
    ck.seq(|w| for (f, n) in [(Frequency::Daily, 252), (Frequency::Weekly, 52), (Frequency::BiWeekly, 26), (Frequency::SemiMonthly, 24), (Frequency::Monthly, 12), (Frequency::SemiQuarterly, 8), (Frequency::Quarterly, 4), (Frequency::TriAnnually, 3), (Frequency::SemiAnnually, 2), (Frequency::Annually, 1), (Frequency::Zero, 0)] {
        w.case("frequency-numbers", || format!("{f:?}"), |w| { w.op(); ensure!(f as isize == n, "{f:?} is {} per year, expected {n}", f as isize); Ok(()) });
    });
    // schedules from dates: every word of dates x roll convention x a few day counts x markets
    let ann = hol::announced();
    let pool = [days(2024, 3, 29), days(2024, 3, 31), days(2024, 6, 1), days(2024, 8, 31), days(2024, 12, 25)];
    ck.par(MS.len(), |w, mi| {
        let c = Calendar::new(MS[mi]);
        let t = Tab::new(mi, 2023, 2026, &ann, &BTreeSet::new());
        for len in 1..=ck.pick(4, 5) {
            words(pool.len(), len, &mut |x| {
                if x.windows(2).any(|p| p[0] > p[1]) { return; }
                w.case("schedule", || format!("{} {x:?}", hol::MARKETS[mi]), |w| {
                    for conv in CONVS { for dc in [C::Actual_365_Fixed, C::Actual_360, C::Thirty_E_360] {
                        let t0 = today();
                        let s = c.generate_schedule_from_dates(x.iter().map(|k| dt(pool[*k])).collect(), conv, dc);
                        let t1 = today();
                        w.op();
                        let rolled: Vec<Day> = x.iter().map(|k| t.roll(pool[*k], conv)).collect();
                        ensure!(s.dates.iter().map(|d| nd(*d)).eq(rolled.iter().copied()), "{conv:?}: dates {:?}", s.dates);
                        ensure!(s.date_rolling_convention == conv && format!("{:?}", s.day_counting_convention) == format!("{dc:?}"), "conventions not recorded");
                        ensure!(s.day_count_factors.len() == x.len(), "{} factors for {} dates", s.day_count_factors.len(), x.len());
                        let f0 = s.day_count_factors[0];
                        ensure!([t0, t1].iter().any(|t| close(f0, dc.day_count_factor(*t, dt(rolled[0])), 1e-12, 1e-12)), "first factor {f0} does not run from today to the first date");
                        for k in 1..rolled.len() {
                            // rolling may reorder neighbours only into equality, never past each other
                            let want = if rolled[k] >= rolled[k - 1] { want_dcf(dc, rolled[k - 1], rolled[k])[0] } else { dc.day_count_factor(dt(rolled[k - 1]), dt(rolled[k])) };
                            ensure!(close(s.day_count_factors[k], want, 1e-12, 1e-12), "factor {k} = {}, expected {want}", s.day_count_factors[k]);
                        }
                        w.state(h(&(mi, x.to_vec(), conv as u8)));
                    } }
                    Ok(())
                });
            });
        }
        // long schedules: every length to 40 (thorough: 130) of evenly spaced dates, for several spacings
        let t = Tab::new(mi, 2023, 2066, &ann, &BTreeSet::new());
        for len in (1..=ck.pick(40usize, 130)).chain([257, 360, 513, 1100, 5000]) { for step in [1i64, 3, 7, 30, 91] {
            if (len as i64) * step > 15_000 { continue; }
            w.case("schedule-long", || format!("{} {len} dates every {step} days", hol::MARKETS[mi]), |w| {
                let x: Vec<Day> = (0..len as i64).map(|k| days(2023, 1, 9) + k * step).collect();
                for conv in CONVS {
                    let dc = C::Actual_365_Fixed;
                    let s = c.generate_schedule_from_dates(x.iter().map(|k| dt(*k)).collect(), conv, dc);
                    w.op();
                    let rolled: Vec<Day> = x.iter().map(|k| t.roll(*k, conv)).collect();
                    ensure!(s.dates.iter().map(|d| nd(*d)).eq(rolled.iter().copied()), "{conv:?}: dates {:?}", s.dates);
                    ensure!(s.day_count_factors.len() == len, "{} factors for {len} dates", s.day_count_factors.len());
                    for k in 1..len {
                        let want = (rolled[k] - rolled[k - 1]) as f64 / 365.0;
                        ensure!(close(s.day_count_factors[k], want, 1e-12, 1e-12), "{conv:?}: factor {k} = {}, expected {want}", s.day_count_factors[k]);
                    }
                }
                w.state(h(&(mi, len, step, "long")));
                Ok(())
            });
        } }
    });
}

fn main() {
    Ck::main(|ck| match ck.prop.as_str() {
        "D01" => d01(ck), "D02" => d02(ck), "D03" => d03(ck), "D04" => d04(ck), "D05" => d05(ck),
        p => panic!("unknown property {p}"),
    })
}
