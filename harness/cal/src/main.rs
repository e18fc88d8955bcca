use calendar::{Date, Period};
use hx::*;

const LEN: [u8; 12] = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];

/// first day, an inner day and the last two days of every month
fn any_day(name: &str, all: bool) -> (u8, u8) {
    let m = choose(&format!("{name}m"), 12);
    let last = LEN[m];
    let d = if all {
        let d = 1 + choose(&format!("{name}d"), 31) as u8;
        assume(d <= last);
        d
    } else {
        [1, 15, last - 1, last][choose(&format!("{name}d"), 4)]
    };
    (m as u8 + 1, d)
}
/// whole days since the 1st of January
fn ordinal(m: u8, d: u8) -> usize {
    let mut n = 0;
    for i in 0..(m - 1) as usize {
        n += LEN[i] as usize;
    }
    n + d as usize - 1
}
fn date(m: u8, d: u8, h: Float) -> Date {
    Date { month: m, day: d, hour: h }
}
fn valid(d: Date, l: &str) {
    check(d.month >= 1 && d.month <= 12, l);
    check(d.day >= 1 && d.day <= LEN[d.month as usize - 1], l);
    le(0.0, d.hour, 1e-9, l);
    lt(d.hour, 24.0, l);
}
/// `got` is `hours` after the start of the year, modulo a year of 365 days
fn is_at(got: Date, hours: Float, l: &str) {
    let year = 365.0 * 24.0;
    let g = ordinal(got.month, got.day) as Float * 24.0 + got.hour;
    let d = g - hours;
    // d is a whole number of years
    check((d - (d / year).round() * year).abs() <= 1e-6, l);
}
fn add_hours() {
    let (m, d) = any_day("", thorough());
    let h = sym("h", 0.0, 23.999);
    let x = sym("x", 0.0, if thorough() { 100.0 } else { 60.0 });
    let t0 = ordinal(m, d) as Float * 24.0 + h;
    let mut a = date(m, d, h);
    match choose("unit", 3) {
        0 => a.add_hours(x),
        1 => a.add_minutes(x * 60.0),
        _ => a.add_seconds(x * 3600.0),
    }
    valid(a, "advancing gives a valid date");
    is_at(a, t0 + x, "advancing moves the clock by the amount given, modulo a year");
}
fn add_days() {
    let (m, d) = any_day("", false);
    let h = sym("h", 0.0, 23.999);
    let n = [0, 1, 2, 27, 28, 29, 30, 31, 59, 200, 224, 225, 256, 300, 364, 365, 366, 730, 1000][choose("n", 19)];
    let t0 = ordinal(m, d) as Float * 24.0 + h;
    let mut a = date(m, d, h);
    a.add_days(n);
    valid(a, "valid date");
    close(a.hour, h, 0.0, "the time of the day is kept");
    is_at(a, t0 + 24.0 * n as Float, "adding days");
}
fn round_trip() {
    // thorough: one symbolic instant over the whole year; quick: the same by quarters of a year
    let n = sym("n", 0.0, 364.9999);
    let d = Date::from_day_of_year(n);
    valid(d, "valid date");
    close(d.day_of_year(), n, 1e-7, "from_day_of_year and day_of_year are inverse");
}
fn day_of_year() {
    let (m, d) = any_day("", true);
    let h = sym("h", 0.0, 23.999);
    let a = date(m, d, h);
    close(a.day_of_year(), ordinal(m, d) as Float + h / 24.0, 1e-7, "days elapsed since the start of the year");
    let b = Date::from_day_of_year(a.day_of_year());
    check(b.same_day(a), "day_of_year and from_day_of_year are inverse");
    close(b.hour, a.hour, 1e-5, "hour survives the round trip");
}
fn ordering() {
    let (m, d) = any_day("a", false);
    let (n, e) = any_day("b", false);
    let a = date(m, d, sym("h", 0.0, 23.999));
    let b = date(n, e, sym("g", 0.0, 23.999));
    let (x, y) = (a.day_of_year(), b.day_of_year());
    check((a < b) == (x < y), "order agrees with the time of the year");
    check((a <= b) == (x <= y), "order agrees with the time of the year");
    check((a == b) == (x == y), "equality agrees with the time of the year");
    close(a - b, x - y, 1e-9, "difference in days");
    check(a.same_day(b) == (m == n && d == e), "same day");
}
fn interpolate() {
    let (m, d) = [(1, 1), (2, 28), (6, 30), (12, 31)][choose("a", 4)];
    let (n, e) = [(1, 1), (1, 2), (3, 1), (12, 31)][choose("b", 4)];
    let a = date(m, d, sym("h", 0.0, 23.999));
    let b = date(n, e, sym("g", 0.0, 23.999));
    // only neighbouring records: 0..2 days apart
    let mut gap = b.day_of_year() - a.day_of_year();
    if gap < 0.0 {
        gap += 365.0;
    }
    assume(gap <= 2.0);
    let x = sym("x", 0.0, 1.0);
    let r = a.interpolate(b, x);
    valid(r, "valid date");
    is_at(r, a.day_of_year() * 24.0 + x * gap * 24.0, "a fraction of the way forward");
}

// ---------------------------------------------------------------- C02
fn some_day(n: &str) -> (u8, u8) {
    [(1, 1), (1, 2), (2, 28), (3, 1), (7, 31), (12, 30), (12, 31)][choose(n, 7)]
}
fn period_contains() {
    let (m, d) = some_day("a");
    let (n, e) = some_day("b");
    let (o, f) = some_day("c");
    let a = date(m, d, sym("h", 0.0, 23.999));
    let b = date(n, e, sym("g", 0.0, 23.999));
    let c = date(o, f, sym("k", 0.0, 23.999));
    let p = Period::new(a, b, sym("dt", 1.0, 86400.0));
    let (x, y, z) = (a.day_of_year(), b.day_of_year(), c.day_of_year());
    let want = if x <= y { x <= z && z <= y } else { z >= x || z <= y };
    check(p.contains(c) == want, "contains the dates between its start and its end");
}
fn period_iterates() {
    let (m, d) = some_day("a");
    let (n, e) = some_day("b");
    let h = sym("h", 0.0, 23.999);
    let a = date(m, d, h);
    let b = date(n, e, sym("g", 0.0, 23.999));
    let dt = sym("dt", 60.0, if thorough() { 5.0 * 86400.0 } else { 3.0 * 86400.0 });
    let mut p = Period::new(a, b, dt);
    let whole = if a <= b { b.day_of_year() - a.day_of_year() } else { 365.0 + b.day_of_year() - a.day_of_year() };
    let mut t = a;
    for k in 1..=(if thorough() { 3 } else { 2 }) {
        let gone = dt * k as Float / 86400.0;
        // stay away from the exact end, where rounding decides
        let inside = gone <= whole;
        let item = p.next();
        check(item.is_some() == inside, "goes on exactly while inside the period");
        match item {
            Some(x) => {
                valid(x, "valid date");
                is_at(x, a.day_of_year() * 24.0 + gone * 24.0, "steps of dt from the start");
                check(p.contains(x), "yields dates of the period");
                t = x;
            }
            None => break,
        }
    }
    let _ = t;
}

fn main() {
    hx::main(vec![
        case("C01", "add_hours", add_hours),
        case("C01", "add_days", add_days),
        case("C01", "round_trip", round_trip),
        case("C01", "day_of_year", day_of_year),
        case("C01", "ordering", ordering),
        case("C01", "interpolate", interpolate),
        case("C02", "period_contains", period_contains),
        case("C02", "period_iterates", period_iterates),
    ]);
}
