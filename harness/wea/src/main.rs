mod dirint;
use calendar::Date;
use geometry::Vector3D;
use hx::*;
use weather::{CurrentWeather, EPWWeatherLine, Location, PerezSky, ReinhartSky, SkyUnits, Solar, SyntheticWeather, Time, Weather, WeatherTrait};

const LEN: [u8; 12] = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
fn ordinal(m: u8, d: u8) -> usize {
    let mut n = 0;
    for i in 0..(m - 1) as usize {
        n += LEN[i] as usize;
    }
    n + d as usize - 1
}
/// days since New Year
fn days(d: &Date) -> Float {
    ordinal(d.month, d.day) as Float + d.hour / 24.0
}
fn date(m: u8, d: u8, h: Float) -> Date {
    Date { month: m, day: d, hour: h }
}
const K: Float = 6.0;
/// a record with every field a different multiple of `v`
fn record(d: Date, v: Float, ir: bool) -> CurrentWeather {
    CurrentWeather {
        date: d,
        dry_bulb_temperature: v,
        dew_point_temperature: v * 0.5 - 1.0,
        global_horizontal_radiation: v * 2.0 + 3.0,
        direct_normal_radiation: v * 4.0 + 1.0,
        diffuse_horizontal_radiation: v * 1.5,
        wind_speed: v * 0.25,
        wind_direction: v * 0.01 + 1.0,
        horizontal_infrared_radiation_intensity: if ir { Some(v * 3.0 + 5.0) } else { None },
        opaque_sky_cover: v * 0.01,
        relative_humidity: v * 0.02,
        pressure: v * 10.0 + 100000.0,
    }
}
fn same(w: &CurrentWeather, v: Float, ir: bool) {
    let e = record(w.date, v, ir);
    let l = "each quantity is interpolated";
    close(w.dry_bulb_temperature, e.dry_bulb_temperature, 1e-5, l);
    close(w.dew_point_temperature, e.dew_point_temperature, 1e-5, l);
    close(w.global_horizontal_radiation, e.global_horizontal_radiation, 1e-5, l);
    close(w.direct_normal_radiation, e.direct_normal_radiation, 1e-5, l);
    close(w.diffuse_horizontal_radiation, e.diffuse_horizontal_radiation, 1e-5, l);
    close(w.wind_speed, e.wind_speed, 1e-5, l);
    close(w.wind_direction, e.wind_direction, 1e-5, l);
    close(w.opaque_sky_cover, e.opaque_sky_cover, 1e-5, l);
    close(w.relative_humidity, e.relative_humidity, 1e-5, l);
    close(w.pressure, e.pressure, 1e-5, l);
    match (w.horizontal_infrared_radiation_intensity, e.horizontal_infrared_radiation_intensity) {
        (Some(a), Some(b)) => close(a, b, 1e-5, l),
        (None, None) => {}
        _ => check(false, "infrared radiation is known only if it was in both records"),
    }
}
fn set(k: usize) -> Vec<Date> {
    match k {
        // hourly, around New Year
        0 => vec![date(1, 1, 1.0), date(1, 1, 2.0), date(12, 31, 23.0)],
        // uneven, through the end of a month
        1 => vec![date(2, 28, 6.0), date(3, 1, 0.0), date(3, 2, 12.0), date(6, 30, 23.5)],
        // two records
        _ => vec![date(4, 10, 12.0), date(10, 10, 12.0)],
    }
}
/// a date between two consecutive records
fn lookup_between() {
    let dates = set(choose("set", 3));
    let n = dates.len();
    let ir = choose("ir", 2) == 1;
    let v: Vec<Float> = (0..n).map(|i| sym(&format!("v{i}"), 0.0, 40.0)).collect();
    let w = Weather { data: (0..n).map(|i| record(dates[i], v[i], ir || i == 0)).collect(), location: Location::default() };
    let i = choose("i", n - 1);
    // a day (and hour) strictly between both records
    let (a, b) = (days(&dates[i]), days(&dates[i + 1]));
    let d = date_at(a, b);
    let t = days(&d);
    let x = (t - a) / (b - a);
    let got = w.find_weather_line(d);
    same(&got, v[i] + (v[i + 1] - v[i]) * x, ir);
    check(got.date.month == d.month && got.date.day == d.day, "the date asked for is the one reported");
    close(got.date.hour, d.hour, 1e-4, "the date asked for is the one reported");
}
/// a symbolic date strictly between two times of the year (given in days)
fn date_at(a: Float, b: Float) -> Date {
    let (mut m, mut d) = (1u8, 1u8);
    let k = choose("which", 3);
    // the day of the start, the day of the end, or one in the middle
    let h = sym("h", 0.0, 23.999);
    let want = match k {
        0 => a,
        1 => b,
        _ => (a + b) * 0.5,
    };
    let mut best = (1u8, 1u8);
    for mm in 1..=12u8 {
        for dd in 1..=LEN[mm as usize - 1] {
            if ordinal(mm, dd) as Float <= want {
                best = (mm, dd);
            }
        }
    }
    m = best.0;
    d = best.1;
    let r = date(m, d, h);
    let t = ordinal(m, d) as Float + h / 24.0;
    assume_le(a + 0.001, t);
    assume_le(t, b - 0.001);
    r
}
fn lookup_exact() {
    let dates = set(choose("set", 3));
    let n = dates.len();
    let v: Vec<Float> = (0..n).map(|i| sym(&format!("v{i}"), 0.0, 40.0)).collect();
    let w = Weather { data: (0..n).map(|i| record(dates[i], v[i], i == 1)).collect(), location: Location::default() };
    let i = choose("i", n);
    let got = w.get_weather_data(dates[i]);
    same(&got, v[i], i == 1);
}
/// before the first record or after the last: through New Year
fn lookup_wrap() {
    let dates = set(choose("set", 3));
    let n = dates.len();
    let v: Vec<Float> = (0..n).map(|i| sym(&format!("v{i}"), 0.0, 40.0)).collect();
    let w = Weather { data: (0..n).map(|i| record(dates[i], v[i], true)).collect(), location: Location::default() };
    let (first, last) = (days(&dates[0]), days(&dates[n - 1]));
    let (d, t) = if choose("side", 2) == 0 {
        let d = date_at(-1.0, first);
        (d, days(&d) + 365.0)
    } else {
        let d = date_at(last, 365.0);
        (d, days(&d))
    };
    let x = (t - last) / (first + 365.0 - last);
    let got = w.find_weather_line(d);
    same(&got, v[n - 1] + (v[0] - v[n - 1]) * x, true);
}
fn sort() {
    // whatever the order of the records, sorting puts them in the order of the year
    let h = sym("h", 0.0, 23.9);
    let g = sym("g", 0.0, 23.9);
    let k = choose("k", 3);
    let d = [date(3, 1, h), date(3, 1, g), date(2, 28, 12.0)];
    let order = [[0, 1, 2], [1, 2, 0], [2, 0, 1]][k];
    let mut w = Weather { data: order.iter().map(|i| record(d[*i], 1.0, true)).collect(), location: Location::default() };
    w.sort_data();
    check(w.data.len() == 3 && w.data[0].date.month == 2, "sorted by date");
    le(w.data[1].date.hour, w.data[2].date.hour, 0.0, "sorted by date");
    close(w.data[1].date.hour + w.data[2].date.hour, h + g, 1e-9, "no record is lost");
}
fn horizontal_ir() {
    let (t, dp, n) = (sym("t", -30.0, 45.0), sym("dp", -30.0, 30.0), sym("n", 0.001, 1.0));
    let mut w = record(date(1, 1, 1.0), 0.0, false);
    w.dry_bulb_temperature = t;
    w.dew_point_temperature = dp;
    w.opaque_sky_cover = 0.0;
    let clear = w.derive_horizontal_ir();
    let k = t + 273.15;
    let e = 0.787 + 0.764 * ((dp + 273.15) / 273.0).ln();
    close(clear / 100.0, 5.670374419e-8 / 100.0 * e * k * k * k * k, 1e-3, "infrared radiation of a clear sky");
    w.opaque_sky_cover = n;
    assume_le(0.5, e);
    lt(clear, w.derive_horizontal_ir(), "clouds add infrared radiation");
}

// ------------------------------------------------------------------ W02 sun
const PI: Float = 3.14159265358979323846;
fn lat(k: usize) -> Float {
    [-0.72, 0.9, 0.0, 0.4, -0.4, 1.15][k]
}
fn sun() {
    let la = lat(choose("lat", if thorough() { 6 } else { 2 }));
    let s = Solar::new(la, 0.3, 0.3);
    let day = [80.0, 172.0, 266.0, 355.0][choose("day", 4)];
    // time from midday, in days
    let m = sym("m", 0.001, 0.499);
    let pm = choose("pm", 2) == 1;
    let n = if pm { day + 0.5 + m } else { day + 0.5 - m };
    let delta = s.declination(n);
    let w = s.hour_angle(Time::Solar(n));
    close(w, if pm { 2.0 * PI * m } else { -2.0 * PI * m }, 1e-6, "15 degrees of hour angle per hour from midday");
    let (sp, cp) = (la.sin(), la.cos());
    let (sd, cd) = (delta.sin(), delta.cos());
    let z = cp * cd * w.cos() + sp * sd;
    let north = cp * sd - sp * cd * w.cos();
    lemma_close(z * z + north * north + cd * cd * w.sin() * w.sin(), 1.0, 1e-9, "a direction of the sky");
    match s.sun_position(Time::Solar(n)) {
        None => {
            if z <= 0.0 {
                return;
            }
            // -tan(latitude) tan(declination) is the cosine of the hour angle of the sunset
            let cw = -la.tan() * delta.tan();
            lemma_close(z, cp * cd * (w.cos() - cw), 1e-9, "height from the hour angle of the sunset");
            le(cw.acos(), if pm { w } else { -w }, 1e-9, "the sun is not seen only before sunrise or after sunset");
        }
        Some(v) => {
            le(0.0, z, 1e-6, "the sun is seen only above the horizon");
            if v.z == 1.0 {
                le(0.9998, z, 0.0, "the sun is taken as vertical only near the zenith");
                return;
            }
            close(v.z, z, 1e-6, "height of the sun");
            close(v.x * v.x + v.y * v.y + v.z * v.z, 1.0, 1e-6, "the direction is a unit vector");
            let sz = z.acos().sin();
            let raw = (z * sp - sd) / (sz * cp);
            lemma_close(z * sp - sd, -(cp * north), 1e-9, "a direction of the sky");
            lemma_close(raw * sz, -north, 1e-9, "a direction of the sky");
            // not exactly at noon
            assume_le(north, sz - 1e-6);
            assume_le(-north, sz - 1e-6);
            close(v.y, north, 1e-5, "the sun is as much to the north as it should");
            if pm {
                le(v.x, 0.0, 1e-9, "the sun is to the west in the afternoon");
            } else {
                le(0.0, v.x, 1e-9, "the sun is to the east in the morning");
            }
        }
    }
}
fn sun_time() {
    let (lo, std, la) = (sym("long", -3.0, 3.0), sym("std", -3.0, 3.0), lat(choose("lat", 3)));
    let s = Solar::new(la, lo, std);
    let t = [0.0, 100.0, 300.5][choose("t", 3)] + sym("t", 0.0, 20.0);
    let diff = 4.0 * (std - lo) * 180.0 / PI + s.equation_of_time(t);
    close(s.solar_standard_time_difference(t), diff, 1e-6, "difference between solar and standard time, in minutes");
    close(s.unwrap_solar_time(Time::Standard(t)), t + diff / 1440.0, 1e-8, "solar time");
    close(s.unwrap_standard_time(Time::Solar(t)), t - diff / 1440.0, 1e-8, "standard time");
    close(s.unwrap_solar_time(Time::Solar(t)), t, 1e-9, "solar time is solar time");
    close(s.unwrap_standard_time(Time::Standard(t)), t, 1e-9, "standard time is standard time");
}
/// east of a place, the sun is ahead (per hour of time zone, the clock is too)
fn location() {
    let lo = sym("long", -3.0, 2.9);
    let d = sym("d", 0.0, 0.1);
    let tz = choose("tz", 25) as i8 - 12;
    let mk = |l: Float, z: i8| Location { latitude: 0.5, longitude: l, timezone: z, ..Location::default() };
    let t = 50.25;
    let a = mk(lo, tz).get_solar().unwrap_solar_time(Time::Standard(t));
    let b = mk(lo + d, tz).get_solar().unwrap_solar_time(Time::Standard(t));
    close(b - a, d / (2.0 * PI), 1e-8, "to the east, solar time goes ahead");
    let eot = mk(lo, tz).get_solar().equation_of_time(t);
    close(a, t + (lo / (2.0 * PI) - tz as Float / 24.0) + eot / 1440.0, 1e-8, "solar time from time zone and longitude");
}
fn earth() {
    let s = Solar::new(0.5, 0.0, 0.0);
    let n = sym("n", 0.0, 366.0);
    // the declination stays within the tropics, the equation of time within 18 minutes, and
    // the radiation within 4 % of the solar constant
    let b = (n - 1.0) * 2.0 * PI / 365.0;
    close(s.declination(n), 0.006918 - 0.399912 * b.cos() + 0.070257 * b.sin() - 0.006758 * (2.0 * b).cos() + 0.000907 * (2.0 * b).sin() - 0.002697 * (3.0 * b).cos() + 0.00148 * (3.0 * b).sin(), 1e-9, "declination");
    close(s.equation_of_time(n), 229.2 * (0.000075 + 0.001868 * b.cos() - 0.032077 * b.sin() - 0.014615 * (2.0 * b).cos() - 0.04089 * (2.0 * b).sin()), 1e-7, "equation of time");
    let r = s.normal_extraterrestrial_radiation(n);
    close(r, 1367.7 * (1.00011 + 0.034221 * b.cos() + 0.00128 * b.sin() + 0.000719 * (2.0 * b).cos() + 0.000077 * (2.0 * b).sin()), 1e-6, "extraterrestrial radiation");
    le(1310.0, r, 0.0, "extraterrestrial radiation");
    le(r, 1425.0, 0.0, "extraterrestrial radiation");
}
fn estimate() {
    let s = Solar::new(0.5, 0.0, 0.0);
    let z = sym("z", 0.01, 1.0);
    let d = Vector3D::new((1.0 - z * z).sqrt(), 0.0, z);
    let (cc, t, t3, ws, rh) = (sym("cc", 0.0, 1.0), sym("t", -20.0, 40.0), sym("t3", -20.0, 40.0), sym("ws", 0.0, 20.0), sym("rh", 0.0, 1.0));
    let g = s.estimate_global_horizontal_radiation(d, cc, t, t3, ws, rh);
    let e = 1367.7 * z * (0.749833333 + 0.043947778 * cc - 0.28806125 * cc * cc + 0.016512222 * (t - t3) - 0.29925 * rh + 0.003777778 * ws) - 5.949946667;
    if e > 0.0 {
        close(g, e, 1e-5, "global horizontal radiation from clouds, temperature, humidity and wind");
    } else {
        close(g, 0.0, 1e-9, "radiation is never negative");
    }
}

// ------------------------------------------------------------------ W03 sky
/// the bin of a direction is the one whose patch of sky contains it
fn sky_bin() {
    let mf = 1 + choose("mf", if thorough() { 3 } else { 1 });
    let r = ReinhartSky::new(mf);
    // altitudes of one row of patches (or of the zenith)
    let row = choose("row", 7 * mf + 1);
    let height = PI / 2.0 / (7.0 * mf as Float + 0.5);
    let z = sym("z", 0.0, 1.0);
    assume_le((row as Float * height).sin(), z);
    if row < 7 * mf {
        assume_lt(z, ((row + 1) as Float * height).sin());
        let n = [30, 30, 24, 24, 18, 12, 6][row / mf] * mf;
        for k in 0..n {
            let a = (k as Float + 0.5) * 2.0 * PI / n as Float;
            let a = if a > PI { a - 2.0 * PI } else { a };
            atan2_at(&[a - 1e-9, a + 1e-9]);
        }
    }
    // azimuth (from the north, towards the east) in one of 12 sectors
    let sector = choose("sector", 12);
    let (a0, a1) = (sector as Float * PI / 6.0, (sector + 1) as Float * PI / 6.0);
    let t = sym("t", 0.0, 1.0);
    // a point of the chord between both ends of the sector, normalised
    let (u, v) = (a0.sin() + (a1.sin() - a0.sin()) * t, a0.cos() + (a1.cos() - a0.cos()) * t);
    let k = sym("k", 0.0, 1.1);
    assume_le(k * k * (u * u + v * v) + z * z, 1.0 + 1e-9);
    assume_le(1.0 - 1e-9, k * k * (u * u + v * v) + z * z);
    let d = Vector3D::new(u * k, v * k, z);
    let bin = r.dir_to_bin(d);
    check(bin >= 1 && bin < r.n_bins, "a direction of the sky is in a patch of sky");
    let c = r.bin_dir(bin);
    check((bin == r.n_bins - 1) == (row == 7 * mf), "the patch contains the altitude of the direction");
    let row = height;
    if bin == r.n_bins - 1 {
        le((PI / 2.0 - row / 2.0).sin(), z, 1e-6, "only directions around the zenith are in its patch");
        return;
    }
    let alt = c.z.asin();
    le((alt - row / 2.0).sin(), z, 1e-6, "the patch contains the altitude of the direction");
    le(z, (alt + row / 2.0).sin(), 1e-6, "the patch contains the altitude of the direction");
    // and the azimuth: the angle to the patch's direction is at most half of its width
    let tnaz = [30, 30, 24, 24, 18, 12, 6];
    let i = ((alt / row) / mf as Float).floor();
    let mut k = 0;
    while (k as Float) < i {
        k += 1;
    }
    let half = PI / (tnaz[k] * mf) as Float;
    // both as cross products, from the patch's direction
    let (cx, cy) = (c.x, c.y);
    let (s1, c1) = (half.sin(), half.cos());
    let cross = cx * d.y - cy * d.x;
    let dot = cx * d.x + cy * d.y;
    le(-(dot * s1), cross * c1, 1e-6, "the patch contains the azimuth of the direction");
    le(cross * c1, dot * s1, 1e-6, "the patch contains the azimuth of the direction");
    le(0.0, dot, 1e-6, "the patch contains the azimuth of the direction");
}
fn sky_ground() {
    let mf = 1 + choose("mf", 3);
    let r = ReinhartSky::new(mf);
    let (x, z) = (sym("x", -1.0, 1.0), sym("z", -1.0, -0.001));
    let y2 = 1.0 - x * x - z * z;
    assume_le(0.0, y2);
    let d = Vector3D::new(x, y2.sqrt(), z);
    check(r.dir_to_bin(d) == 0, "what is below the horizon is ground");
}
fn sky_bins() {
    let mf = 1 + choose("mf", 4);
    let r = ReinhartSky::new(mf);
    check(r.n_bins == 144 * mf * mf + 2 && r.n_bins == ReinhartSky::n_bins(mf), "number of patches");
    let mut sum = 0.0;
    for i in 0..r.n_bins {
        sum += r.bin_solid_angle(i);
        let d = r.bin_dir(i);
        close(d.length(), 1.0, 1e-6, "directions are unit vectors");
        check(r.dir_to_bin(d) == i, "the direction of a patch is in the patch");
    }
    close(sum, 4.0 * PI, 1e-6, "the patches cover the sphere");
}
/// with only sun, the sky vector carries the direct radiation; the ground reflects the global
fn sky_sun() {
    let s = Solar::new(lat(choose("lat", 2)), 0.0, 0.0);
    let d = date([3, 6, 12][choose("month", 3)], 21, [9.0, 12.0, 15.5][choose("hour", 3)]);
    let dn = sym("dn", 1.0, 1000.0);
    let dh = sym("dh", 1.0, 500.0);
    let al = sym("albedo", 0.01, 0.9);
    let mut w = record(d, 10.0, false);
    w.direct_normal_radiation = dn;
    w.diffuse_horizontal_radiation = dh;
    let v = PerezSky::gen_sky_vec(1, &s, d, w, SkyUnits::Solar, al, false, true).unwrap();
    let r = ReinhartSky::new(1);
    let z = match s.sun_position_from_standard_time(d) {
        None => {
            for i in 0..r.n_bins {
                close(v.get(i, 0).unwrap(), 0.0, 0.0, "no sun, no sky");
            }
            return;
        }
        Some(p) => p.z,
    };
    let mut sum = 0.0;
    for i in 1..r.n_bins {
        let x = v.get(i, 0).unwrap();
        le(0.0, x, 1e-9, "radiance is not negative");
        sum += x * r.bin_solid_angle(i);
    }
    let ground = al * (dh + dn * z) / PI;
    let g = v.get(0, 0).unwrap();
    if z > 0.2 {
        close(sum, dn, 1e-4, "the patches around the sun carry the direct normal radiation");
        close(g, ground, 1e-4, "the ground reflects the global horizontal radiation");
    } else {
        // part of the sun may fall in the ground
        close(sum + (g - ground) * 2.0 * PI, dn, 1e-4, "the patches around the sun carry the direct normal radiation");
    }
}
fn sky_dark() {
    let s = Solar::new(0.6, 0.0, 0.0);
    let d = date(6, 21, [0.5, 12.0][choose("hour", 2)]);
    let mut w = record(d, 10.0, false);
    let q = sym("q", 0.0, 4e-5);
    w.direct_normal_radiation = q;
    w.diffuse_horizontal_radiation = q;
    if d.hour < 1.0 {
        w.direct_normal_radiation = sym("dn", 0.0, 1000.0);
    }
    let v = PerezSky::gen_sky_vec(1, &s, d, w, SkyUnits::Solar, 0.2, true, true).unwrap();
    for i in 0..146 {
        close(v.get(i, 0).unwrap(), 0.0, 0.0, "no radiation, no sky");
    }
}
fn perez_indices() {
    let (dh, dn, z) = (sym("dh", 1.0, 500.0), sym("dn", 0.0, 1000.0), sym("z", 0.05, 1.57));
    let e = PerezSky::sky_clearness(dh, dn, z);
    close(e * (1.0 + 1.041 * z * z * z) * dh / 10.0, (dh + dn + 1.041 * z * z * z * dh) / 10.0, 1e-5, "clearness");
    le(1.0, e, 1e-9, "clearness is at least one");
    let c = sym("c", 0.5, 12.0);
    let k = PerezSky::clearness_category(c);
    let t = [0.0, 1.065, 1.23, 1.5, 1.95, 2.8, 4.5, 6.2, 1e9];
    check(t[k] <= c && c < t[k + 1], "category of clearness");
    let (m, x) = (sym("m", 1.0, 30.0), sym("x", 1300.0, 1420.0));
    let b = PerezSky::sky_brightness(dh, m, x);
    let raw = dh * m / x;
    close(b, if raw < 0.01 { 0.01 } else { raw }, 1e-9, "brightness");
}

// ------------------------------------------------------------------ W04 estimated radiation
fn towards(z: Float) -> Vector3D {
    Vector3D::new((1.0 - z * z).sqrt(), 0.0, z)
}
fn clear_sky() {
    let s = Solar::new(0.5, 0.1, 0.2);
    let z = sym("z", 0.05, 1.0);
    let e = sym("elevation", 0.0, 2500.0) ;
    let a = e / 1000.0;
    let tb = s.beam_atmosphere_transmittance(towards(z), e);
    let k = 0.2711 + 0.01858 * (2.5 - a) * (2.5 - a);
    let want = 0.4237 - 0.00821 * (6.0 - a) * (6.0 - a) + (0.5055 + 0.00595 * (6.5 - a) * (6.5 - a)) * (-k / z).exp();
    close(tb, want, 1e-6, "clear sky transmittance of the beam");
    let d = date(1 + choose("month", 12) as u8, 11, 10.0);
    let n = Time::Standard(d.day_of_year());
    let g = s.clear_sky_global_horizontal_rad(n, towards(z), e);
    let x = s.normal_extraterrestrial_radiation(s.unwrap_solar_time(n));
    close(g / 1000.0, x * z * (0.271 + 0.706 * tb) / 1000.0, 1e-6, "clear sky global radiation");
}
fn erbs() {
    let k = sym("kt", 0.0, 1.0);
    let f = Solar::new(0.5, 0.1, 0.2).diffuse_fraction(k);
    let want = if k <= 0.22 {
        1.0 - 0.09 * k
    } else if k <= 0.8 {
        0.9511 - 0.1604 * k + 4.388 * k * k - 16.638 * k * k * k + 12.336 * k * k * k * k
    } else {
        0.165
    };
    close(f, want, 1e-6, "diffuse fraction");
}
fn when(k: usize) -> Time {
    let d = date([1, 3, 6, 9, 12][k], 9, [11.0, 8.5, 17.0, 12.0, 14.5][k]);
    if k % 2 == 0 {
        Time::Standard(d.day_of_year())
    } else {
        Time::Solar(d.day_of_year())
    }
}
fn disc() {
    let s = Solar::new(0.5, 0.1, 0.2);
    let n = when(choose("when", 5));
    let x = s.normal_extraterrestrial_radiation(s.unwrap_solar_time(n));
    let z = [0.12, 0.18, 0.4, 0.7, 0.99][choose("z", 5)] as Float;
    let p = [70000.0, 101300.0][choose("p", 2)] as Float;
    let kt = match choose("sky", 4) {
        0 => sym("kt", 0.0, 1.0),
        3 => 1.25,
        1 => sym("kt", -0.5, -0.01),
        _ => 0.0,
    };
    close(s.hourly_clearness_index(n, x * kt), kt, 1e-9, "clearness is the part of the extraterrestrial radiation that arrives");
    let r = s.disc_direct_solar(n, towards(z), x * kt, p);
    finite(r, "direct radiation is a number");
    if kt < 0.0 || z < 0.173 {
        close(r, 0.0, 1e-9, "no direct radiation without sun");
        return;
    }
    let k = if kt > 1.0 { 1.0 } else { kt };
    let m = weather::solar::air_mass(z.acos()) * p / 101300.0;
    let (k2, k3) = (k * k, k * k * k);
    let (a, b, c) = if k > 0.6 {
        (-5.743 + 21.77 * k - 27.49 * k2 + 11.56 * k3, 41.4 - 118.5 * k + 66.05 * k2 + 31.9 * k3, -47.01 + 184.2 * k - 222.0 * k2 + 73.81 * k3)
    } else {
        (0.512 - 1.56 * k + 2.286 * k2 - 2.222 * k3, 0.37 + 0.962 * k, -0.28 + 0.932 * k - 2.048 * k2)
    };
    let knc = 0.866 - 0.122 * m + 0.0121 * m * m - 0.000653 * m * m * m + 0.000014 * m * m * m * m;
    let want = x * (knc - (a + b * (c * m).exp()));
    if want > 0.0 {
        close(r / 1000.0, want / 1000.0, 1e-6, "direct radiation of the DISC model");
    } else {
        close(r, 0.0, 1e-6, "direct radiation is never negative");
    }
}
/// Ineichen et al. (1992)
fn dirint_case(kt_bin: usize) {
    let s = Solar::new(0.5, 0.1, 0.2);
    let iz = choose("zenith", 6);
    let z = [0.95, 0.85, 0.7, 0.45, 0.2, 0.1][iz] as Float;
    let iw = choose("humidity", 4);
    let dp = [-5.0, 5.0, 14.0, 22.0][iw] as Float;
    let id = choose("variation", 6);
    let delta = [0.008, 0.02, 0.05, 0.1, 0.2, 0.5][id] as Float;
    let p = 95000.0;
    let d = date(4, 9, 11.0);
    let n = Time::Standard(d.day_of_year());
    let x = s.normal_extraterrestrial_radiation(s.unwrap_solar_time(n));
    let m = weather::solar::air_mass(z.acos()) * p / 101300.0;
    let den = 1.031 * (-1.4 / (0.9 + 9.4 / m)).exp() + 0.1;
    let lim = [0.001, 0.241, 0.401, 0.561, 0.701, 0.801, 0.85];
    let kp = sym("kt", lim[kt_bin], lim[kt_bin + 1] - 0.002);
    let g = kp * den * x * z;
    let rec = |dd: Date, gg: Float| {
        let mut r = record(dd, 10.0, false);
        r.dew_point_temperature = dp;
        r.pressure = p;
        r.global_horizontal_radiation = gg;
        r
    };
    let now = rec(d, g);
    // an hour that differs by twice that (once each, if it is between the two)
    let other = |t: Float, up: Float| {
        let dd = date(4, 9, t);
        let xx = s.normal_extraterrestrial_radiation(s.unwrap_solar_time(Time::Standard(dd.day_of_year())));
        rec(dd, (kp + up) * den * xx * z)
    };
    let how = choose("hours", 4);
    let (next, prev) = match how {
        0 => (Some(other(12.0, 2.0 * delta)), None),
        1 => (None, Some(other(10.0, 2.0 * delta))),
        2 => (Some(other(12.0, delta)), Some(other(10.0, delta))),
        _ => (None, None),
    };
    let r = s.perez_direct_normal_radiation(towards(z), now, next, prev);
    finite(r, "direct radiation is a number");
    if z < 0.173 {
        close(r, 0.0, 1e-9, "no direct radiation with the sun too low");
        return;
    }
    let k = dirint::DIRINT[kt_bin][iz][(if how == 3 { 0 } else { id }) * 5 + iw];
    let want = k as Float * s.disc_direct_solar(n, towards(z), g / z, p);
    close(r / 1000.0, want / 1000.0, 1e-6, "direct normal radiation of Ineichen and Perez");
}
fn dirint_0() {
    dirint_case(0)
}
fn dirint_1() {
    dirint_case(1)
}
fn dirint_2() {
    dirint_case(2)
}
fn dirint_3() {
    dirint_case(3)
}
fn dirint_4() {
    dirint_case(4)
}
fn dirint_5() {
    dirint_case(5)
}
fn cloud_split() {
    let s = Solar::new(0.5, 0.1, 0.2);
    let d = date([1, 6, 10][choose("month", 3)], 9, 11.0);
    let z = [0.15, 0.3, 0.8][choose("z", 3)] as Float;
    let cc = match choose("clouds", 3) {
        0 => 0.0,
        1 => 0.6,
        _ => 1.0,
    } as Float;
    let mut now = record(d, 10.0, false);
    let mut prior = now;
    now.opaque_sky_cover = cc;
    now.dry_bulb_temperature = 12.0;
    prior.dry_bulb_temperature = sym("t3", 0.0, 45.0);
    now.relative_humidity = 0.8;
    now.wind_speed = 3.0;
    now.pressure = 100000.0;
    now.dew_point_temperature = 9.0;
    // what is in the record is not what is estimated
    now.global_horizontal_radiation = 333.0;
    let g = s.estimate_global_horizontal_radiation(towards(z), cc, 12.0, prior.dry_bulb_temperature, 3.0, 0.8);
    let (dn, dh, gh) = s.direct_diffuse_from_cloud_generic(towards(z), now, None, None, prior);
    finite(dn, "direct radiation is a number");
    finite(dh, "diffuse radiation is a number");
    close(gh, g, 1e-6, "global radiation is that of the clouds");
    let mut r = now;
    r.global_horizontal_radiation = g;
    close(dn, if z < 0.173 { 0.0 } else { s.perez_direct_normal_radiation(towards(z), r, None, None) }, 1e-6, "direct radiation is that of the estimated global radiation");
    le(0.0, dn, 1e-9, "direct radiation is not negative");
    let rest = g - dn * z;
    if rest > 0.0 {
        close(dh / 1000.0, rest / 1000.0, 1e-6, "what is not direct is diffuse");
    } else {
        close(dh, 0.0, 1e-9, "diffuse radiation is not negative");
    }
}
/// Perez et al. (1990), table 4
fn efficacies() {
    let k = choose("category", 8);
    let (w, b) = (sym("w", 0.1, 8.0), sym("b", 0.01, 0.6));
    let z = [0.06, 0.5, 1.0, 1.4][choose("z", 4)] as Float;
    let t = [
        (57.20, -4.55, -2.98, 117.12), (98.99, -3.46, -1.21, 12.38), (109.83, -4.90, -1.71, -8.81), (110.34, -5.84, -1.99, -4.56),
        (106.36, -3.97, -1.75, -6.16), (107.19, -1.25, -1.51, -26.73), (105.75, 0.77, -1.26, -34.44), (101.18, 1.58, -1.10, -8.29),
    ][k];
    let v = t.0 + t.1 * w + t.2 * (5.73 * z - 5.0).exp() + t.3 * b;
    close(PerezSky::direct_illuminance_ratio(w, z, b, k), if v > 0.0 { v } else { 0.0 }, 1e-6, "direct luminous efficacy");
    let t = [
        (97.24, -0.46, 12.00, -8.91), (107.22, 1.15, 0.59, -3.95), (104.97, 2.96, -5.53, -8.77), (102.39, 5.59, -13.95, -13.90),
        (100.71, 5.94, -22.75, -23.74), (106.42, 3.83, -36.15, -28.83), (141.88, 1.90, -53.24, -14.03), (152.23, 0.35, -45.27, -7.98),
    ][k];
    let c = sym("c", 0.0, 1.0);
    close(PerezSky::diffuse_illuminance_ratio(w, c, b, k), t.0 + t.1 * w + t.2 * c + t.3 * b.ln(), 1e-6, "diffuse luminous efficacy");
    let t = sym("dew_point", -30.0, 30.0);
    close(PerezSky::precipitable_water_content(t), (0.07 * t - 0.075).exp(), 1e-6, "precipitable water");
}
/// Perez et al. (1993), table 1
fn sky_params() {
    const T: [[f64; 20]; 8] = [
        [1.3525, -0.2576, -0.2690, -1.4366, -0.7670, 0.0007, 1.2734, -0.1233, 2.8000, 0.6004, 1.2375, 1.0000, 1.8734, 0.6297, 0.9738, 0.2809, 0.0356, -0.1246, -0.5718, 0.9938],
        [-1.2219, -0.7730, 1.4148, 1.1016, -0.2054, 0.0367, -3.9128, 0.9156, 6.9750, 0.1774, 6.4477, -0.1239, -1.5798, -0.5081, -1.7812, 0.1080, 0.2624, 0.0672, -0.2190, -0.4285],
        [-1.1000, -0.2515, 0.8952, 0.0156, 0.2782, -0.1812, -4.5000, 1.1766, 24.7219, -13.0812, -37.7000, 34.8438, -5.0000, 1.5218, 3.9229, -2.6204, -0.0156, 0.1597, 0.4199, -0.5562],
        [-0.5484, -0.6654, -0.2672, 0.7117, 0.7234, -0.6219, -5.6812, 2.6297, 33.3389, -18.3000, -62.2500, 52.0781, -3.5000, 0.0016, 1.1477, 0.1062, 0.4659, -0.3296, -0.0876, -0.0329],
        [-0.6000, -0.3566, -2.5000, 2.3250, 0.2937, 0.0496, -5.6812, 1.8415, 21.0000, -4.7656, -21.5906, 7.2492, -3.5000, -0.1554, 1.4062, 0.3988, 0.0032, 0.0766, -0.0656, -0.1294],
        [-1.0156, -0.3670, 1.0078, 1.4051, 0.2875, -0.5328, -3.8500, 3.3750, 14.0000, -0.9999, -7.1406, 7.5469, -3.4000, -0.1078, -1.0750, 1.5702, -0.0672, 0.4016, 0.3017, -0.4844],
        [-1.0000, 0.0211, 0.5025, -0.5119, -0.3000, 0.1922, 0.7023, -1.6317, 19.0000, -5.0000, 1.2438, -1.9094, -4.0000, 0.0250, 0.3844, 0.2656, 1.0468, -0.3788, -2.4517, 1.4656],
        [-1.0500, 0.0289, 0.4260, 0.3590, -0.3250, 0.1156, 0.7781, 0.0025, 31.0625, -14.5000, -46.1148, 55.3750, -7.2312, 0.4050, 13.3500, 0.6234, 1.5000, -0.6426, 1.8564, 0.5636],
    ];
    let k = choose("category", 8);
    let e = [1.03, 1.1, 1.3, 1.7, 2.0, 3.0, 5.0, 8.0][k] as Float;
    let (z, b) = (sym("zenith", 0.06, 1.57), sym("brightness", 0.01, 0.6));
    let v = PerezSky::calc_params(z, e, b);
    let d = if b < 0.2 && e > 1.065 && e < 2.8 { 0.2 } else { b };
    let x = |i: usize, j: usize| T[k][4 * i + j] as Float;
    for i in 0..5 {
        let want = match (k, i) {
            (0, 2) => ((d * (x(2, 0) + x(2, 1) * z)).powf(x(2, 2))).exp() - x(2, 3),
            (0, 3) => -(d * (x(3, 0) + x(3, 1) * z)).exp() + x(3, 2) + d * x(3, 3),
            _ => x(i, 0) + x(i, 1) * z + d * (x(i, 2) + x(i, 3) * z),
        };
        close(v[i], want, 1e-6, "parameters of the sky of Perez");
    }
}
/// a sky replaces the one before it
fn sky_update() {
    let s = Solar::new(0.6, 0.0, 0.0);
    let d = date(6, 21, [0.5, 9.0, 12.0][choose("hour", 3)]);
    let q = [0.0, 300.0][choose("q", 2)] as Float;
    let mut w = record(d, 10.0, false);
    w.direct_normal_radiation = q;
    w.diffuse_horizontal_radiation = q / 2.0;
    let al = sym("albedo", 0.01, 0.9);
    let (sky, sun) = [(true, true), (false, true), (true, false)][choose("parts", 3)];
    let v = PerezSky::gen_sky_vec(1, &s, d, w, SkyUnits::Solar, al, sky, sun).unwrap();
    let mut u = v.clone();
    for i in 0..146 {
        u.set(i, 0, sym(&format!("b{}", i % 7), 0.0, 100.0)).unwrap();
    }
    PerezSky::update_sky_vec(&mut u, 1, &s, d, w, SkyUnits::Solar, al, sky, sun).unwrap();
    for i in 0..146 {
        close(u.get(i, 0).unwrap(), v.get(i, 0).unwrap(), 1e-9, "a sky replaces the one before it");
    }
    if d.hour < 1.0 {
        let f = PerezSky::get_sky_func_standard_time(SkyUnits::Solar, &s, d, 10.0, q, q);
        let x = sym("x", -0.5, 0.5);
        close(f(Vector3D::new(x, 0.0, (1.0 - x * x).sqrt())), 0.0, 0.0, "the sky is dark at night");
    }
}

// ------------------------------------------------------------------ W01 EPW
fn epw_line() {
    let v = |n: &str| sym(n, 0.0, 400.0);
    let l = EPWWeatherLine {
        year: 1990,
        month: 1 + choose("m", 12) as u8,
        day: [1, 15, 28][choose("d", 3)],
        hour: 1.0 + choose("h", 24) as Float,
        minute: 0,
        uncertainty_flags: true,
        dry_bulb_temperature: v("t"),
        dew_point_temperature: v("dp"),
        relative_humidity: v("rh"),
        atmospheric_station_pressure: v("p"),
        extraterrestrial_horizontal_radiation: v("eh"),
        extraterrestrial_direct_normal_radiation: v("ed"),
        horizontal_infrared_radiation_intensity: v("ir"),
        global_horizontal_radiation: v("gh"),
        direct_normal_radiation: v("dn"),
        diffuse_horizontal_radiation: v("dh"),
        global_horizontal_illuminance: v("gi"),
        direct_normal_illuminance: v("di"),
        diffuse_horizontal_illuminance: v("fi"),
        zenith_luminance: v("zl"),
        wind_direction: v("wd"),
        wind_speed: v("ws"),
        total_sky_cover: v("ts"),
        opaque_sky_cover: v("os"),
        visibility: v("vi"),
        ceiling_height: v("ch"),
        present_weather_observation: v("po"),
        present_weather_codes: v("pc"),
        precipitable_water: v("pw"),
        aerosol_optical_depth: v("ao"),
        snow_depth: v("sd"),
        last_day_since_last_snowfall: 3,
        albedo: v("al"),
        liquid_precipitation_depth: v("ld"),
        liquid_precipitation_quantity: v("lq"),
    };
    let w: CurrentWeather = (&l).into();
    let m = "each field of an EPW line is kept, in the units of the weather";
    check(w.date.month == l.month && w.date.day == l.day, m);
    close(w.date.hour, l.hour, 1e-5, m);
    lt(w.date.hour, 24.0, "the date of a record is valid");
    close(w.dry_bulb_temperature, l.dry_bulb_temperature, 1e-9, m);
    close(w.dew_point_temperature, l.dew_point_temperature, 1e-9, m);
    close(w.relative_humidity, l.relative_humidity / 100.0, 1e-9, m);
    close(w.pressure, l.atmospheric_station_pressure, 1e-9, m);
    close(w.global_horizontal_radiation, l.global_horizontal_radiation, 1e-9, m);
    close(w.direct_normal_radiation, l.direct_normal_radiation, 1e-9, m);
    close(w.diffuse_horizontal_radiation, l.diffuse_horizontal_radiation, 1e-9, m);
    close(w.wind_speed, l.wind_speed, 1e-9, m);
    close(w.wind_direction, l.wind_direction * PI / 180.0, 1e-9, m);
    close(w.opaque_sky_cover, l.opaque_sky_cover / 10.0, 1e-9, m);
    check(w.horizontal_infrared_radiation_intensity.is_some(), m);
    close(w.horizontal_infrared_radiation_intensity.unwrap(), l.horizontal_infrared_radiation_intensity, 1e-9, m);
}
/// reading an EPW file keeps every number where it belongs
fn epw_file() {
    let crlf = choose("crlf", 2) == 1;
    let nl = if crlf { "\r\n" } else { "\n" };
    let (lat, lon, el) = (sym("lat", -90.0, 90.0), sym("long", -180.0, 180.0), sym("el", 0.0, 3000.0));
    let tz = choose("tz", 3);
    let tzs = ["-3", "0.0", "12.0"][tz];
    let depths = [1, 2][choose("depths", 2)];
    let soil = choose("soil", 2) == 1;
    let mut src = format!("LOCATION,\"A, b\",-,CHL,X,123,{},{},{},{}{nl}", text(lat), text(lon), tzs, text(el));
    src += &format!("TYPICAL/EXTREME PERIODS,1,Summer,Extreme,1/1,1/5{nl}GROUND TEMPERATURES,{depths}");
    let mut gt = vec![];
    for i in 0..depths {
        let d = sym(&format!("d{i}"), 0.1, 5.0);
        let s = sym(&format!("s{i}"), 0.1, 5.0);
        src += &format!(",{}", text(d));
        src += &if soil { format!(",{},{},{}", text(s), text(s + 1.0), text(s + 2.0)) } else { ",,,".to_string() };
        for _ in 0..12 {
            src += &format!(",{}", text(d + gt.len() as Float));
            gt.push(d + gt.len() as Float);
        }
    }
    src += &format!("{nl}COMMENTS 1,none{nl}DATA PERIODS,1,1,Data,Sunday, 1/ 1,12/31{nl}");
    let n = 2;
    let mut v = vec![];
    for i in 0..n {
        src += &format!("2001,3,{},{},60,A7A7", 4 + i, 5 + i);
        for k in 0..29 {
            if k == 26 - 1 {
                src += ",88";
                v.push(88.0);
                continue;
            }
            let x = if k == 14 { sym(&format!("wd{i}"), 0.0, 360.0) } else { sym(&format!("x{i}_{k}"), 0.0, 1000.0) };
            src += &format!(",{}", text(x));
            v.push(x);
        }
        src += nl;
    }
    use std::sync::atomic::{AtomicUsize, Ordering};
    static COUNT: AtomicUsize = AtomicUsize::new(0);
    let f = std::env::temp_dir().join(format!("hx-epw-{}-{}.epw", std::process::id(), COUNT.fetch_add(1, Ordering::SeqCst)));
    std::fs::write(&f, src).unwrap();
    let epw = weather::EPWWeather::from_file(f.to_str().unwrap());
    let _ = std::fs::remove_file(&f);
    let epw = epw.unwrap();
    let m = "an EPW file is read column by column";
    close(epw.location.latitude, lat * PI / 180.0, 1e-9, m);
    close(epw.location.longitude, lon * PI / 180.0, 1e-9, m);
    close(epw.location.elevation, el, 1e-9, m);
    check(epw.location.timezone == [-3, 0, 12][tz] && epw.location.country == "CHL", m);
    check(epw.ground_temperature.len() == depths && epw.data.len() == n, m);
    for i in 0..depths {
        let g = &epw.ground_temperature[i];
        for k in 0..12 {
            close(g.average_monthly_temperature[k], gt[12 * i + k], 1e-9, m);
        }
        check(g.soil_conductivity.is_some() == soil && g.soil_density.is_some() == soil && g.soil_specific_heat.is_some() == soil, m);
        close(g.depth, gt[12 * i] - (12 * i) as Float, 1e-9, m);
    }
    for i in 0..n {
        let l = &epw.data[i];
        check(l.year == 2001 && l.month == 3 && l.day as usize == 4 + i, m);
        close(l.hour, (5 + i) as Float, 0.0, m);
        let got = [
            l.dry_bulb_temperature, l.dew_point_temperature, l.relative_humidity, l.atmospheric_station_pressure, l.extraterrestrial_horizontal_radiation,
            l.extraterrestrial_direct_normal_radiation, l.horizontal_infrared_radiation_intensity, l.global_horizontal_radiation, l.direct_normal_radiation,
            l.diffuse_horizontal_radiation, l.global_horizontal_illuminance, l.direct_normal_illuminance, l.diffuse_horizontal_illuminance, l.zenith_luminance,
            l.wind_direction, l.wind_speed, l.total_sky_cover, l.opaque_sky_cover, l.visibility, l.ceiling_height, l.present_weather_observation,
            l.present_weather_codes, l.precipitable_water, l.aerosol_optical_depth, l.snow_depth, l.last_day_since_last_snowfall as Float, l.albedo,
            l.liquid_precipitation_depth, l.liquid_precipitation_quantity,
        ];
        for k in 0..29 {
            close(got[k], v[29 * i + k], 1e-9, m);
        }
    }
    let w: Weather = epw.into();
    check(w.data.len() == n && w.location.country == "CHL", m);
    close(w.data[1].dry_bulb_temperature, v[29], 1e-9, m);
}
fn synthetic() {
    use schedule::ScheduleConstant;
    let v: Vec<Float> = (0..11).map(|i| sym(&format!("v{i}"), 0.0, 400.0)).collect();
    let d = date(1 + choose("m", 12) as u8, 7, sym("h", 0.0, 23.9));
    let s = SyntheticWeather {
        dry_bulb_temperature: Box::new(ScheduleConstant::new(v[0])),
        dew_point_temperature: Box::new(ScheduleConstant::new(v[1])),
        global_horizontal_radiation: Box::new(ScheduleConstant::new(v[2])),
        direct_normal_radiation: Box::new(ScheduleConstant::new(v[3])),
        diffuse_horizontal_radiation: Box::new(ScheduleConstant::new(v[4])),
        wind_speed: Box::new(ScheduleConstant::new(v[5])),
        wind_direction: Box::new(ScheduleConstant::new(v[6])),
        horizontal_infrared_radiation_intensity: Box::new(ScheduleConstant::new(v[7])),
        opaque_sky_cover: Box::new(ScheduleConstant::new(v[8])),
        relative_humidity: Box::new(ScheduleConstant::new(v[9])),
        pressure: Box::new(ScheduleConstant::new(v[10])),
    };
    let w = s.get_weather_data(d);
    let m = "each schedule feeds its own quantity";
    close(w.dry_bulb_temperature, v[0], 1e-9, m);
    close(w.dew_point_temperature, v[1], 1e-9, m);
    close(w.global_horizontal_radiation, v[2], 1e-9, m);
    close(w.direct_normal_radiation, v[3], 1e-9, m);
    close(w.diffuse_horizontal_radiation, v[4], 1e-9, m);
    close(w.wind_speed, v[5], 1e-9, m);
    close(w.horizontal_infrared_radiation_intensity.unwrap(), v[7], 1e-9, m);
    close(w.opaque_sky_cover, v[8], 1e-9, m);
    close(w.relative_humidity, v[9], 1e-9, m);
    close(w.pressure, v[10], 1e-9, m);
    check(w.date.month == d.month && w.date.day == d.day, "the date is the one asked for");
    close(w.date.hour, d.hour, 1e-9, "the date is the one asked for");
    let w = SyntheticWeather::default().get_weather_data(d);
    let m = "what is not known has a default";
    close(w.dry_bulb_temperature, 0.0, 0.0, m);
    close(w.wind_speed, 0.0, 0.0, m);
    close(w.relative_humidity, 0.5, 0.0, m);
    close(w.pressure, 101300.0, 0.0, m);
    check(w.horizontal_infrared_radiation_intensity.is_none(), m);
}

fn main() {
    hx::main(vec![
        case("W01", "lookup_between", lookup_between),
        case("W01", "lookup_exact", lookup_exact),
        case("W01", "lookup_wrap", lookup_wrap),
        case("W01", "sort", sort),
        case("W01", "synthetic", synthetic),
        case("W01", "horizontal_ir", horizontal_ir),
        case("W01", "epw_line", epw_line),
        case("W01", "epw_file", epw_file),
        case("W02", "sun", sun),
        case("W02", "sun_time", sun_time),
        case("W02", "location", location),
        case("W02", "earth", earth),
        case("W02", "estimate", estimate),
        case("W03", "sky_bin", sky_bin),
        case("W03", "sky_ground", sky_ground),
        case("W03", "sky_bins", sky_bins),
        case("W03", "sky_sun", sky_sun),
        case("W03", "sky_dark", sky_dark),
        case("W03", "perez_indices", perez_indices),
        case("W04", "clear_sky", clear_sky),
        case("W04", "erbs", erbs),
        case("W04", "disc", disc),
        case("W04", "dirint_0", dirint_0),
        case("W04", "dirint_1", dirint_1),
        case("W04", "dirint_2", dirint_2),
        case("W04", "dirint_3", dirint_3),
        case("W04", "dirint_4", dirint_4),
        case("W04", "dirint_5", dirint_5),
        case("W04", "cloud_split", cloud_split),
        case("W03", "efficacies", efficacies),
        case("W03", "sky_params", sky_params),
        case("W03", "sky_update", sky_update),
    ]);
}
