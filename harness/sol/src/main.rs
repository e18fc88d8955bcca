use calendar::Date;
use communication::{MetaOptions, SimulationModel};
use geometry::{Loop3D, Point3D, Polygon3D};
use hx::*;
use light::SolarModel;
use model::substance::Normal;
use model::*;
use weather::{CurrentWeather, PerezSky, ReinhartSky, SkyUnits, Solar, WeatherTrait};

const SIGMA: Float = 5.670374419e-8;

struct Sky(CurrentWeather);
impl WeatherTrait for Sky {
    fn get_weather_data(&self, _date: Date) -> CurrentWeather {
        self.0
    }
}
fn meta() -> MetaOptions {
    MetaOptions { latitude: (-41.3 as Float).to_radians(), longitude: (174.78 as Float).to_radians(), standard_meridian: (180.0 as Float).to_radians(), elevation: 0.0 }
}
fn rect(x0: Float) -> Polygon3D {
    let mut l = Loop3D::new();
    for (x, z) in [(x0, 0.0), (x0 + 2.0, 0.0), (x0 + 2.0, 2.0), (x0, 2.0)] {
        l.push(Point3D::new(x, 0.0, z)).unwrap();
    }
    l.close().unwrap();
    Polygon3D::new(l).unwrap()
}
fn bound(i: usize, t: Float) -> Boundary {
    match i {
        0 => Boundary::Outdoor,
        1 => Boundary::Space { space: "a".to_string() },
        2 => Boundary::Ground,
        3 => Boundary::Adiabatic,
        _ => Boundary::AmbientTemperature { temperature: t },
    }
}
/// a side of a surface or window, as it is in the state
#[derive(Clone, Copy)]
struct Side {
    sun: Float,
    ir: Float,
    temp: Float,
}
struct Scene {
    m: Model,
    a: SolarModel,
    state: SimulationState,
}
/// view factors and daylight coefficients: front and back of surfaces and then of windows
struct Optics {
    vf: Vec<[Float; 3]>,
    dc: Vec<Vec<Float>>,
}
fn optics(n: usize, nw: usize, mf: usize, symbolic: bool) -> Optics {
    let bins = ReinhartSky::n_bins(mf);
    let vf = (0..2 * (n + nw))
        .map(|i| {
            let f = |k: usize| if symbolic { sym(&format!("vf{i}_{k}"), 0.0, 1.0) } else { 0.1 + 0.05 * i as f64 + 0.2 * k as f64 };
            [f(0), f(1), f(2)]
        })
        .collect();
    let dc = (0..2 * (n + nw)).map(|i| (0..bins).map(|k| if symbolic && k % 50 == i { sym(&format!("dc{i}_{k}"), 0.0, 0.01) } else { 1e-4 * (((i * 7 + k * 3) % 11) as f64) }).collect()).collect();
    Optics { vf, dc }
}
fn file(o: &Optics, n: usize, nw: usize) -> String {
    let vf = |r: std::ops::Range<usize>| {
        let v: Vec<String> = o.vf[r].iter().map(|v| format!("{{\"sky\":{},\"ground\":{},\"air\":{}}}", text(v[0]), text(v[1]), text(v[2]))).collect();
        format!("[{}]", v.join(","))
    };
    let dc = |r: std::ops::Range<usize>| {
        let v: Vec<Vec<Float>> = o.dc[r.clone()].to_vec();
        let cols = if v.is_empty() { 0 } else { v[0].len() };
        let d: Vec<String> = v.iter().flatten().map(|x| text(*x)).collect();
        format!("{{\"nrows\":{},\"ncols\":{},\"data\":[{}]}}", v.len(), cols, d.join(","))
    };
    let (a, b, c, d) = (0..n, n..2 * n, 2 * n..2 * n + nw, 2 * n + nw..2 * (n + nw));
    format!(
        "{{\"front_surfaces_view_factors\":{},\"back_surfaces_view_factors\":{},\"front_fenestrations_view_factors\":{},\"back_fenestrations_view_factors\":{},\"front_surfaces_dc\":{},\"back_surfaces_dc\":{},\"front_fenestrations_dc\":{},\"back_fenestrations_dc\":{}}}",
        vf(a.clone()), vf(b.clone()), vf(c.clone()), vf(d.clone()), dc(a), dc(b), dc(c), dc(d)
    )
}
/// surfaces and windows with those (front, back) boundaries, and their state
fn scene(s: &[(usize, usize)], w: &[(usize, usize)], t_amb: Float, o: &Optics, before: &[Side]) -> Scene {
    let mut m = Model::default();
    m.add_space(Space::new("a".to_string()));
    let mut sub = Normal::new("solid".to_string());
    sub.set_thermal_conductivity(1.0);
    m.add_substance(sub.wrap());
    m.add_material(Material::new("m1".to_string(), "solid".to_string(), 0.1));
    let mut c = Construction::new("c".to_string());
    c.materials.push("m1".to_string());
    m.add_construction(c);
    for (i, b) in s.iter().enumerate() {
        m.add_surface(Surface::new(format!("s{i}"), rect(i as f64 * 3.0), "c".to_string(), bound(b.0, t_amb), bound(b.1, t_amb))).unwrap();
    }
    for (i, b) in w.iter().enumerate() {
        let kind = if i == 2 { FenestrationType::Opening } else { FenestrationType::Window };
        m.add_fenestration(Fenestration::new(format!("w{i}"), rect(50.0 + i as f64 * 3.0), "c".to_string(), kind, bound(b.0, t_amb), bound(b.1, t_amb))).unwrap();
    }
    let mut h = m.take_state().unwrap();
    let n = s.len();
    for (i, x) in m.surfaces.iter().enumerate() {
        add(&**x, &mut h, i);
    }
    for (i, x) in m.fenestrations.iter().enumerate() {
        add(&**x, &mut h, i);
    }
    let f = std::env::temp_dir().join(format!("hx-sol-{}-{:?}.json", std::process::id(), std::thread::current().id()));
    let f = f.to_str().unwrap().to_string();
    std::fs::write(&f, file(o, n, w.len())).unwrap();
    let mut op = SolarOptions::new();
    op.set_optical_data_path(f.clone());
    let a = SolarModel::new(&meta(), op, &m, &mut h, 1);
    std::fs::remove_file(&f).unwrap();
    let a = a.unwrap();
    let mut state = h.take_values().unwrap();
    for i in 0..n {
        let x = &m.surfaces[i];
        let (f, b) = (before[i], before[n + i]);
        x.set_front_incident_solar_irradiance(&mut state, f.sun).unwrap();
        x.set_back_incident_solar_irradiance(&mut state, b.sun).unwrap();
        x.set_front_ir_irradiance(&mut state, f.ir).unwrap();
        x.set_back_ir_irradiance(&mut state, b.ir).unwrap();
        let k = x.first_node_temperature_index().unwrap();
        state[k] = f.temp;
        let k = x.last_node_temperature_index().unwrap();
        state[k] = b.temp;
    }
    for i in 0..w.len() {
        let x = &m.fenestrations[i];
        let (f, b) = (before[2 * n + i], before[2 * n + w.len() + i]);
        x.set_front_incident_solar_irradiance(&mut state, f.sun).unwrap();
        x.set_back_incident_solar_irradiance(&mut state, b.sun).unwrap();
        x.set_front_ir_irradiance(&mut state, f.ir).unwrap();
        x.set_back_ir_irradiance(&mut state, b.ir).unwrap();
        let k = x.first_node_temperature_index().unwrap();
        state[k] = f.temp;
        let k = x.last_node_temperature_index().unwrap();
        state[k] = b.temp;
    }
    Scene { m, a, state }
}
fn add<S: SurfaceTrait>(x: &S, h: &mut SimulationStateHeader, i: usize) {
    x.add_front_solar_irradiance_state(h, i).unwrap();
    x.add_back_solar_irradiance_state(h, i).unwrap();
    x.add_front_ir_irradiance_state(h, i).unwrap();
    x.add_back_ir_irradiance_state(h, i).unwrap();
    x.add_node_temperature_states(h, i, 3).unwrap();
}
fn after(s: &Scene) -> Vec<Side> {
    let mut ret = vec![];
    let st = &s.state;
    for x in &s.m.surfaces {
        ret.push(Side { sun: x.front_solar_irradiance(st), ir: x.front_infrared_irradiance(st), temp: x.front_temperature(st) });
    }
    for x in &s.m.surfaces {
        ret.push(Side { sun: x.back_solar_irradiance(st), ir: x.back_infrared_irradiance(st), temp: x.back_temperature(st) });
    }
    for x in &s.m.fenestrations {
        ret.push(Side { sun: x.front_solar_irradiance(st), ir: x.front_infrared_irradiance(st), temp: x.front_temperature(st) });
    }
    for x in &s.m.fenestrations {
        ret.push(Side { sun: x.back_solar_irradiance(st), ir: x.back_infrared_irradiance(st), temp: x.back_temperature(st) });
    }
    ret
}
fn sides(n: usize) -> Vec<Side> {
    (0..n).map(|i| Side { sun: sym(&format!("sun{i}"), 0.0, 1000.0), ir: sym(&format!("ir{i}"), 0.0, 600.0), temp: sym(&format!("temp{i}"), -20.0, 60.0) }).collect()
}
fn march(s: &mut Scene, date: Date, w: CurrentWeather) {
    let mut mem = s.a.allocate_memory(&s.state).unwrap();
    s.a.march(date, &Sky(w), &s.m, &mut s.state, &mut mem).unwrap();
}
fn black(t: Float) -> Float {
    SIGMA * (t + 273.15) * (t + 273.15) * (t + 273.15) * (t + 273.15)
}
/// infrared radiation, at night
fn infrared() {
    let (f, b) = (choose("front", 5), choose("back", 5));
    let other = (choose("other", 5), 0);
    let (s, w) = (vec![(f, b), other], vec![(b, f), other]);
    let o = optics(2, 2, 1, true);
    let before = sides(8);
    let (t_amb, t_out) = (sym("t_amb", -20.0, 50.0), sym("t_out", -20.0, 50.0));
    let given = choose("given", 2) == 1;
    let hir = sym("hir", 50.0, 500.0);
    let mut wd = CurrentWeather { dry_bulb_temperature: t_out, dew_point_temperature: 5.0, opaque_sky_cover: 3.0, direct_normal_radiation: sym("dni", 0.0, 4e-5), diffuse_horizontal_radiation: sym("dhi", 0.0, 4e-5), horizontal_infrared_radiation_intensity: Some(hir), ..CurrentWeather::default() };
    let mut sky_ir = hir;
    if !given {
        wd.horizontal_infrared_radiation_intensity = None;
        sky_ir = wd.derive_horizontal_ir();
    }
    let mut x = scene(&s, &w, t_amb, &o, &before);
    march(&mut x, Date { month: 3, day: 5, hour: 2.0 }, wd);
    let got = after(&x);
    let all: Vec<usize> = s.iter().map(|a| a.0).chain(s.iter().map(|a| a.1)).chain(w.iter().map(|a| a.0)).chain(w.iter().map(|a| a.1)).collect();
    for i in 0..8 {
        close(got[i].sun, 0.0, 0.0, "no sun at night");
        close(got[i].temp, before[i].temp, 0.0, "temperatures are left alone");
        match all[i] {
            0 => close(got[i].ir, (o.vf[i][1] + o.vf[i][2]) * black(t_out) + o.vf[i][0] * sky_ir, 1e-6, "infrared radiation outdoors"),
            1 => close(got[i].ir, black(before[i].temp), 1e-6, "infrared radiation in a space"),
            4 => close(got[i].ir, black(t_amb), 1e-6, "infrared radiation of the ambient"),
            _ => close(got[i].ir, before[i].ir, 0.0, "no infrared exchange with the ground"),
        }
    }
}
/// the average of the radiation now and before, on the sides that get sun
fn sun() {
    let (f, b) = (choose("front", 5), choose("back", 5));
    let mf = if thorough() { 1 + choose("mf", 2) } else { 1 };
    let (s, w) = (vec![(f, b), (0, 1)], vec![(b, f), (1, 0), (0, 0)]);
    let mut o = optics(2, 3, mf, true);
    // the sides that get no sun have no coefficients
    let all: Vec<usize> = s.iter().map(|a| a.0).chain(s.iter().map(|a| a.1)).chain(w.iter().map(|a| a.0)).chain(w.iter().map(|a| a.1)).collect();
    for i in 0..10 {
        if all[i] > 1 {
            for x in o.dc[i].iter_mut() {
                *x = 0.0;
            }
        }
    }
    let before = sides(10);
    let date = [Date { month: 12, day: 21, hour: 12.5 }, Date { month: 6, day: 10, hour: 9.0 }, Date { month: 3, day: 21, hour: 16.5 }][choose("date", 3)];
    let (dni, dhi) = [(800.0, 120.0), (0.0, 200.0), (300.0, 300.0)][choose("sky", 3)];
    let wd = CurrentWeather { dry_bulb_temperature: 20.0, dew_point_temperature: 11.0, direct_normal_radiation: dni, diffuse_horizontal_radiation: dhi, horizontal_infrared_radiation_intensity: Some(300.0), ..CurrentWeather::default() };
    let mut x = scene(&s, &w, 20.0, &o, &before);
    march(&mut x, date, wd);
    let got = after(&x);
    let mt = meta();
    let solar = Solar::new(mt.latitude, -mt.longitude, -mt.standard_meridian);
    let v = PerezSky::gen_sky_vec(mf, &solar, date, wd, SkyUnits::Solar, 0.2, true, true).unwrap();
    for i in 0..10 {
        if i == 6 || i == 9 {
            // the opening
            close(got[i].sun, before[i].sun, 0.0, "openings get nothing");
            continue;
        }
        if all[i] > 1 {
            close(got[i].sun, 0.0, 1e-9, "no sun on this side");
            continue;
        }
        let mut e = 0.0;
        for k in 0..o.dc[i].len() {
            e += o.dc[i][k] * v.get(k, 0).unwrap();
        }
        le(before[i].sun / 2.0, got[i].sun, 1e-6, "the sky does not take radiation away");
        close(got[i].sun, (e + before[i].sun) / 2.0, 1e-5, "average of the radiation now and before");
    }
}
fn main() {
    hx::main(vec![case("L01", "infrared", infrared), case("L01", "sun", sun)]);
}
