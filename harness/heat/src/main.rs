use calendar::Date;
use geometry::{Loop3D, Point3D, Polygon3D, Vector3D};
use heat::cavity::Cavity;
use heat::convection::ConvectionParams;
use heat::discretization::{Discretization, UValue};
use heat::gas::{AIR, ARGON, KRYPTON, XENON};
use heat::glazing::Glazing;
use heat::surface::{is_windward, rk4, ChunkMemory};
use hx::*;
use model::substance::gas::GasSpecification;
use model::substance::{Gas, Normal};
use communication::{MetaOptions, SimulationModel};
use heat::heat_model::ThermalModel;
use heat::surface::ThermalSurface;
use model::hvac::{ElectricHeater, IdealHeaterCooler};
use model::{Boundary, Construction, Fenestration, FenestrationType, Luminaire, Material, Model, SimulationState, SimulationStateHeader, Space, Surface, SurfaceTrait, Infiltration, SiteDetails, TerrainClass};
use weather::{CurrentWeather, WeatherTrait};
use std::sync::Arc;

const PI: Float = 3.14159265358979323846;
const SIGMA: Float = 5.670374419e-8;

// ------------------------------------------------------------------ H01 glazing
fn layer(i: usize, tau0: bool) -> Glazing {
    let t = if tau0 { 0.0 } else { sym(&format!("tau{i}"), 0.01, 0.95) };
    let (f, b) = (sym(&format!("rf{i}"), 0.01, 0.95), sym(&format!("rb{i}"), 0.01, 0.95));
    assume_le(t + f, 0.99);
    assume_le(t + b, 0.99);
    Glazing::new(t, f, b)
}
/// the share of the energy that each layer absorbs, and what the whole lets through and reflects
fn absorbed(l: &[Glazing]) -> (Vec<Float>, Float, Float) {
    let n = l.len();
    // what the layers from i on reflect
    let mut r = vec![0.0; n + 1];
    for i in (0..n).rev() {
        r[i] = l[i].rho_front() + l[i].tau() * l[i].tau() * r[i + 1] / (1.0 - l[i].rho_back() * r[i + 1]);
    }
    let mut ret = vec![];
    let mut down = 1.0;
    for i in 0..n {
        let next = l[i].tau() * down / (1.0 - l[i].rho_back() * r[i + 1]);
        ret.push(l[i].alpha_front() * down + l[i].alpha_back() * next * r[i + 1]);
        down = next;
    }
    (ret, down, r[0])
}
fn glazing_layers() {
    let n = 1 + choose("n", if thorough() { 4 } else { 3 });
    let opaque = choose("opaque", 2) == 1;
    let l: Vec<Glazing> = (0..n).map(|i| layer(i, opaque && i == n - 1)).collect();
    for g in &l {
        close(g.alpha_front() + g.rho_front() + g.tau(), 1.0, 1e-9, "what is not reflected or transmitted is absorbed");
        close(g.alpha_back() + g.rho_back() + g.tau(), 1.0, 1e-9, "what is not reflected or transmitted is absorbed");
    }
    let (abs, tau, rho) = absorbed(&l);
    let c = Glazing::combine_layers(&l);
    close(c.tau(), tau, 1e-6, "transmittance of the layers together");
    close(c.rho_front(), rho, 1e-6, "reflectance of the layers together");
    let a = Glazing::alphas(&l);
    check(a.len() == n, "an absorbed share per layer");
    let mut sum = 0.0;
    for i in 0..n {
        close(a[i], abs[i], 1e-6, "each layer absorbs its share");
        sum += a[i];
    }
    close(sum, 1.0 - tau - rho, 1e-6, "energy is conserved");
}
fn glazing_combine() {
    let (a, b) = (layer(0, false), layer(1, false));
    let c = a.combine(&b);
    // seen from the back, it is the same stack turned around
    let flip = |g: &Glazing| Glazing::new(g.tau(), g.rho_back(), g.rho_front());
    let d = flip(&b).combine(&flip(&a));
    close(c.tau(), d.tau(), 1e-6, "light goes through equally in both directions");
    close(c.rho_front(), d.rho_back(), 1e-6, "the front is the back of the stack turned around");
    close(c.rho_back(), d.rho_front(), 1e-6, "the front is the back of the stack turned around");
    le(c.tau(), a.tau(), 1e-9, "more layers let less through");
    le(c.tau(), b.tau(), 1e-9, "more layers let less through");
    le(a.rho_front(), c.rho_front(), 1e-9, "more layers reflect more");
}
fn glazing_three() {
    let l = [layer(0, false), layer(1, false), layer(2, false)];
    let x = l[0].combine(&l[1]).combine(&l[2]);
    let y = l[0].combine(&l[1].combine(&l[2]));
    close(x.tau(), y.tau(), 1e-6, "layers can be put together in any order");
    close(x.rho_front(), y.rho_front(), 1e-6, "layers can be put together in any order");
    close(x.rho_back(), y.rho_back(), 1e-6, "layers can be put together in any order");
}
struct Pane {
    tau: Float,
    af: Float,
    ab: Float,
}
/// a model with a construction of panes separated by cavities
fn window(p: &[Pane]) -> (Model, Arc<Construction>) {
    let mut m = Model::default();
    let mut g = Gas::new("gas".to_string());
    g.set_gas(GasSpecification::Air);
    m.add_substance(g.wrap());
    m.add_material(Material::new("cavity".to_string(), "gas".to_string(), 0.012));
    let mut c = Construction::new("c".to_string());
    for (i, p) in p.iter().enumerate() {
        if i > 0 {
            c.materials.push("cavity".to_string());
        }
        let mut s = Normal::new(format!("s{i}"));
        s.set_thermal_conductivity(1.0).set_density(2500.0).set_specific_heat_capacity(840.0);
        s.set_front_solar_absorbtance(p.af).set_back_solar_absorbtance(p.ab);
        if p.tau != 0.0 {
            s.set_solar_transmittance(p.tau);
        }
        m.add_substance(s.wrap());
        m.add_material(Material::new(format!("m{i}"), format!("s{i}"), 0.003));
        c.materials.push(format!("m{i}"));
    }
    let c = m.add_construction(c);
    (m, c)
}
fn panes(n: usize) -> Vec<Pane> {
    let opaque = choose("opaque", n + 1);
    (0..n)
        .map(|i| {
            let p = Pane { tau: if i + 1 == opaque { 0.0 } else { sym(&format!("tau{i}"), 0.01, 0.5) }, af: sym(&format!("af{i}"), 0.01, 0.4), ab: sym(&format!("ab{i}"), 0.01, 0.4) };
            p
        })
        .collect()
}
/// from the model: the panes as the sun sees them, from either side
fn glazing_of_model() {
    let n = 1 + choose("n", 3);
    let p = panes(n);
    let (m, c) = window(&p);
    let side = choose("side", 2);
    let g = if side == 0 { Glazing::get_front_glazing_system(&c, &m) } else { Glazing::get_back_glazing_system(&c, &m) };
    let g = g.unwrap();
    let order: Vec<usize> = if side == 0 { (0..n).collect() } else { (0..n).rev().collect() };
    let mut seen = 0;
    for i in order {
        check(seen < g.len(), "every pane up to an opaque one is there");
        let (first, second) = if side == 0 { (p[i].af, p[i].ab) } else { (p[i].ab, p[i].af) };
        let x = &g[seen];
        close(x.tau(), p[i].tau, 1e-9, "transmittance of the pane");
        close(x.alpha_front(), first, 1e-9, "absorbtance of the side that faces the sun");
        close(x.alpha_back(), second, 1e-9, "absorbtance of the other side");
        seen += 1;
        if p[i].tau == 0.0 {
            break;
        }
    }
    check(g.len() == seen, "nothing is seen behind an opaque pane");
}

// ------------------------------------------------------------------ H02 convection
fn air(ta: Float, ts: Float, cos: Float, speed: Float, rough: usize) -> ConvectionParams {
    ConvectionParams { air_temperature: ta, air_speed: speed, rad_temperature: 0.0, surface_temperature: ts, roughness_index: rough, cos_surface_tilt: cos }
}
fn tarp_natural() {
    let (ta, ts) = (sym("ta", -20.0, 40.0), sym("ts", -20.0, 60.0));
    let k = choose("k", 3);
    let c = [0.0, sym("c", 0.01, 1.0), -sym("c", 0.01, 1.0)][k];
    let h = air(ta, ts, c, 0.0, 1).get_tarp_natural_convection_coefficient();
    le(0.1, h, 0.0, "convection coefficients are at least the minimum");
    // turning the surface around and exchanging hot and cold is the same thing
    let g = air(ts, ta, -c, 0.0, 1).get_tarp_natural_convection_coefficient();
    close(h, g, 1e-9, "only the stability of the air matters");
    let d = ta - ts;
    if d < 0.01 && d > -0.01 {
        return;
    }
    let p = d.abs().powf(1. / 3.);
    let e = if k == 0 {
        1.31 * p
    } else if (d > 0.0) == (c > 0.0) {
        9.482 * p / (7.238 - c.abs())
    } else {
        1.81 * p / (1.382 + c.abs())
    };
    if e > 0.1 {
        close(h, e, 1e-6, "TARP natural convection");
    }
}
fn tarp_forced() {
    let (ta, ts, v) = (sym("ta", -20.0, 40.0), sym("ts", -20.0, 60.0), sym("v", 0.01, 20.0));
    let (area, per) = (sym("area", 0.5, 50.0), sym("per", 1.0, 40.0));
    let c = [0.0, 0.5, -1.0][choose("c", 3)];
    let r = choose("r", 6);
    let p = air(ta, ts, c, v, r);
    let n = p.get_tarp_natural_convection_coefficient();
    let k = 2.537 * [2.17, 1.67, 1.52, 1.13, 1.11, 1.0][r] * (per * v / area).sqrt();
    close(p.get_tarp_convection_coefficient(area, per, true), n + k, 1e-6, "forced convection, windward");
    close(p.get_tarp_convection_coefficient(area, per, false), n + k / 2.0, 1e-6, "forced convection, leeward");
}
fn windward() {
    let w = sym("w", 0.0, 6.2831);
    let (x, y) = [(0.0, 1.0), (1.0, 0.0), (0.0, -1.0), (-1.0, 0.0), (0.6, 0.8), (-0.8, 0.6)][choose("n", 6)];
    let z = [0.0, 0.6, -0.8][choose("z", 3)];
    let k: Float = 1.0 - z * z;
    let n = Vector3D::new(x * k.sqrt(), y * k.sqrt(), z);
    // wind comes from the angle w, clockwise from the north
    let d = (w.sin() * x + w.cos() * y) * k.sqrt();
    if d > 1e-6 {
        check(is_windward(w, z, n), "a surface that faces the wind is windward");
    }
    if d < -1e-6 {
        check(!is_windward(w, z, n), "a surface that looks away from the wind is not");
    }
    check(is_windward(w, 0.99, Vector3D::new(0.0, 0.141, 0.99)) && is_windward(w, -1.0, Vector3D::new(0.0, 0.0, -1.0)), "roofs and floors are windward");
}
fn gas_of(k: usize) -> heat::gas::Gas {
    [AIR, ARGON, KRYPTON, XENON][k].clone()
}
fn gas_properties() {
    let k = choose("gas", 4);
    let g = gas_of(k);
    let t = sym("t", 200.0, 400.0);
    let c = [(2.873e-3, 7.760e-5), (2.285e-3, 5.149e-5), (9.443e-4, 2.826e-5), (4.538e-4, 1.723e-5)][k];
    close(g.thermal_conductivity(t) * 100.0, (c.0 + c.1 * t) * 100.0, 1e-9, "conductivity of the gas");
    let c = [(3.723e-6, 4.94e-8), (3.379e-6, 6.451e-8), (2.213e-6, 7.777e-8), (1.069e-6, 7.414e-8)][k];
    close(g.dynamic_viscosity(t) * 1e5, (c.0 + c.1 * t) * 1e5, 1e-9, "viscosity of the gas");
    let c = [(1002.7370, 1.2324e-2), (521.9285, 0.0), (248.0907, 0.0), (158.3397, 0.0)][k];
    close(g.heat_capacity(t), c.0 + c.1 * t, 1e-6, "heat capacity of the gas");
    let m = [28.97, 39.948, 83.8, 131.30][k];
    close(g.mass(), m, 0.0, "mass of the gas");
    // ideal gas
    close(g.density(t) * 8314.46261815324 * t / 101325.0, m, 1e-6, "density of the gas");
}
/// turning the cavity around, with its temperatures, changes nothing
fn cavity_flip() {
    let g = gas_of(choose("gas", if thorough() { 4 } else { 2 }));
    // the hotter side is the front, or the back
    let (t, dt) = (sym("t", -10.0, 30.0), sym("dt", 0.1, 30.0));
    let gamma = [0.0, PI / 6.0, PI, 1.3, PI / 2.0, 2.0, PI / 3.0, 3.0][choose("gamma", 8)];
    let (h, d) = (1.0, [0.02, 0.006][choose("d", if thorough() { 2 } else { 1 })]);
    let a = g.cavity_convection(h, d, gamma, t + dt, t);
    let b = g.cavity_convection(h, d, PI - gamma, t, t + dt);
    close(a, b, 1e-6, "a cavity turned around transmits the same heat");
}
/// still air only conducts
fn cavity_still() {
    let g = gas_of(choose("gas", 4));
    let t = sym("t", -10.0, 50.0);
    let d = sym("d", 0.005, 0.05);
    let lambda = g.thermal_conductivity(t + 273.15);
    let gamma = [0.0, PI / 6.0, PI / 2.0, 2.5, PI][choose("gamma", 5)];
    let u = g.cavity_convection(1.0, d, gamma, t, t);
    close(u * d, lambda, 1e-3, "air between equal temperatures only conducts");
    // horizontal and hot above: no convection either
    let dt = sym("dt", 0.1, 40.0);
    let lambda = g.thermal_conductivity(t + dt / 2.0 + 273.15);
    // the angle is that of the normal of the surface: at 0 it looks up, its front is above
    close(g.cavity_convection(1.0, d, 0.0, t + dt, t) * d, lambda, 1e-6, "air that is hot above only conducts");
    close(g.cavity_convection(1.0, d, PI, t, t + dt) * d, lambda, 1e-6, "air that is hot above only conducts");
}
/// convection never transmits less than still air
fn cavity_min() {
    let g = gas_of(choose("gas", 2));
    let t = sym("t", -10.0, 30.0);
    let dt = sym("dt", 0.1, 30.0);
    let gamma = [0.0, 0.7, PI / 3.0][choose("gamma", 3)];
    let d = [0.012, 0.02, 0.05][choose("d", if gamma < 1.5 { 3 } else { 2 })];
    let lambda = g.thermal_conductivity(t + dt / 2.0 + 273.15);
    le(lambda, g.cavity_convection(1.0, d, gamma, t, t + dt) * d, 1e-6, "convection never transmits less than still air");
}
/// ISO 15099, equations 39 to 54
fn cavity_iso() {
    let g = gas_of(choose("gas", 4));
    let t = sym("t", -10.0, 30.0);
    let dt = sym("dt", 0.1, 30.0);
    let d: Float = [0.012, 0.02, 0.05][choose("d", 3)];
    let tm = (t + 273.15 + (t + dt + 273.15)) / 2.0;
    let (lambda, rho) = (g.thermal_conductivity(tm), g.density(tm));
    let ra = rho.powi(2) * d.powi(3) * 9.81 * (1.0 / tm) * g.heat_capacity(tm) * (t - (t + dt)).abs() / (g.dynamic_viscosity(tm) * lambda);
    let asp = 1.0 / d;
    let max = |a: Float, b: Float| if a > b { a } else { b };
    let k = choose("gamma", 3);
    let (gamma, nu) = if k == 0 {
        let gamma: Float = 0.5;
        let x = ra * gamma.cos();
        let dot = |x: Float| (x + x.abs()) / 2.0;
        let b = 1.0 - 1708.0 * (1.8 * gamma).sin().powf(1.6) / x;
        (gamma, 1.0 + 1.44 * dot(1.0 - 1708.0 / x) * b + dot((x / 5830.0).powf(1. / 3.) - 1.0))
    } else if k == 1 {
        let w = 0.5 / (1.0 + (ra / 3160.0).powf(20.6)).powf(0.1);
        let a = (1.0 + (0.0936 * ra.powf(0.314) / (1.0 + w)).powi(7)).powf(1. / 7.);
        (PI / 3.0, max(a, (0.104 + 0.175 / asp) * ra.powf(0.283)))
    } else {
        let a = if ra <= 1e4 {
            1.0 + 1.7596678e-10 * ra.powf(2.2984755)
        } else if ra <= 5e4 {
            0.028154 * ra.powf(0.4134)
        } else {
            0.0673838 * ra.powf(1. / 3.)
        };
        assume_ne(ra, 5e4);
        (PI / 2.0, max(a, 0.242 * (ra / asp).powf(0.272)))
    };
    close(g.cavity_convection(1.0, d, gamma, t, t + dt), nu * lambda / d, 1e-6, "ISO 15099");
}
/// between the angles for which there are correlations
fn cavity_tilt() {
    let g = gas_of(choose("gas", if thorough() { 4 } else { 2 }));
    let t = sym("t", -10.0, 30.0);
    let dt = sym("dt", 0.1, 30.0);
    let d = [0.012, 0.02, 0.05][choose("d", 3)];
    let u = |gamma: Float| g.cavity_convection(1.0, d, gamma, t, t + dt) * d;
    let lambda = g.thermal_conductivity(t + dt / 2.0 + 273.15);
    let k = choose("gamma", 4);
    let v = u(PI / 2.0);
    if k < 2 {
        let gamma = [1.2, 1.4][k];
        let w = u(PI / 3.0);
        let x = (gamma - PI / 3.0) / (PI / 6.0);
        close(u(gamma), w + (v - w) * x, 1e-6, "between 60 and 90 degrees");
    } else {
        let gamma: Float = [2.0, 3.0][k - 2];
        close(u(gamma), lambda + (v - lambda) * gamma.sin(), 1e-6, "between 90 and 180 degrees");
    }
}
fn cavity_radiation() {
    let (eo, ei) = (sym("eo", 0.05, 0.95), sym("ei", 0.05, 0.95));
    let (tf, tb) = (sym("tf", -10.0, 50.0), sym("tb", -10.0, 50.0));
    let c = |eo: Float, ei: Float| Cavity { thickness: 0.012, height: 1.0, gas: AIR, eout: eo, ein: ei, angle: PI / 2.0 };
    let x = c(eo, ei);
    let conv = AIR.cavity_convection(1.0, 0.012, PI / 2.0, tf, tb);
    let tm = (tf + tb) / 2.0 + 273.15;
    // linearised radiation between two infinite planes
    let rad = 4.0 * SIGMA * tm * tm * tm / (1.0 / eo + 1.0 / ei - 1.0);
    close(x.u_value(tf, tb), conv + rad, 1e-5, "convection plus radiation");
    close(x.u_value(tf, tb), c(ei, eo).u_value(tf, tb), 1e-6, "both panes play the same part");
}

// ------------------------------------------------------------------ H03 discretization
#[derive(Clone, Copy)]
struct Solid {
    k: Float,
    rho: Float,
    cp: Float,
    d: Float,
}
enum Lay {
    S(Solid),
    G(Float),
}
fn wall(l: &[Lay]) -> (Model, Arc<Construction>) {
    wall_e(l, (0.9, 0.7))
}
fn wall_e(l: &[Lay], e: (Float, Float)) -> (Model, Arc<Construction>) {
    let mut m = Model::default();
    let mut c = Construction::new("c".to_string());
    for (i, l) in l.iter().enumerate() {
        match l {
            Lay::S(s) => {
                let mut x = Normal::new(format!("s{i}"));
                x.set_thermal_conductivity(s.k).set_density(s.rho).set_specific_heat_capacity(s.cp);
                x.set_front_thermal_absorbtance(e.0).set_back_thermal_absorbtance(e.1);
                x.set_front_solar_absorbtance(FRONT_SUN).set_back_solar_absorbtance(BACK_SUN);
                m.add_substance(x.wrap());
                m.add_material(Material::new(format!("m{i}"), format!("s{i}"), s.d));
            }
            Lay::G(d) => {
                let mut g = Gas::new(format!("s{i}"));
                g.set_gas(GasSpecification::Argon);
                m.add_substance(g.wrap());
                m.add_material(Material::new(format!("m{i}"), format!("s{i}"), *d));
            }
        }
        c.materials.push(format!("m{i}"));
    }
    let c = m.add_construction(c);
    (m, c)
}
/// number of elements and time steps of one layer
fn disc_layer() {
    let s = Solid { k: sym("k", 0.02, 3.0), rho: 1000.0, cp: 1000.0 * sym("c", 0.02, 2.5), d: sym("d", 0.003, 0.24) };
    let (m, c) = wall(&[Lay::S(s)]);
    let dt = [3600.0, 900.0, 300.0][choose("dt", 3)];
    let max_dx = 0.05;
    let (n, e) = Discretization::discretize_construction(&c, &m, dt, max_dx, 60.0).unwrap();
    check(e.len() == 1, "an entry per layer");
    if e[0] == 0 {
        return;
    }
    check(n >= 1 && n <= 13, "number of time steps");
    le(60.0, dt / n as Float, 0.0, "time steps are not shorter than the limit");
    let dx = s.d / e[0] as Float;
    le(dx, max_dx, 1e-9, "elements are not thicker than the limit");
    // the explicit time step is stable, even for the node at the surface
    let (c, dt) = (s.rho * s.cp / 1e6, dt / n as Float / 1e6);
    le(dt * dx / 0.05 + 2.0 * dt * s.k, 2.0 * c * dx * dx, 1e-9, "the time step is stable");
}
fn shapes(k: usize, s: &[Solid]) -> Vec<Lay> {
    match k {
        0 => vec![Lay::S(s[0])],
        1 => vec![Lay::S(s[0]), Lay::S(s[1])],
        2 => vec![Lay::S(s[0]), Lay::G(0.02), Lay::S(s[1])],
        3 => vec![Lay::S(s[0]), Lay::S(s[1]), Lay::S(s[2])],
        _ => vec![Lay::S(s[0]), Lay::G(0.02), Lay::S(s[1]), Lay::G(0.01), Lay::S(s[2])],
    }
}
/// nodes, masses and conductances of a construction
fn disc_nodes() {
    // what makes each layer massive or not is fixed, its mass and conductance are not
    let mut s = vec![];
    for i in 0..3 {
        let d = [0.11, 0.003, 0.04][choose(&format!("kind{i}"), 3)];
        let heavy = d > 0.05;
        s.push(Solid { k: if heavy { 1.0 } else { sym(&format!("k{i}"), 0.02, 3.0) }, rho: sym(&format!("rho{i}"), 1500.0, 2500.0), cp: if d == 0.04 { 2.0 } else { 900.0 }, d });
    }
    let shape = choose("shape", 5);
    let l = shapes(shape, &s);
    let (m, c) = wall(&l);
    let d = Discretization::new(&c, &m, 1200.0, 0.05, 60.0, 1.0, PI / 2.0).unwrap();
    let e = d.n_elements.clone();
    check(e.len() == l.len(), "an entry per layer");
    let nodes: usize = e.iter().map(|x| if *x == 0 { 1 } else { *x }).sum::<usize>() + 1;
    check(d.segments.len() == nodes, "a node at each end of each element");
    check(matches!(d.segments[nodes - 1].1, UValue::Back), "the last node is the back");
    let (mut mass, mut r) = (0.0, 0.0);
    let mut node = 0;
    let mut expected = vec![0.0; nodes];
    for (i, x) in l.iter().enumerate() {
        let n = if e[i] == 0 { 1 } else { e[i] };
        for k in 0..n {
            match (x, &d.segments[node + k].1) {
                (Lay::S(s), UValue::Solid(u)) => {
                    close(*u * s.d / n as Float, s.k, 1e-6, "conductance of an element");
                    if e[i] > 0 {
                        let w = s.rho * s.cp * s.d / n as Float / 1e3;
                        expected[node + k] += w / 2.0;
                        expected[node + k + 1] += w / 2.0;
                    }
                }
                (Lay::G(t), UValue::Cavity(c)) => {
                    check(e[i] == 0, "gases have no mass");
                    close(c.thickness, *t, 1e-9, "thickness of the cavity");
                    close(c.eout, 0.7, 1e-9, "the cavity sees the back of the layer before it");
                    close(c.ein, 0.9, 1e-9, "the cavity sees the front of the layer after it");
                    close(c.angle, PI / 2.0, 1e-9, "tilt of the cavity");
                }
                _ => check(false, "solids conduct and gases are cavities"),
            }
        }
        if let Lay::S(s) = x {
            r += s.d / s.k;
            if e[i] > 0 {
                mass += s.rho * s.cp * s.d / 1e3;
            }
        }
        node += n;
    }
    let mut sum = 0.0;
    for i in 0..nodes {
        close(d.segments[i].0 / 1e3, expected[i], 1e-6, "each element gives half of its mass to each of its nodes");
        sum += d.segments[i].0 / 1e3;
    }
    close(sum, mass, 1e-6, "no mass is lost");
    if shape != 2 && shape != 4 {
        close(d.r_value(), r, 1e-6, "thermal resistance");
    }
    let (massive, nomass) = d.get_chunks();
    // the chunks cover all the nodes, in maximal runs
    let mut all: Vec<(usize, usize, bool)> = massive.iter().map(|x| (x.0, x.1, true)).chain(nomass.iter().map(|x| (x.0, x.1, false))).collect();
    all.sort();
    let mut at = 0;
    let mut last = None;
    for (a, b, heavy) in all {
        check(a == at && b > a, "chunks cover the nodes without overlap");
        check(last != Some(heavy), "chunks alternate");
        for i in a..b {
            check((d.segments[i].0 >= 1e-5) == heavy, "chunks contain nodes of one kind");
        }
        last = Some(heavy);
        at = b;
    }
    check(at == nodes, "chunks cover the nodes without overlap");
}
fn disc_bad() {
    let s = Solid { k: 1.0, rho: 2000.0, cp: 900.0, d: sym("d", 0.01, 0.3) };
    let l = match choose("bad", 3) {
        0 => vec![Lay::G(0.02), Lay::S(s)],
        1 => vec![Lay::S(s), Lay::G(0.02)],
        _ => vec![Lay::S(s), Lay::G(0.02), Lay::G(0.02), Lay::S(s)],
    };
    let (m, c) = wall(&l);
    check(Discretization::new(&c, &m, 1200.0, 0.05, 60.0, 1.0, PI / 2.0).is_err(), "gases must be between solids");
}

// ------------------------------------------------------------------ H04 conduction
/// one Runge-Kutta step of T' = K T + q is the Taylor polynomial of degree 4
fn rk4_step() {
    let n = 1 + choose("n", 3);
    let mut m = ChunkMemory::new(3, 3 + n);
    let mut k = vec![vec![0.0; n]; n];
    for i in 0..n {
        for j in 0..n {
            if i.max(j) - i.min(j) <= 1 {
                k[i][j] = if i == j { -sym(&format!("k{i}{j}"), 0.1, 1.0) } else { sym(&format!("k{i}{j}"), 0.05, 0.5) };
                m.k.set(i, j, k[i][j]).unwrap();
            }
        }
        m.q[i] = sym(&format!("q{i}"), -5.0, 5.0);
        m.temps[i] = sym(&format!("t{i}"), -10.0, 40.0);
    }
    let (t, q) = (m.temps.clone(), m.q.clone());
    rk4(&mut m).unwrap();
    // d = K T + q, T' = T + d + K d / 2 + K K d / 6 + K K K d / 24
    let mul = |v: &[Float]| -> Vec<Float> { (0..n).map(|i| (0..n).fold(0.0, |a, j| a + k[i][j] * v[j])).collect() };
    let kt = mul(&t);
    let d: Vec<Float> = (0..n).map(|i| kt[i] + q[i]).collect();
    let d2 = mul(&d);
    let d3 = mul(&d2);
    let d4 = mul(&d3);
    for i in 0..n {
        close(m.temps[i], t[i] + d[i] + d2[i] / 2.0 + d3[i] / 6.0 + d4[i] / 24.0, 1e-6, "fourth order step");
    }
}

struct Sky(CurrentWeather);
impl WeatherTrait for Sky {
    fn get_weather_data(&self, _date: Date) -> CurrentWeather {
        self.0
    }
}
fn sky(t_out: Float, wind_speed: Float, wind_direction: Float) -> Sky {
    Sky(CurrentWeather { dry_bulb_temperature: t_out, wind_speed, wind_direction, ..CurrentWeather::default() })
}
const META: MetaOptions = MetaOptions { latitude: 0.0, longitude: 0.0, standard_meridian: 0.0, elevation: 0.0 };
fn square(normal: usize) -> Polygon3D {
    // 2 x 2, that looks up, down, to the south or up and to the south
    let p = [
        [(0., 0., 3.), (2., 0., 3.), (2., 2., 3.), (0., 2., 3.)],
        [(0., 0., 3.), (0., 2., 3.), (2., 2., 3.), (2., 0., 3.)],
        [(0., 0., 2.), (2., 0., 2.), (2., 0., 4.), (0., 0., 4.)],
        [(0., 0., 2.), (2., 0., 2.), (2., 1.6, 3.2), (0., 1.6, 3.2)],
    ][normal];
    let mut l = Loop3D::new();
    for (x, y, z) in p {
        l.push(Point3D::new(x, y, z)).unwrap();
    }
    l.close().unwrap();
    Polygon3D::new(l).unwrap()
}
const FRONT_SUN: Float = 0.6;
const BACK_SUN: Float = 0.3;
/// a model with one surface of this construction
fn one_wall(l: &[Lay], normal: usize, front: Boundary, back: Boundary, hs: Option<(Float, Float)>) -> (Model, SimulationStateHeader, Arc<Surface>) {
    one_wall_e(l, normal, front, back, hs, (0.9, 0.7))
}
fn one_wall_e(l: &[Lay], normal: usize, front: Boundary, back: Boundary, hs: Option<(Float, Float)>, e: (Float, Float)) -> (Model, SimulationStateHeader, Arc<Surface>) {
    let (mut m, c) = wall_e(l, e);
    for name in ["A", "B"] {
        let mut s = Space::new(name.to_string());
        s.set_volume(30.0);
        m.add_space(s);
    }
    let mut s = Surface::new("wall".to_string(), square(normal), c.name().clone(), front, back);
    if let Some((f, b)) = hs {
        s.set_precalculated_front_convection_coef(f);
        s.set_precalculated_back_convection_coef(b);
    }
    let s = m.add_surface(s).unwrap();
    let h = m.take_state().unwrap();
    (m, h, s)
}
/// K of T' = K T + q, with the conductances at these temperatures
fn conduct(d: &Discretization, t: &[Float], hf: Float, hb: Float) -> Vec<Vec<Float>> {
    let n = t.len();
    let mut k = vec![vec![0.0; n]; n];
    for i in 0..n - 1 {
        let u = d.segments[i].1.u_value(t[i], t[i + 1]);
        k[i][i] -= u;
        k[i][i + 1] += u;
        k[i + 1][i] += u;
        k[i + 1][i + 1] -= u;
    }
    k[0][0] -= hf;
    k[n - 1][n - 1] -= hb;
    k
}
/// the fourth order step of c T' = K T + q
fn step(k: &[Vec<Float>], q: &[Float], c: &[Float], t: &[Float], dt: Float) -> Vec<Float> {
    let n = t.len();
    let mul = |v: &[Float]| -> Vec<Float> { (0..n).map(|i| (0..n).fold(0.0, |a, j| a + k[i][j] * v[j]) * dt / c[i]).collect() };
    let kt = mul(t);
    let mut d: Vec<Float> = (0..n).map(|i| kt[i] + q[i] * dt / c[i]).collect();
    let mut ret = t.to_vec();
    for o in 0..4 {
        for i in 0..n {
            ret[i] += d[i] / [1.0, 2.0, 6.0, 24.0][o];
        }
        d = mul(&d);
    }
    ret
}
fn temps_of(s: &Surface, st: &SimulationState, n: usize) -> Vec<Float> {
    let mut m = matrix::Matrix::new(0.0, n, 1);
    s.get_node_temperatures(st, &mut m).unwrap();
    (0..n).map(|i| m.get(i, 0).unwrap()).collect()
}
const BRICK: Solid = Solid { k: 0.8, rho: 1800.0, cp: 900.0, d: 0.11 };
const WOOD: Solid = Solid { k: 0.15, rho: 600.0, cp: 1600.0, d: 0.06 };
fn boundary(k: usize, t: Float, space: &str) -> Boundary {
    match k {
        0 => Boundary::Outdoor,
        1 => Boundary::Space { space: space.to_string() },
        _ => Boundary::AmbientTemperature { temperature: t },
    }
}
/// one step of a wall with mass
fn march_mass() {
    let (tf, tb) = (sym("tf", -10.0, 40.0), sym("tb", -10.0, 40.0));
    let (fb, bb) = (choose("front", 3), choose("back", 3));
    // there is only one outdoor temperature
    let tb = if fb == 0 && bb == 0 { tf } else { tb };
    let l = match choose("layers", 2) {
        0 => vec![Lay::S(BRICK)],
        _ => vec![Lay::S(BRICK), Lay::S(WOOD)],
    };
    let (hf, hb) = (8.0, 3.0);
    let (m, mut header, s) = one_wall(&l, 2, boundary(fb, tf, "A"), boundary(bb, tb, "B"), Some((hf, hb)));
    let mut tm = ThermalModel::new(&META, (), &m, &mut header, 2).unwrap();
    tm.dt_subdivisions = 1;
    let dt = tm.dt;
    let d = &tm.surfaces[0].discretization;
    let n = d.segments.len();
    let mut st = header.take_values().unwrap();
    let mut t0 = matrix::Matrix::new(0.0, n, 1);
    let t: Vec<Float> = (0..n).map(|i| if i == 0 || i == n - 1 { sym(&format!("t{i}"), -10.0, 50.0) } else { 21.0 + 2.0 * i as Float }).collect();
    for i in 0..n {
        t0.set(i, 0, t[i]).unwrap();
    }
    s.set_node_temperatures(&mut st, &t0);
    let (sf, sb) = (sym("sf", 0.0, 900.0), sym("sb", -5.0, 100.0));
    s.set_front_incident_solar_irradiance(&mut st, sf).unwrap();
    s.set_back_incident_solar_irradiance(&mut st, sb).unwrap();
    // the temperature around, from its radiation
    let (irf, irb) = (350.0, 420.0);
    s.set_front_ir_irradiance(&mut st, irf).unwrap();
    s.set_back_ir_irradiance(&mut st, irb).unwrap();
    for (space, t) in [(0, tf), (1, tb)] {
        m.spaces[space].set_dry_bulb_temperature(&mut st, t).unwrap();
    }
    let out = if fb == 0 { tf } else { tb };
    let mut mem = tm.allocate_memory(&st).unwrap();
    tm.march(Date { month: 3, day: 3, hour: 12.0 }, &sky(out, 2.0, 0.0), &m, &mut st, &mut mem).unwrap();
    let around = |k: usize, t: Float, ir: Float| if k == 0 { (ir / SIGMA).powf(0.25) - 273.15 } else { t };
    let (rf, rb) = (around(fb, tf, irf), around(bb, tb, irb));
    let hr = |e: Float, r: Float, t: Float| {
        let a = 273.15 + (r + t) / 2.0;
        4.0 * e * SIGMA * a * a * a
    };
    let k = conduct(d, &t, hf, hb);
    let mut q = vec![0.0; n];
    q[0] += hf * tf + hr(0.9, rf, t[0]) * (rf - t[0]) + FRONT_SUN * sf;
    q[n - 1] += hb * tb + hr(0.7, rb, t[n - 1]) * (rb - t[n - 1]);
    if sb > 0.0 {
        q[n - 1] += BACK_SUN * sb;
    }
    let c: Vec<Float> = d.segments.iter().map(|x| x.0).collect();
    let e = step(&k, &q, &c, &t, dt);
    let got = temps_of(&s, &st, n);
    for i in 0..n {
        close(got[i], e[i], 1e-4, "temperatures after the step");
    }
    close(s.front_convective_heat_flow(&st).unwrap(), hf * (got[0] - tf), 1e-4, "convection at the front");
    close(s.back_convective_heat_flow(&st).unwrap(), hb * (got[n - 1] - tb), 1e-4, "convection at the back");
}

/// a no-mass wall ends where the heat that comes in is the heat that goes out
fn march_nomass() {
    let tf = sym("tf", 0.0, 30.0);
    let tb = 20.0;
    let s = Solid { k: 0.05, rho: 20.0, cp: 1000.0, d: 0.004 };
    let l = match choose("layers", 2) {
        0 => vec![Lay::S(s)],
        _ => vec![Lay::S(s), Lay::S(Solid { k: 1.0, ..s })],
    };
    let (hf, hb) = [(8.0, 3.0), (2.0, 20.0)][choose("hs", 2)];
    let (m, mut header, w) = one_wall_e(&l, 2, boundary(2, tf, ""), boundary(2, tb, ""), Some((hf, hb)), (0.0, 0.0));
    let mut tm = ThermalModel::new(&META, (), &m, &mut header, 2).unwrap();
    tm.dt_subdivisions = 1;
    let n = tm.surfaces[0].discretization.segments.len();
    check(tm.surfaces[0].massive_chunks.is_empty() && n == l.len() + 1, "no mass");
    let mut st = header.take_values().unwrap();
    let sf = sym("sf", 0.0, 400.0);
    w.set_front_incident_solar_irradiance(&mut st, sf).unwrap();
    let mut mem = tm.allocate_memory(&st).unwrap();
    tm.march(Date { month: 3, day: 3, hour: 12.0 }, &sky(0.0, 2.0, 0.0), &m, &mut st, &mut mem).unwrap();
    let got = temps_of(&w, &st, n);
    // heat balance of each node
    let r: Vec<Float> = l.iter().map(|x| if let Lay::S(x) = x { x.d / x.k } else { 0.0 }).collect();
    let through: Vec<Float> = (0..n - 1).map(|i| (got[i] - got[i + 1]) / r[i]).collect();
    // nodes are off by at most a hundredth of a degree each
    let tol = 0.01 * (n as Float) * (2.0 / r[0] + if n > 2 { 2.0 / r[1] } else { 0.0 } + hf + hb);
    close(hf * (tf - got[0]) + FRONT_SUN * sf, through[0], tol, "heat balance at the front");
    close(through[n - 2], hb * (got[n - 1] - tb), tol, "heat balance at the back");
    if n > 2 {
        close(through[0], through[1], tol, "heat balance inside");
    }
    close(w.front_convective_heat_flow(&st).unwrap(), hf * (got[0] - tf), 1e-6, "convection at the front");
    close(w.back_convective_heat_flow(&st).unwrap(), hb * (got[n - 1] - tb), 1e-6, "convection at the back");
}
/// a wall whose surroundings have its temperature stays as it is
fn march_still() {
    let t = 22.0;
    let l = match choose("layers", 4) {
        0 => vec![Lay::S(BRICK)],
        1 => vec![Lay::S(Solid { d: 0.004, ..WOOD })],
        2 => vec![Lay::S(BRICK), Lay::G(0.02), Lay::S(WOOD)],
        _ => vec![Lay::S(BRICK), Lay::S(Solid { k: 0.04, rho: 20.0, cp: 1000.0, d: 0.03 }), Lay::S(WOOD)],
    };
    let normal = choose("normal", 4);
    let (fb, bb) = (choose("front", 3), choose("back", 3));
    let (m, mut header, w) = one_wall(&l, normal, boundary(fb, t, "A"), boundary(bb, t, "B"), None);
    let mut tm = ThermalModel::new(&META, (), &m, &mut header, 4).unwrap();
    tm.dt_subdivisions = 2;
    let n = tm.surfaces[0].discretization.segments.len();
    let mut st = header.take_values().unwrap();
    let ir = SIGMA * (t + 273.15) * (t + 273.15) * (t + 273.15) * (t + 273.15);
    w.set_front_ir_irradiance(&mut st, ir).unwrap();
    w.set_back_ir_irradiance(&mut st, ir).unwrap();
    let (v, d) = (sym("v", 0.01, 15.0), sym("d", 0.0, 6.28));
    let mut mem = tm.allocate_memory(&st).unwrap();
    tm.march(Date { month: 3, day: 3, hour: 12.0 }, &sky(t, v, d), &m, &mut st, &mut mem).unwrap();
    for x in temps_of(&w, &st, n) {
        close(x, t, 1e-6, "nothing changes where everything has the same temperature");
    }
    for i in 0..2 {
        close(m.spaces[i].dry_bulb_temperature(&st).unwrap(), t, 1e-6, "nothing changes where everything has the same temperature");
    }
    close(w.front_convective_heat_flow(&st).unwrap(), 0.0, 1e-4, "no heat flows");
    close(w.back_convective_heat_flow(&st).unwrap(), 0.0, 1e-4, "no heat flows");
}
fn reversed(p: &Polygon3D) -> Polygon3D {
    let v: Vec<Point3D> = (0..4).map(|i| p.outer()[3 - i]).collect();
    let mut l = Loop3D::new();
    for p in v {
        l.push(p).unwrap();
    }
    l.close().unwrap();
    Polygon3D::new(l).unwrap()
}
fn thermal(l: &[Lay], p: Polygon3D, front: Boundary, back: Boundary, hs: (Option<Float>, Option<Float>)) -> (ThermalSurface, SimulationState) {
    let (mut m, c) = wall(l);
    for name in ["A", "B"] {
        let mut s = Space::new(name.to_string());
        s.set_volume(30.0);
        m.add_space(s);
    }
    let d = Discretization::new(&c, &m, 1200.0, 0.05, 60.0, 1.0, PI / 2.0).unwrap();
    let normal = p.normal();
    let mut s = Surface::new("wall".to_string(), p, c.name().clone(), front.clone(), back.clone());
    if let Some(x) = hs.0 {
        s.set_precalculated_front_convection_coef(x);
    }
    if let Some(x) = hs.1 {
        s.set_precalculated_back_convection_coef(x);
    }
    let s = m.add_surface(s).unwrap();
    let mut header = SimulationStateHeader::new();
    let mut t = ThermalSurface::new(&mut header, &m, &None, 0, &s, 4.0, 8.0, 3.0, normal, &c, d).unwrap();
    t.set_front_boundary(front, &m);
    t.set_back_boundary(back, &m);
    (t, header.take_values().unwrap())
}
fn same(a: &ConvectionParams, b: &ConvectionParams) {
    close(a.air_temperature, b.air_temperature, 1e-9, "air temperature");
    close(a.air_speed, b.air_speed, 1e-9, "air speed");
    close(a.rad_temperature, b.rad_temperature, 1e-6, "radiant temperature");
    close(a.surface_temperature, b.surface_temperature, 1e-9, "surface temperature");
    close(a.cos_surface_tilt, b.cos_surface_tilt, 1e-9, "tilt");
}
/// a wall turned around is the same wall
fn border_flip() {
    let (fb, bb) = (choose("front", 3), choose("back", 3));
    let (tf, tb) = (sym("tf", -10.0, 40.0), sym("tb", -10.0, 40.0));
    let (sf, sb) = (sym("sf", -10.0, 50.0), sym("sb", -10.0, 50.0));
    let (v, w) = (sym("v", 0.01, 15.0), sym("w", 0.0, 6.28));
    let (irf, irb) = (sym("irf", 200.0, 500.0), sym("irb", 200.0, 500.0));
    let fixed = choose("fixed", if thorough() { 4 } else { 2 });
    let hs = ([None, Some(4.0)][fixed % 2], [None, Some(7.0)][fixed / 2]);
    let p = square(choose("normal", 4));
    let l = [Lay::S(Solid { d: 0.004, ..WOOD })];
    let run = |p: Polygon3D, turned: bool| {
        let pick = |a: Float, b: Float| if turned { (b, a) } else { (a, b) };
        let (ta, tz) = pick(tf, tb);
        let (ka, kz) = if turned { (bb, fb) } else { (fb, bb) };
        let h = if turned { (hs.1, hs.0) } else { hs };
        let (t, mut st) = thermal(&l, p, boundary(ka, ta, "A"), boundary(kz, tz, "B"), h);
        let mut m = matrix::Matrix::new(0.0, 2, 1);
        let x = pick(sf, sb);
        m.set(0, 0, x.0).unwrap();
        m.set(1, 0, x.1).unwrap();
        t.parent.set_node_temperatures(&mut st, &m);
        let x = pick(irf, irb);
        t.parent.set_front_ir_irradiance(&mut st, x.0).unwrap();
        t.parent.set_back_ir_irradiance(&mut st, x.1).unwrap();
        t.calc_border_conditions(&st, ta, tz, w, v)
    };
    let a = run(p.clone(), false);
    let b = run(reversed(&p), true);
    same(&a.0, &b.1);
    same(&a.1, &b.0);
    close(a.2, b.3, 1e-6, "convection coefficient");
    close(a.3, b.2, 1e-6, "convection coefficient");
    // and what they should be
    close(a.0.surface_temperature, sf, 1e-9, "the front has its own temperature");
    close(a.1.surface_temperature, sb, 1e-9, "the back has its own temperature");
    close(a.0.air_temperature, tf, 1e-9, "the air at the front");
    close(a.1.air_temperature, tb, 1e-9, "the air at the back");
    close(a.0.cos_surface_tilt, -p.normal().z, 1e-9, "tilt of the front");
    if let Some(x) = hs.0 {
        close(a.2, x, 1e-9, "precalculated coefficient");
    }
    if let Some(x) = hs.1 {
        close(a.3, x, 1e-9, "precalculated coefficient");
    }
    for (k, e, t) in [(fb, &a.0, tf), (bb, &a.1, tb)] {
        if k != 0 {
            close(e.air_speed, 0.0, 1e-9, "no wind inside");
            close(e.rad_temperature, t, 1e-9, "inside, the surroundings have the temperature of the air");
        }
    }
    if fb == 0 {
        let x = (irf / SIGMA).powf(0.25) - 273.15;
        close(a.0.rad_temperature, x, 1e-6, "outside, the surroundings are as warm as they radiate");
    }
}
fn raised(p: &Polygon3D, z: Float, long: Float) -> Polygon3D {
    let mut l = Loop3D::new();
    for i in 0..4 {
        let q = p.outer()[i];
        l.push(Point3D::new(q.x * long, q.y, q.z + z)).unwrap();
    }
    l.close().unwrap();
    Polygon3D::new(l).unwrap()
}
/// the wind that walls and windows see: that at their height, in that terrain
fn wind_height() {
    let (mut m, c) = wall(&[Lay::S(Solid { d: 0.004, ..WOOD })]);
    let k = choose("terrain", 6);
    // exponent and depth of the boundary layer
    let (a, d) = [(0.22, 370.0), (0.14, 270.0), (0.22, 370.0), (0.33, 460.0), (0.10, 210.0), (0.22, 370.0)][k];
    if k > 0 {
        let mut s = SiteDetails::new();
        if k < 5 {
            s.set_terrain([TerrainClass::Country, TerrainClass::Suburbs, TerrainClass::City, TerrainClass::Ocean][k - 1]);
        }
        m.site_details = Some(s);
    }
    let side = choose("normal", 4);
    let z = [0.0, 7.0, 41.5][choose("z", 3)];
    let mid = if side == 3 { 2.6 } else { 3.0 };
    let s = Surface::new("wall".to_string(), raised(&square(side), z as Float, 1.0), c.name().clone(), Boundary::Outdoor, Boundary::Outdoor);
    m.add_surface(s).unwrap();
    let f = Fenestration::new("f".to_string(), raised(&square(side), (z + 5.0) as Float, 2.0), c.name().clone(), FenestrationType::Window, Boundary::Outdoor, Boundary::Outdoor);
    m.add_fenestration(f).unwrap();
    let mut header = m.take_state().unwrap();
    let tm = ThermalModel::new(&META, (), &m, &mut header, 4).unwrap();
    let mut st = header.take_values().unwrap();
    let (t, v, w) = (sym("t", -10.0, 40.0), sym("v", 0.01, 15.0), [0.1, 2.0, 3.3, 5.0][choose("w", 4)] as Float);
    for (fen, h) in [(false, mid + z), (true, mid + z + 5.0)] {
        let u = v * ((27.0 as Float).powf(0.14) * ((h / d) as Float).powf(a as Float));
        let (area, perimeter) = if fen { (8.0, 12.0) } else { (4.0, 8.0) };
        let (x, y, hf, hb) = if fen {
            m.fenestrations[0].set_front_ir_irradiance(&mut st, 350.0).unwrap();
            m.fenestrations[0].set_back_ir_irradiance(&mut st, 350.0).unwrap();
            tm.fenestrations[0].calc_border_conditions(&st, t, t, w, v)
        } else {
            m.surfaces[0].set_front_ir_irradiance(&mut st, 350.0).unwrap();
            m.surfaces[0].set_back_ir_irradiance(&mut st, 350.0).unwrap();
            tm.surfaces[0].calc_border_conditions(&st, t, t, w, v)
        };
        close(x.air_speed, u, 1e-6, "the wind at the height of the wall");
        close(y.air_speed, u, 1e-6, "the wind at the height of the wall");
        let n = m.surfaces[0].vertices.normal();
        close(hf, x.get_tarp_convection_coefficient(area, perimeter, is_windward(w, n.z, n)), 1e-6, "convection of a wall of its size");
        close(hb, y.get_tarp_convection_coefficient(area, perimeter, is_windward(w, n.z, n * -1.0)), 1e-6, "convection of a wall of its size");
    }
}
/// an adiabatic side sees what the other side sees
fn adiabatic() {
    let k = choose("kind", 3);
    let side = choose("side", 2);
    let t = sym("t", -10.0, 40.0);
    let (sf, sb) = (sym("sf", -10.0, 50.0), sym("sb", -10.0, 50.0));
    let b = boundary(k, t, "A");
    let (f, z) = if side == 0 { (b, Boundary::Adiabatic) } else { (Boundary::Adiabatic, b) };
    // forced convection is not mirrored
    let hs = if k == 0 { (Some(5.0), Some(5.0)) } else { (None, None) };
    let (th, mut st) = thermal(&[Lay::S(Solid { d: 0.004, ..WOOD })], square(choose("normal", 3)), f, z, hs);
    let mut m = matrix::Matrix::new(0.0, 2, 1);
    m.set(0, 0, sf).unwrap();
    m.set(1, 0, sb).unwrap();
    th.parent.set_node_temperatures(&mut st, &m);
    th.parent.set_front_ir_irradiance(&mut st, 400.0).unwrap();
    th.parent.set_back_ir_irradiance(&mut st, 400.0).unwrap();
    let (a, b, c, d) = th.calc_border_conditions(&st, t, t, 0.0, 1.0);
    close(a.air_temperature, b.air_temperature, 1e-9, "both sides see the same air");
    if k != 0 || side == 0 {
        close(a.rad_temperature, b.rad_temperature, 1e-9, "both sides see the same surroundings");
        close(c, d, 1e-9, "both sides convect alike");
    }
}
/// sun absorbed in the nodes of each layer
fn sun_nodes() {
    let n = 1 + choose("n", 3);
    let p = panes(n);
    let (mut m, c) = window(&p);
    let d = Discretization::new(&c, &m, 1200.0, 0.05, 60.0, 1.0, PI / 2.0).unwrap();
    let e = d.n_elements.clone();
    let nodes = d.segments.len();
    let s = Surface::new("w".to_string(), square(2), c.name().clone(), Boundary::Outdoor, Boundary::Outdoor);
    let s = m.add_surface(s).unwrap();
    let mut header = SimulationStateHeader::new();
    let t = ThermalSurface::new(&mut header, &m, &None, 0, &s, 4.0, 8.0, 3.0, s.vertices.normal(), &c, d).unwrap();
    for side in 0..2 {
        let mut order: Vec<usize> = (0..n).collect();
        if side == 1 {
            order.reverse();
        }
        let seen = |i: usize| {
            let (a, b) = if side == 0 { (p[i].af, p[i].ab) } else { (p[i].ab, p[i].af) };
            Glazing::new(p[i].tau, 1.0 - p[i].tau - a, 1.0 - p[i].tau - b)
        };
        let l: Vec<Glazing> = order.iter().map(|i| seen(*i)).collect();
        let last = l.iter().position(|g| g.tau() == 0.0).map_or(n, |x| x + 1);
        let (abs, _, _) = absorbed(&l[..last]);
        let alphas = if side == 0 { &t.front_alphas } else { &t.back_alphas };
        let mut node = 0;
        let mut total = 0;
        for i in 0..n {
            let k = if e[2 * i] == 0 { 1 } else { e[2 * i] };
            let mut sum = 0.0;
            for x in node..node + k + 1 {
                let a = alphas.get(x, 0).unwrap();
                le(0.0, a, 1e-9, "nodes do not lose light");
                if p[i].tau != 0.0 {
                    let place = order.iter().position(|x| *x == i).unwrap();
                    close(a, if place < last { abs[place] / (k + 1) as f64 as Float } else { 0.0 }, 1e-6, "transparent panes absorb all through them");
                }
                sum += a;
                total += 1;
            }
            let place = order.iter().position(|x| *x == i).unwrap();
            let expected = if place < last { abs[place] } else { 0.0 };
            close(sum, expected, 1e-6, "the nodes of a pane absorb what the pane absorbs");
            if p[i].tau == 0.0 {
                let outer = if side == 0 { node } else { node + k };
                close(alphas.get(outer, 0).unwrap(), expected, 1e-6, "opaque panes absorb at the surface");
            }
            node += k + 1;
        }
        check(total == nodes, "every node belongs to a pane");
    }
}

// ------------------------------------------------------------------ H05 air
/// the air of a zone over a step
fn zone_step() {
    let hs = (3.0, 2.0);
    let l = [Lay::S(Solid { d: 0.004, ..WOOD })];
    // the surface may look to the same space on both sides
    let walls = choose("walls", 4);
    let (mut m, c) = wall(&l);
    let vol = [30.0, 80.0];
    let mut loss = [0.0, 0.0];
    for (i, name) in ["A", "B"].iter().enumerate() {
        let mut s = Space::new(name.to_string());
        s.set_volume(vol[i]);
        m.add_space(s);
    }
    let t_amb = 15.0;
    let ends = [vec![], vec![(1, 2)], vec![(2, 1), (1, 1)], vec![(1, 1), (0, 1)]][walls].clone();
    // (front, back) of each surface; 1 is A at the front and B at the back
    for (i, (f, b)) in ends.iter().enumerate() {
        let mut s = Surface::new(format!("w{i}"), square(2), c.name().clone(), boundary(*f, t_amb, "A"), boundary(*b, t_amb, "B"));
        s.set_precalculated_front_convection_coef(hs.0);
        s.set_precalculated_back_convection_coef(hs.1);
        m.add_surface(s).unwrap();
    }
    // and a window from A to the outside
    let window = walls == 1 && choose("window", 2) == 1;
    if window {
        let mut s = Fenestration::new("win".to_string(), square(0), c.name().clone(), FenestrationType::Window, boundary(1, 0.0, "A"), boundary(0, 0.0, ""));
        s.set_precalculated_front_convection_coef(hs.0);
        s.set_precalculated_back_convection_coef(hs.1);
        m.add_fenestration(s).unwrap();
    }
    let heat = choose("heat", 4);
    if heat == 1 || heat == 3 {
        let mut h = ElectricHeater::new("heater".to_string());
        h.set_target_space("B".to_string());
        m.add_hvac(h.wrap()).unwrap();
    }
    if heat == 2 {
        let mut h = IdealHeaterCooler::new("cooler".to_string());
        h.set_target_space("A".to_string());
        m.add_hvac(h.wrap()).unwrap();
    }
    if heat == 3 {
        let mut h = Luminaire::new("lamp".to_string());
        h.set_target_space("A".to_string());
        m.add_luminaire(h).unwrap();
    }
    let mut header = m.take_state().unwrap();
    let air = choose("air", 3);
    if air > 0 {
        use model::SimulationStateElement as E;
        let s = &m.spaces[0];
        let i = header.push(E::SpaceInfiltrationVolume(0), 0.0).unwrap();
        s.set_infiltration_volume_index(i).unwrap();
        let i = header.push(E::SpaceInfiltrationTemperature(0), 0.0).unwrap();
        s.set_infiltration_temperature_index(i).unwrap();
        if air == 2 {
            let i = header.push(E::SpaceVentilationVolume(0), 0.0).unwrap();
            s.set_ventilation_volume_index(i).unwrap();
            let i = header.push(E::SpaceVentilationTemperature(0), 0.0).unwrap();
            s.set_ventilation_temperature_index(i).unwrap();
        }
    }
    let mut tm = ThermalModel::new(&META, (), &m, &mut header, 4).unwrap();
    tm.dt_subdivisions = 1;
    let dt = tm.dt;
    let mut st = header.take_values().unwrap();
    let t = [sym("ta", 5.0, 35.0), 20.0];
    for i in 0..2 {
        m.spaces[i].set_dry_bulb_temperature(&mut st, t[i]).unwrap();
    }
    let mut gain = [0.0, 0.0];
    if heat > 0 {
        let p = sym("p", -500.0, 1500.0);
        let (h, i) = (&m.hvacs[0], if heat == 2 { 0 } else { 1 });
        match h {
            model::HVAC::ElectricHeater(h) => h.set_heating_cooling_consumption(&mut st, p).unwrap(),
            model::HVAC::IdealHeaterCooler(h) => h.set_heating_cooling_consumption(&mut st, p).unwrap(),
        }
        gain[i] += p;
    }
    if heat == 3 {
        let p = sym("lamp", 0.0, 500.0);
        m.luminaires[0].set_power_consumption(&mut st, p).unwrap();
        gain[0] += p;
    }
    if air > 0 {
        let rate = |t: Float| AIR.density(t + 273.15) * AIR.heat_capacity(t + 273.15);
        let (v, ti) = (0.02, sym("ti", -10.0, 40.0));
        m.spaces[0].set_infiltration_volume(&mut st, v).unwrap();
        m.spaces[0].set_infiltration_temperature(&mut st, ti).unwrap();
        gain[0] += v * rate(ti) * ti;
        loss[0] += v * rate(ti);
        if air == 2 {
            let (v, ti) = (0.05, 12.0);
            m.spaces[0].set_ventilation_volume(&mut st, v).unwrap();
            m.spaces[0].set_ventilation_temperature(&mut st, ti).unwrap();
            gain[0] += v * rate(ti) * ti;
            loss[0] += v * rate(ti);
        }
    }
    let mut mem = tm.allocate_memory(&st).unwrap();
    let out = 10.0;
    tm.march(Date { month: 3, day: 3, hour: 12.0 }, &sky(out, 0.0, 0.0), &m, &mut st, &mut mem).unwrap();
    for (i, (f, b)) in ends.iter().enumerate() {
        let x = temps_of(&m.surfaces[i], &st, 2);
        let area = 4.0;
        if *f == 1 {
            gain[0] += hs.0 * area * x[0];
            loss[0] += hs.0 * area;
        }
        if *b == 1 {
            gain[1] += hs.1 * area * x[1];
            loss[1] += hs.1 * area;
        }
    }
    if window {
        let f = &m.fenestrations[0];
        let x = f.front_temperature(&st);
        gain[0] += hs.0 * 4.0 * x;
        loss[0] += hs.0 * 4.0;
    }
    for i in 0..2 {
        let got = m.spaces[i].dry_bulb_temperature(&st).unwrap();
        let c = vol[i] * AIR.density(t[i] + 273.15) * AIR.heat_capacity(t[i] + 273.15);
        // c T' = gain - loss T
        if ends.iter().all(|e| (if i == 0 { e.0 } else { e.1 }) != 1) && ((air == 0 && !window) || i == 1) {
            close(got, t[i] + gain[i] * dt / c, 1e-6, "air that exchanges nothing warms up with its gains");
        } else {
            let e = gain[i] / loss[i];
            close(got, e + (t[i] - e) * (-loss[i] * dt / c).exp(), 1e-5, "air moves exponentially to its equilibrium");
        }
    }
}
struct Log(std::sync::Mutex<Vec<Date>>);
impl WeatherTrait for Log {
    fn get_weather_data(&self, date: Date) -> CurrentWeather {
        self.0.lock().unwrap().push(date);
        CurrentWeather { dry_bulb_temperature: 10.0, ..CurrentWeather::default() }
    }
}
/// the substeps of a step take the time of the step
fn substeps() {
    let n = [1, 2, 4, 6, 12][choose("n", 5)];
    let l = match choose("layers", 3) {
        0 => vec![Lay::S(BRICK)],
        1 => vec![Lay::S(Solid { d: 0.003, ..WOOD })],
        _ => vec![Lay::S(Solid { k: 2.0, rho: 1500.0, cp: 900.0, d: 0.05 }), Lay::S(BRICK)],
    };
    let (mut m, mut header, w) = one_wall(&l, 2, boundary(0, 0.0, ""), boundary(1, 0.0, "B"), Some((5.0, 3.0)));
    // a door that needs shorter steps than most walls
    if choose("door", 2) == 1 {
        let mut c = Construction::new("door".to_string());
        let mut x = Normal::new("steel".to_string());
        x.set_thermal_conductivity(2.0).set_density(2000.0).set_specific_heat_capacity(900.0);
        m.add_substance(x.wrap());
        m.add_material(Material::new("steel".to_string(), "steel".to_string(), 0.045));
        c.materials.push("steel".to_string());
        m.add_construction(c);
        let f = Fenestration::new("door".to_string(), square(0), "door".to_string(), FenestrationType::Door, boundary(0, 0.0, ""), boundary(1, 0.0, "B"));
        m.fenestrations.push(Arc::new(f));
    }
    let tm = ThermalModel::new(&META, (), &m, &mut header, n).unwrap();
    let k = tm.dt_subdivisions;
    close(tm.dt * k as Float, 3600.0 / n as Float, 1e-6, "the substeps take the time of the step");
    check(k >= 1, "there are substeps");
    // each is short enough for every wall
    for s in &tm.surfaces {
        le(s.discretization.tstep_subdivision as Float, k as Float, 0.0, "substeps are as short as every wall needs");
    }
    for s in &tm.fenestrations {
        le(s.discretization.tstep_subdivision as Float, k as Float, 0.0, "substeps are as short as every window or door needs");
    }
    let mut st = header.take_values().unwrap();
    w.set_front_ir_irradiance(&mut st, 350.0).unwrap();
    let mut mem = tm.allocate_memory(&st).unwrap();
    let log = Log(std::sync::Mutex::new(vec![]));
    let start = Date { month: 12, day: 31, hour: sym("h", 0.0, 23.99) };
    tm.march(start, &log, &m, &mut st, &mut mem).unwrap();
    let dates = log.0.lock().unwrap().clone();
    check(dates.len() == k, "the weather of every substep");
    let mut d = start;
    for x in dates {
        d.add_seconds(tm.dt);
        check(x.month == d.month && x.day == d.day, "the weather of every substep");
        close(x.hour, d.hour, 1e-6, "the weather of every substep");
    }
}

fn main() {
    hx::main(vec![
        case("H01", "glazing_layers", glazing_layers),
        case("H01", "glazing_combine", glazing_combine),
        case("H01", "glazing_three", glazing_three),
        case("H01", "glazing_of_model", glazing_of_model),
        case("H02", "tarp_natural", tarp_natural),
        case("H02", "tarp_forced", tarp_forced),
        case("H02", "windward", windward),
        case("H02", "gas_properties", gas_properties),
        case("H02", "cavity_flip", cavity_flip),
        case("H02", "cavity_still", cavity_still),
        case("H02", "cavity_min", cavity_min),
        case("H02", "cavity_iso", cavity_iso),
        case("H02", "cavity_tilt", cavity_tilt),
        case("H02", "cavity_radiation", cavity_radiation),
        case("H03", "disc_layer", disc_layer),
        case("H03", "disc_nodes", disc_nodes),
        case("H03", "disc_bad", disc_bad),
        case("H04", "rk4_step", rk4_step),
        case("H04", "march_mass", march_mass),
        case("H04", "march_nomass", march_nomass),
        case("H04", "march_still", march_still),
        case("H04", "border_flip", border_flip),
        case("H04", "wind_height", wind_height),
        case("H04", "adiabatic", adiabatic),
        case("H04", "sun_nodes", sun_nodes),
        case("H05", "zone_step", zone_step),
        case("H05", "substeps", substeps),
    ]);
}
