use air::air_model::AirFlowModel;
use calendar::Date;
use communication::{MetaOptions, SimulationModel};
use geometry::{Loop3D, Point3D, Polygon3D, Vector3D};
use hx::*;
use model::substance::{Gas, Normal};
use model::*;
use weather::{CurrentWeather, WeatherTrait};

const META: MetaOptions = MetaOptions { latitude: 0.0, longitude: 0.0, standard_meridian: 0.0, elevation: 0.0 };
const DATE: Date = Date { month: 1, day: 1, hour: 0.0 };

struct Sky(CurrentWeather);
impl WeatherTrait for Sky {
    fn get_weather_data(&self, _date: Date) -> CurrentWeather {
        self.0
    }
}
fn sky(t_out: Float, wind_speed: Float) -> Sky {
    Sky(CurrentWeather { dry_bulb_temperature: t_out, wind_speed, wind_direction: 1.0, ..CurrentWeather::default() })
}
// ------------------------------------------------------------------ A01 infiltration
fn terrain(i: usize) -> (Option<TerrainClass>, Float, Float) {
    match i {
        0 => (None, 0.22, 370.0),
        1 => (Some(TerrainClass::Country), 0.14, 270.0),
        2 => (Some(TerrainClass::Suburbs), 0.22, 370.0),
        3 => (Some(TerrainClass::City), 0.33, 460.0),
        4 => (Some(TerrainClass::Ocean), 0.10, 210.0),
        _ => (Some(TerrainClass::Urban), 0.22, 370.0),
    }
}
/// the result of marching: (volume, temperature) of each space
fn march(inf: Vec<Option<Infiltration>>, building: Option<Building>, site: Option<TerrainClass>, with_site: bool, t: &[Float], w: &Sky, steps: usize) -> Result<Vec<(Float, Float)>, String> {
    let mut m = Model::default();
    let b_name = building.as_ref().map(|b| b.name.clone());
    if let Some(b) = building {
        m.add_building(b);
    }
    if with_site {
        let mut d = SiteDetails::new();
        if let Some(s) = site {
            d.set_terrain(s);
        }
        m.site_details = Some(d);
    }
    for (i, f) in inf.iter().enumerate() {
        let mut s = Space::new(format!("s{i}"));
        s.set_volume(30.0);
        if let Some(f) = f {
            s.set_infiltration(f.clone());
        }
        if let Some(b) = &b_name {
            s.set_building(b.clone());
        }
        m.add_space(s);
    }
    let mut h = m.take_state().unwrap();
    for (i, s) in m.spaces.iter().enumerate() {
        let k = h.push(SimulationStateElement::SpaceDryBulbTemperature(i), t[i]).unwrap();
        s.set_dry_bulb_temperature_index(k).unwrap();
    }
    let a = AirFlowModel::new(&META, (), &m, &mut h, 1)?;
    let mut state = h.take_values().unwrap();
    check(state.len() == 3 * inf.len(), "a volume and a temperature per space");
    let mut mem = a.allocate_memory(&state)?;
    // start from other values, so that it shows what is written
    for (i, s) in m.spaces.iter().enumerate() {
        s.set_infiltration_volume(&mut state, 77.0 + i as f64 * 1.0).unwrap();
        s.set_infiltration_temperature(&mut state, 55.0 + i as f64 * 1.0).unwrap();
    }
    for _ in 0..steps {
        a.march(DATE, w, &m, &mut state, &mut mem)?;
    }
    let mut ret = vec![];
    for (i, s) in m.spaces.iter().enumerate() {
        close(s.dry_bulb_temperature(&state).unwrap(), t[i], 0.0, "temperature of the space is kept");
        ret.push((s.infiltration_volume(&state).unwrap(), s.infiltration_temperature(&state).unwrap()));
    }
    Ok(ret)
}
fn wind_factor(k: usize) -> Float {
    let (_, a, d) = terrain(k);
    (27.0 as Float).powf(0.14) * ((1.0 as Float) / d).powf(a)
}
fn temps() -> (Float, Float, Float) {
    // indoors, outdoors and the difference between them
    let t_out = sym("t_out", -30.0, 45.0);
    let d = sym("dt", 0.0, 40.0);
    match choose("warmer", 2) {
        0 => (t_out + d, t_out, d),
        _ => (t_out - d, t_out, d),
    }
}
fn design() {
    let (t_in, t_out, d) = temps();
    let w = sym("wind", 0.0, 30.0);
    let k = choose("terrain", 6);
    let wl = w * wind_factor(k);
    let flow = sym("flow", 0.0, 10.0);
    let (f, exp) = match choose("kind", 4) {
        0 => (Infiltration::Constant { flow }, flow),
        1 => (Infiltration::Blast { flow }, flow * (0.606 + 0.03636 * d + 0.1177 * wl)),
        2 => (Infiltration::Doe2 { flow }, flow * 0.224 * wl),
        _ => {
            let (a, b, c, e) = (sym("a", -2.0, 2.0), sym("b", -1.0, 1.0), sym("c", -1.0, 1.0), sym("d", -1.0, 1.0));
            (Infiltration::DesignFlowRate { a, b, c, d: e, phi: flow }, flow * (a + b * d + c * wl + e * wl * wl))
        }
    };
    let r = march(vec![Some(f)], None, terrain(k).0, true, &[t_in], &sky(t_out, w), 1).unwrap();
    close(r[0].0, exp, 1e-7, "infiltration flow");
    close(r[0].1, t_out, 0.0, "the air that comes in is outdoor air");
}
fn no_site() {
    let (t_in, t_out, d) = temps();
    let w = sym("wind", 0.0, 30.0);
    let r = march(vec![Some(Infiltration::Blast { flow: 2.0 })], None, None, false, &[t_in], &sky(t_out, w), 1).unwrap();
    close(r[0].0, 2.0 * (0.606 + 0.03636 * d + 0.1177 * w * wind_factor(0)), 1e-7, "without site details it is in the suburbs");
}
/// as good as what comes out of it, whatever happened before; spaces do not affect each other
fn spaces() {
    let (t_out, w) = (sym("t_out", -30.0, 45.0), sym("wind", 0.0, 30.0));
    let t: Vec<Float> = (0..3).map(|i| sym(&format!("t{i}"), 10.0, 30.0)).collect();
    let mut b = Building::new("b".to_string());
    let (cs, cw) = (sym("cs", 0.0, 0.001), sym("cw", 0.0, 0.001));
    b.set_stack_coefficient(cs).set_wind_coefficient(cw);
    let k = choose("first", 5);
    let kinds: Vec<Option<Infiltration>> = (0..3)
        .map(|i| match (k + i) % 5 {
            0 => None,
            1 => Some(Infiltration::Constant { flow: 0.5 }),
            2 => Some(Infiltration::Blast { flow: 2.0 }),
            3 => Some(Infiltration::EffectiveAirLeakageArea { area: 0.05 }),
            _ => Some(Infiltration::DesignFlowRate { a: 1.0, b: 0.1, c: 0.2, d: 0.3, phi: 0.7 }),
        })
        .collect();
    let s = sky(t_out, w);
    let all = march(kinds.clone(), Some(b.clone()), None, true, &t, &s, 1 + choose("steps", 2)).unwrap();
    for i in 0..3 {
        if kinds[i].is_none() {
            close(all[i].0, 77.0 + i as f64 * 1.0, 0.0, "no infiltration in this space");
            continue;
        }
        let one = march(vec![kinds[i].clone()], Some(b.clone()), None, true, &t[i..i + 1], &s, 1).unwrap();
        close(all[i].0, one[0].0, 1e-9, "the flow into a space is its own");
        close(all[i].1, t_out, 0.0, "the air that comes in is outdoor air");
    }
}
const CS: [Float; 3] = [0.000145, 0.00029, 0.000435];
const CW: [[Float; 3]; 5] = [
    [0.000319, 0.00042, 0.000494],
    [0.000246, 0.000325, 0.000382],
    [0.000172, 0.000231, 0.000271],
    [0.000104, 0.000137, 0.000161],
    [0.000032, 0.000042, 0.000049],
];
fn shelter(i: usize) -> ShelterClass {
    match i {
        0 => ShelterClass::NoObstructions,
        1 => ShelterClass::IsolatedRural,
        2 => ShelterClass::Urban,
        3 => ShelterClass::LargeLotUrban,
        _ => ShelterClass::SmallLotUrban,
    }
}
fn leakage() {
    let (t_in, t_out, d) = temps();
    let w = sym("wind", 0.0, 30.0);
    let area = sym("area", 0.0, 1.0);
    let mut b = Building::new("b".to_string());
    let storeys = choose("storeys", 6); // 0 is unknown
    if storeys > 0 {
        b.set_n_storeys(storeys);
    }
    let row = choose("shelter", 6); // 5 is unknown
    if row < 5 {
        b.set_shelter_class(shelter(row));
    }
    let (own_cs, own_cw) = (choose("own_cs", 2) == 1, choose("own_cw", 2) == 1);
    let (cs, cw) = (sym("cs", 0.0, 0.001), sym("cw", 0.0, 0.001));
    if own_cs {
        b.set_stack_coefficient(cs);
    }
    if own_cw {
        b.set_wind_coefficient(cw);
    }
    let missing = (!own_cs && storeys == 0) || (!own_cw && (storeys == 0 || row == 5));
    let r = march(vec![Some(Infiltration::EffectiveAirLeakageArea { area })], Some(b), None, true, &[t_in], &sky(t_out, w), 1);
    if missing {
        check(r.is_err(), "not enough data to tell the leakage");
        return;
    }
    let r = r.unwrap();
    let col = storeys.max(1).min(3) - 1;
    let cs = if own_cs { cs } else { CS[col] };
    let cw = if own_cw { cw } else { CW[row][col] };
    let v = r[0].0;
    le(0.0, v, 0.0, "air comes in");
    // v = area * 10000 cm2/m2 / 1000 * sqrt(x)
    close(v * v, 100.0 * area * area * (cs * d + cw * w * w), 1e-7, "infiltration through the leakage area");
    close(r[0].1, t_out, 0.0, "the air that comes in is outdoor air");
}
fn no_building() {
    let r = march(vec![Some(Infiltration::EffectiveAirLeakageArea { area: 0.1 })], None, None, true, &[20.0], &sky(10.0, 3.0), 1);
    check(r.is_err(), "leakage areas need a building");
}
// ------------------------------------------------------------------ A02 site and orientation
fn wind_modifier() {
    let h = sym("h", 0.01, 500.0);
    let k = choose("terrain", 6);
    let (t, a, d) = terrain(k);
    let mut site = SiteDetails::new();
    if let Some(t) = t {
        site.set_terrain(t);
        close(t.wind_speed_modifier(h), (270.0 / 10.0 as Float).powf(0.14) * (h / d).powf(a), 1e-9, "profile of the wind");
    }
    close(site.wind_speed_modifier(h), (270.0 / 10.0 as Float).powf(0.14) * (h / d).powf(a), 1e-9, "profile of the wind");
}
fn wind_ground() {
    let h = sym("h", -50.0, 0.9e-5);
    let (t, _, _) = terrain(1 + choose("terrain", 5));
    let mut site = SiteDetails::new();
    site.set_terrain(t.unwrap());
    close(t.unwrap().wind_speed_modifier(h), 0.0, 0.0, "no wind on the ground");
    close(site.wind_speed_modifier(h), 0.0, 0.0, "no wind on the ground");
}
const T: Float = 0.41421356237309503; // tangent of 22.5 degrees
/// the sector of a direction, and a symbolic direction in it that stays clear of the borders
fn sector(i: usize) -> (Orientation, Float, Float) {
    use Orientation::*;
    let names = [North, NorthEast, East, SouthEast, South, SouthWest, West, NorthWest];
    // directions as a combination of the cardinal ones
    let r = sym("r", 0.1, 10.0);
    let e = 1e-6;
    let s = sym("s", -1.0, 1.0);
    let (x, y) = if i % 2 == 0 {
        // less than 22.5 degrees away
        assume_le(s.abs(), T - e);
        let c = [(0.0, 1.0), (1.0, 0.0), (0.0, -1.0), (-1.0, 0.0)][i / 2];
        (c.0 + s * c.1, c.1 - s * c.0)
    } else {
        assume_le(s.abs(), T - e);
        let c = [(1.0, 1.0), (1.0, -1.0), (-1.0, -1.0), (-1.0, 1.0)][i / 2];
        (c.0 + s * c.1, c.1 - s * c.0)
    };
    (names[i], x * r, y * r)
}
fn orientation() {
    let (o, x, y) = sector(choose("sector", 8));
    // unit vectors that point at most 45 degrees up
    let n = (x * x + y * y).sqrt();
    let z = sym("z", -0.7, 0.7);
    let c = (1.0 - z * z).sqrt();
    let v = Vector3D::new(x / n * c, y / n * c, z);
    check(get_orientation(v) == o, "sector of the direction");
}
fn orientation_flat() {
    let (o, x, y) = sector(choose("sector", 8));
    check(get_orientation(Vector3D::new(x, y, 0.0)) == o, "sector of the direction");
}
fn orientation_up() {
    let z = sym("z", 0.7072, 1.0) * if choose("down", 2) == 1 { -1.0 } else { 1.0 };
    let x = sym("x", -1.0, 1.0);
    let y = sym("y", -1.0, 1.0);
    check(get_orientation(Vector3D::new(x, y, z)) == Orientation::Horizontal, "steep normals are horizontal surfaces");
}
fn wall_of(n: usize) -> Polygon3D {
    // looks to the north, north east, and so on
    let dirs = [(0.0, 1.0), (1.0, 1.0), (1.0, 0.0), (1.0, -1.0), (0.0, -1.0), (-1.0, -1.0), (-1.0, 0.0), (-1.0, 1.0)];
    let (x, y): (Float, Float) = dirs[n];
    let (x0, y0) = (sym("x0", -20.0, 20.0), sym("y0", -20.0, 20.0));
    let mut l = Loop3D::new();
    let (w, h) = (sym("w", 0.5, 5.0), sym("h", 0.5, 5.0));
    // to the right when seen from inside, so the normal looks outside
    let (rx, ry) = (-y * w, x * w);
    l.push(Point3D::new(x0, y0, 0.0)).unwrap();
    l.push(Point3D::new(x0 + rx, y0 + ry, 0.0)).unwrap();
    l.push(Point3D::new(x0 + rx, y0 + ry, h)).unwrap();
    l.push(Point3D::new(x0, y0, h)).unwrap();
    l.close().unwrap();
    Polygon3D::new(l).unwrap()
}
fn bound(i: usize) -> Boundary {
    match i {
        0 => Boundary::Outdoor,
        1 => Boundary::Space { space: "a".to_string() },
        2 => Boundary::Ground,
        3 => Boundary::Adiabatic,
        _ => Boundary::AmbientTemperature { temperature: 20.0 },
    }
}
fn sides() {
    use Orientation::*;
    let names = [North, NorthEast, East, SouthEast, South, SouthWest, West, NorthWest];
    let n = choose("n", 8);
    let (f, b) = (choose("front", 5), choose("back", 5));
    let p = wall_of(n);
    let s = Surface::new("s".to_string(), p.clone(), "c".to_string(), bound(f), bound(b));
    let w = Fenestration::new("f".to_string(), p, "c".to_string(), FenestrationType::Window, bound(f), bound(b));
    let (out, inn) = match (f, b) {
        (0, 1) => (Some(names[n]), Some(names[(n + 4) % 8])),
        (1, 0) => (Some(names[(n + 4) % 8]), Some(names[n])),
        _ => (None, None),
    };
    check(s.orientation() == names[n] && w.orientation() == names[n], "orientation of the normal");
    check(s.outside_orientation() == out && w.outside_orientation() == out, "orientation of the outer side");
    check(s.inside_orientation() == inn && w.inside_orientation() == inn, "orientation of the inner side");
}
// ------------------------------------------------------------------ S01 simulation state
fn element(kind: usize, i: usize) -> SimulationStateElement {
    use SimulationStateElement::*;
    match kind {
        0 => Clothing,
        1 => match i % 3 {
            0 => FenestrationOpenFraction(i),
            1 => HeatingCoolingPowerConsumption(i),
            _ => LuminairePowerConsumption(i),
        },
        _ => match i % 21 {
            0 => SurfaceFrontConvectionCoefficient(i),
            1 => SpaceDryBulbTemperature(i),
            2 => SurfaceNodeTemperature(i, 1),
            3 => FenestrationNodeTemperature(i, 2),
            4 => SpaceAirExchangeVolume(i, 1),
            5 => SurfaceBackConvectionCoefficient(i),
            6 => SurfaceFrontConvectiveHeatFlow(i),
            7 => SurfaceBackConvectiveHeatFlow(i),
            8 => SurfaceFrontSolarIrradiance(i),
            9 => SurfaceBackSolarIrradiance(i),
            10 => SurfaceFrontIRIrradiance(i),
            11 => SurfaceBackIRIrradiance(i),
            12 => FenestrationFrontConvectionCoefficient(i),
            13 => FenestrationBackConvectionCoefficient(i),
            14 => FenestrationFrontSolarIrradiance(i),
            15 => FenestrationBackIRIrradiance(i),
            16 => SpaceInfiltrationVolume(i),
            17 => SpaceInfiltrationTemperature(i),
            18 => SpaceVentilationVolume(i),
            19 => SpaceVentilationTemperature(i),
            _ => FenestrationFrontConvectiveHeatFlow(i),
        },
    }
}
fn push_all() {
    let mut h = SimulationStateHeader::new();
    check(h.is_empty() && h.len() == 0, "starts empty");
    let n = if thorough() { 6 } else { 5 };
    let off = choose("off", 7);
    let mut kept: Vec<(usize, SimulationStateElement, Float)> = vec![];
    let mut stage = 0;
    for i in 0..n {
        let k = choose(&format!("kind{i}"), 3);
        let v = sym(&format!("v{i}"), -1e3, 1e3);
        let e = element(k, off * 3 + i);
        check(e.is_personal() == (k == 0) && e.is_operational() == (k == 1) && e.is_physical() == (k == 2), "kind of the element");
        let r = h.push(e, v);
        if k < stage {
            check(r.is_err(), "people come first, then operation, then physics");
        } else {
            stage = k;
            check(r == Ok(kept.len()), "position of the element");
            kept.push((k, e, v));
        }
        check(h.len() == kept.len() && h.is_empty() == kept.is_empty(), "refused elements leave no trace");
    }
    let (np, no) = (kept.iter().filter(|k| k.0 == 0).count(), kept.iter().filter(|k| k.0 == 1).count());
    check(h.n_individual() == np && h.n_operational() == no, "number of elements of each kind");
    for (i, k) in kept.iter().enumerate() {
        check(h[i] == k.1 && h.elements[i] == k.1, "elements are where they were put");
    }
    let vals = h.take_values().unwrap();
    check(vals.len() == kept.len(), "a value per element");
    for (i, k) in kept.iter().enumerate() {
        close(vals[i], k.2, 0.0, "initial value");
    }
    check(h.take_values().is_none(), "the values can be taken only once");
    // copies move only their part
    let from: SimulationState = (0..vals.len()).map(|i| sym(&format!("from{i}"), -1e3, 1e3)).collect();
    for kind in 0..3 {
        let mut to = vals.clone();
        match kind {
            0 => h.copy_individual_state(&from, &mut to),
            1 => h.copy_operational_state(&from, &mut to),
            _ => h.copy_physical_state(&from, &mut to),
        }
        check(to.len() == vals.len(), "copies keep the size");
        for (i, k) in kept.iter().enumerate() {
            close(to[i], if k.0 == kind { from[i] } else { vals[i] }, 0.0, "copies move only their part");
        }
    }
    let mut h2 = h.clone();
    h2.copy_from(&h);
    check(h2.elements == h.elements, "copied headers");
}
fn space_state() {
    let n = 1 + choose("n", 2);
    let first = choose("first", 5);
    let mut h = SimulationStateHeader::new();
    let sp: Vec<Space> = (0..n).map(|i| Space::new(format!("s{i}"))).collect();
    let mut k = 0;
    for (i, s) in sp.iter().enumerate() {
        for j in 0..5 {
            let r = match (j + first) % 5 {
                0 => s.set_dry_bulb_temperature_index(h.push(SimulationStateElement::SpaceDryBulbTemperature(i), 1.0).unwrap()),
                1 => s.set_infiltration_volume_index(h.push(SimulationStateElement::SpaceInfiltrationVolume(i), 1.0).unwrap()),
                2 => s.set_infiltration_temperature_index(h.push(SimulationStateElement::SpaceInfiltrationTemperature(i), 1.0).unwrap()),
                3 => s.set_ventilation_volume_index(h.push(SimulationStateElement::SpaceVentilationVolume(i), 1.0).unwrap()),
                _ => s.set_ventilation_temperature_index(h.push(SimulationStateElement::SpaceVentilationTemperature(i), 1.0).unwrap()),
            };
            check(r.is_ok(), "the position can be set");
            k += 1;
        }
    }
    check(h.len() == k, "one element each");
    let mut st = h.take_values().unwrap();
    let mut vals = vec![];
    for (i, s) in sp.iter().enumerate() {
        for j in 0..5 {
            let v = sym(&format!("v{i}{j}"), -100.0, 100.0);
            match j {
                0 => s.set_dry_bulb_temperature(&mut st, v),
                1 => s.set_infiltration_volume(&mut st, v),
                2 => s.set_infiltration_temperature(&mut st, v),
                3 => s.set_ventilation_volume(&mut st, v),
                _ => s.set_ventilation_temperature(&mut st, v),
            }
            .unwrap();
            vals.push(v);
        }
    }
    for (i, s) in sp.iter().enumerate() {
        let got = [s.dry_bulb_temperature(&st), s.infiltration_volume(&st), s.infiltration_temperature(&st), s.ventilation_volume(&st), s.ventilation_temperature(&st)];
        for j in 0..5 {
            close(got[j].unwrap(), vals[i * 5 + j], 0.0, "what was written is read");
        }
        check(s.set_dry_bulb_temperature_index(0).is_err() && s.set_infiltration_volume_index(0).is_err() && s.set_infiltration_temperature_index(0).is_err(), "positions are set once");
        check(s.set_ventilation_volume_index(0).is_err() && s.set_ventilation_temperature_index(0).is_err(), "positions are set once");
    }
    let s = Space::new("none".to_string());
    check(s.dry_bulb_temperature(&st).is_none() && s.infiltration_volume(&st).is_none(), "nothing to read before it is set");
    check(s.set_dry_bulb_temperature(&mut st, 1.0).is_err(), "nothing to write before it is set");
}
fn add_states<S: SurfaceTrait>(s: &S, h: &mut SimulationStateHeader, i: usize, order: usize, nodes: usize) {
    for j in 0..9 {
        match (j + order) % 9 {
            0 => s.add_front_convection_state(h, i),
            1 => s.add_back_convection_state(h, i),
            2 => s.add_front_convective_heatflow_state(h, i),
            3 => s.add_back_convective_heatflow_state(h, i),
            4 => s.add_front_solar_irradiance_state(h, i),
            5 => s.add_back_solar_irradiance_state(h, i),
            6 => s.add_front_ir_irradiance_state(h, i),
            7 => s.add_back_ir_irradiance_state(h, i),
            _ => s.add_node_temperature_states(h, i, nodes),
        }
        .unwrap();
    }
    let n = h.len();
    check(s.add_front_convection_state(h, i).is_err() && s.add_back_convection_state(h, i).is_err() && s.add_node_temperature_states(h, i, nodes).is_err(), "states are added once");
    check(s.add_front_convective_heatflow_state(h, i).is_err() && s.add_back_convective_heatflow_state(h, i).is_err(), "states are added once");
    let _ = (s.add_front_solar_irradiance_state(h, i), s.add_back_solar_irradiance_state(h, i), s.add_front_ir_irradiance_state(h, i), s.add_back_ir_irradiance_state(h, i));
    check(h.len() == n, "states are added once");
}
fn write_trait<S: SurfaceTrait>(s: &S, st: &mut SimulationState, tag: &str, nodes: usize) -> Vec<Float> {
    let v: Vec<Float> = (0..4 + nodes).map(|j| sym(&format!("{tag}{j}"), -100.0, 100.0)).collect();
    s.set_front_convection_coefficient(st, v[0]).unwrap();
    s.set_back_convection_coefficient(st, v[1]).unwrap();
    s.set_front_convective_heat_flow(st, v[2]).unwrap();
    s.set_back_convective_heat_flow(st, v[3]).unwrap();
    let mut m = matrix::Matrix::new(0.0, nodes, 1);
    for j in 0..nodes {
        m.set(j, 0, v[4 + j]).unwrap();
    }
    s.set_node_temperatures(st, &m);
    v
}
fn read_trait<S: SurfaceTrait>(s: &S, st: &SimulationState, v: &[Float], nodes: usize, sun: &[Float]) {
    close(s.front_convection_coefficient(st).unwrap(), v[0], 0.0, "front convection coefficient");
    close(s.back_convection_coefficient(st).unwrap(), v[1], 0.0, "back convection coefficient");
    close(s.front_temperature(st), v[4], 0.0, "front temperature is the first node");
    close(s.back_temperature(st), v[3 + nodes], 0.0, "back temperature is the last node");
    check(s.last_node_temperature_index() + 1 - s.first_node_temperature_index() == nodes, "number of nodes");
    let mut m = matrix::Matrix::new(0.0, nodes, 1);
    s.get_node_temperatures(st, &mut m).unwrap();
    for j in 0..nodes {
        close(m.get(j, 0).unwrap(), v[4 + j], 0.0, "temperature of the nodes");
    }
    close(s.front_solar_irradiance(st), sun[0], 0.0, "front solar irradiance");
    close(s.back_solar_irradiance(st), sun[1], 0.0, "back solar irradiance");
    close(s.front_infrared_irradiance(st), sun[2], 0.0, "front infrared irradiance");
    close(s.back_infrared_irradiance(st), sun[3], 0.0, "back infrared irradiance");
}
fn flat() -> Polygon3D {
    let mut l = Loop3D::new();
    for (x, y) in [(0.0, 0.0), (2.0, 0.0), (2.0, 2.0), (0.0, 2.0)] {
        l.push(Point3D::new(x, y, 0.0)).unwrap();
    }
    l.close().unwrap();
    Polygon3D::new(l).unwrap()
}
fn surface_state() {
    let mut h = SimulationStateHeader::new();
    let order = choose("order", 9);
    let nodes = 1 + choose("nodes", 3);
    let s: Vec<Surface> = (0..2).map(|i| Surface::new(format!("s{i}"), flat(), "c".to_string(), Boundary::Outdoor, Boundary::Outdoor)).collect();
    let f: Vec<Fenestration> = (0..2).map(|i| Fenestration::new(format!("f{i}"), flat(), "c".to_string(), FenestrationType::Window, Boundary::Outdoor, Boundary::Outdoor)).collect();
    for i in 0..2 {
        add_states(&s[i], &mut h, i, order, nodes);
        add_states(&f[i], &mut h, i, (order + 4) % 9, nodes + i);
    }
    let mut st = h.take_values().unwrap();
    check(st.len() == 4 * 8 + 4 * nodes + 1, "one element per state");
    let mut v = vec![];
    for i in 0..2 {
        v.push(write_trait(&s[i], &mut st, &format!("s{i}_"), nodes));
        v.push(write_trait(&f[i], &mut st, &format!("f{i}_"), nodes + i));
    }
    let mut sun = vec![];
    for i in 0..2 {
        let a: Vec<Float> = (0..8).map(|j| sym(&format!("sun{i}_{j}"), 0.0, 1000.0)).collect();
        s[i].set_front_incident_solar_irradiance(&mut st, a[0]).unwrap();
        s[i].set_back_incident_solar_irradiance(&mut st, a[1]).unwrap();
        s[i].set_front_ir_irradiance(&mut st, a[2]).unwrap();
        s[i].set_back_ir_irradiance(&mut st, a[3]).unwrap();
        f[i].set_front_incident_solar_irradiance(&mut st, a[4]).unwrap();
        f[i].set_back_incident_solar_irradiance(&mut st, a[5]).unwrap();
        f[i].set_front_ir_irradiance(&mut st, a[6]).unwrap();
        f[i].set_back_ir_irradiance(&mut st, a[7]).unwrap();
        sun.push(a);
    }
    for i in 0..2 {
        read_trait(&s[i], &st, &v[2 * i], nodes, &sun[i][..4]);
        read_trait(&f[i], &st, &v[2 * i + 1], nodes + i, &sun[i][4..]);
        close(s[i].front_convective_heat_flow(&st).unwrap(), v[2 * i][2], 0.0, "front heat flow");
        close(s[i].back_convective_heat_flow(&st).unwrap(), v[2 * i][3], 0.0, "back heat flow");
        close(f[i].front_convective_heat_flow(&st).unwrap(), v[2 * i + 1][2], 0.0, "front heat flow");
        close(f[i].back_convective_heat_flow(&st).unwrap(), v[2 * i + 1][3], 0.0, "back heat flow");
    }
}
// ------------------------------------------------------------------ J01 models through files
fn opt(a: Result<&Float, String>, b: Result<&Float, String>, what: &str) {
    match (a, b) {
        (Ok(a), Ok(b)) => close(*a, *b, 1e-9, what),
        (Err(_), Err(_)) => {}
        _ => check(false, what),
    }
}
fn same_boundary(a: &Boundary, b: &Boundary) {
    match (a, b) {
        (Boundary::AmbientTemperature { temperature: x }, Boundary::AmbientTemperature { temperature: y }) => close(*x, *y, 1e-9, "ambient temperature"),
        (Boundary::Space { space: x }, Boundary::Space { space: y }) => check(x == y, "space of the boundary"),
        (Boundary::Outdoor, Boundary::Outdoor) | (Boundary::Ground, Boundary::Ground) | (Boundary::Adiabatic, Boundary::Adiabatic) => {}
        _ => check(false, "kind of boundary"),
    }
}
fn same_infiltration(a: &Infiltration, b: &Infiltration) {
    use Infiltration::*;
    let c = |x: &Float, y: &Float| close(*x, *y, 1e-9, "infiltration");
    match (a, b) {
        (Constant { flow: x }, Constant { flow: y }) | (Blast { flow: x }, Blast { flow: y }) | (Doe2 { flow: x }, Doe2 { flow: y }) => c(x, y),
        (EffectiveAirLeakageArea { area: x }, EffectiveAirLeakageArea { area: y }) => c(x, y),
        (DesignFlowRate { a: a1, b: b1, c: c1, d: d1, phi: p1 }, DesignFlowRate { a: a2, b: b2, c: c2, d: d2, phi: p2 }) => {
            c(a1, a2);
            c(b1, b2);
            c(c1, c2);
            c(d1, d2);
            c(p1, p2);
        }
        _ => check(false, "kind of infiltration"),
    }
}
fn same_loop(a: &Polygon3D, b: &Polygon3D) {
    let (x, y) = (a.outer().vertices(), b.outer().vertices());
    check(x.len() == y.len(), "number of vertices");
    for (p, q) in x.iter().zip(y.iter()) {
        close(p.x, q.x, 1e-9, "vertices");
        close(p.y, q.y, 1e-9, "vertices");
        close(p.z, q.z, 1e-9, "vertices");
    }
}
fn same_model(a: &Model, b: &Model) {
    check(a.buildings.len() == b.buildings.len() && a.spaces.len() == b.spaces.len() && a.surfaces.len() == b.surfaces.len(), "number of objects");
    check(a.fenestrations.len() == b.fenestrations.len() && a.hvacs.len() == b.hvacs.len() && a.luminaires.len() == b.luminaires.len(), "number of objects");
    check(a.substances.len() == b.substances.len() && a.materials.len() == b.materials.len() && a.constructions.len() == b.constructions.len(), "number of objects");
    check(a.objects.len() == b.objects.len() && a.outputs.len() == b.outputs.len(), "number of objects");
    for (x, y) in a.buildings.iter().zip(&b.buildings) {
        check(x.name == y.name && x.n_storeys().ok() == y.n_storeys().ok(), "building");
        check(format!("{:?}", x.shelter_class()) == format!("{:?}", y.shelter_class()), "shelter class");
        opt(x.stack_coefficient(), y.stack_coefficient(), "stack coefficient");
        opt(x.wind_coefficient(), y.wind_coefficient(), "wind coefficient");
    }
    for (x, y) in a.spaces.iter().zip(&b.spaces) {
        check(x.name == y.name && x.storey().ok() == y.storey().ok() && x.building().ok() == y.building().ok() && x.purposes == y.purposes, "space");
        opt(x.volume(), y.volume(), "volume");
        match (x.infiltration(), y.infiltration()) {
            (Ok(x), Ok(y)) => same_infiltration(x, y),
            (Err(_), Err(_)) => {}
            _ => check(false, "infiltration"),
        }
    }
    for (x, y) in a.substances.iter().zip(&b.substances) {
        match (x, y) {
            (Substance::Normal(x), Substance::Normal(y)) => {
                check(x.name == y.name, "name");
                opt(x.thermal_conductivity(), y.thermal_conductivity(), "thermal conductivity");
                opt(x.specific_heat_capacity(), y.specific_heat_capacity(), "specific heat");
                opt(x.density(), y.density(), "density");
                opt(x.front_solar_absorbtance(), y.front_solar_absorbtance(), "solar absorptance");
                opt(x.back_solar_absorbtance(), y.back_solar_absorbtance(), "solar absorptance");
                opt(x.solar_transmittance(), y.solar_transmittance(), "solar transmittance");
                opt(x.front_visible_reflectance(), y.front_visible_reflectance(), "visible reflectance");
                opt(x.back_visible_reflectance(), y.back_visible_reflectance(), "visible reflectance");
                opt(x.visible_transmissivity(), y.visible_transmissivity(), "visible transmissivity");
                opt(x.front_thermal_absorbtance(), y.front_thermal_absorbtance(), "thermal absorptance");
                opt(x.back_thermal_absorbtance(), y.back_thermal_absorbtance(), "thermal absorptance");
            }
            (Substance::Gas(x), Substance::Gas(y)) => check(x.name == y.name && format!("{:?}", x.gas()) == format!("{:?}", y.gas()), "gas"),
            _ => check(false, "kind of substance"),
        }
    }
    for (x, y) in a.materials.iter().zip(&b.materials) {
        check(x.name == y.name && x.substance == y.substance, "material");
        close(x.thickness, y.thickness, 1e-9, "thickness");
    }
    for (x, y) in a.constructions.iter().zip(&b.constructions) {
        check(x.name == y.name && x.materials == y.materials, "construction");
    }
    for (x, y) in a.surfaces.iter().zip(&b.surfaces) {
        check(x.name == y.name && x.construction == y.construction && x.category().ok() == y.category().ok(), "surface");
        same_boundary(&x.front_boundary, &y.front_boundary);
        same_boundary(&x.back_boundary, &y.back_boundary);
        opt(x.precalculated_front_convection_coef(), y.precalculated_front_convection_coef(), "front convection");
        opt(x.precalculated_back_convection_coef(), y.precalculated_back_convection_coef(), "back convection");
        if x.vertices.n_inner_loops() == 0 {
            same_loop(&x.vertices, &y.vertices);
        }
        close(x.area(), y.area(), 1e-6, "area of the surface");
        check(x.normal().is_same_direction(y.normal()), "normal of the surface");
    }
    for (x, y) in a.fenestrations.iter().zip(&b.fenestrations) {
        check(x.name == y.name && x.construction == y.construction && x.category == y.category, "window");
        same_boundary(&x.front_boundary, &y.front_boundary);
        same_boundary(&x.back_boundary, &y.back_boundary);
        opt(x.precalculated_front_convection_coef(), y.precalculated_front_convection_coef(), "front convection");
        opt(x.precalculated_back_convection_coef(), y.precalculated_back_convection_coef(), "back convection");
        let o = |a: &Option<Float>, b: &Option<Float>| opt(a.as_ref().ok_or("".to_string()), b.as_ref().ok_or("".to_string()), "operation of the window");
        match (x.operation(), y.operation()) {
            (Ok(FenestrationPosition::Fixed { fraction: x }), Ok(FenestrationPosition::Fixed { fraction: y })) => o(x, y),
            (Ok(FenestrationPosition::Continuous { max: a, min: b }), Ok(FenestrationPosition::Continuous { max: c, min: d })) => {
                o(a, c);
                o(b, d);
            }
            (Ok(FenestrationPosition::Binary { open: a, closed: b }), Ok(FenestrationPosition::Binary { open: c, closed: d })) => {
                o(a, c);
                o(b, d);
            }
            (Err(_), Err(_)) => {}
            _ => check(false, "operation of the window"),
        }
        check(x.open_fraction_index() == y.open_fraction_index() && x.open_fraction_index().is_some(), "place in the state");
        same_loop(&x.vertices, &y.vertices);
    }
    for (x, y) in a.hvacs.iter().zip(&b.hvacs) {
        match (x, y) {
            (hvac::HVAC::ElectricHeater(x), hvac::HVAC::ElectricHeater(y)) => {
                check(x.name == y.name && x.target_space().ok() == y.target_space().ok(), "heater");
                opt(x.max_heating_power(), y.max_heating_power(), "heating power");
                opt(x.heating_setpoint(), y.heating_setpoint(), "setpoint");
                check(x.heating_cooling_consumption_index() == y.heating_cooling_consumption_index() && x.heating_cooling_consumption_index().is_some(), "place in the state");
            }
            (hvac::HVAC::IdealHeaterCooler(x), hvac::HVAC::IdealHeaterCooler(y)) => {
                check(x.name == y.name && x.target_space().ok() == y.target_space().ok(), "heater");
                opt(x.max_heating_power(), y.max_heating_power(), "heating power");
                opt(x.max_cooling_power(), y.max_cooling_power(), "cooling power");
                opt(x.heating_setpoint(), y.heating_setpoint(), "setpoint");
                opt(x.cooling_setpoint(), y.cooling_setpoint(), "setpoint");
                check(x.heating_cooling_consumption_index() == y.heating_cooling_consumption_index() && x.heating_cooling_consumption_index().is_some(), "place in the state");
            }
            _ => check(false, "kind of heater"),
        }
    }
    for (x, y) in a.luminaires.iter().zip(&b.luminaires) {
        check(x.name() == y.name() && x.target_space().ok() == y.target_space().ok(), "luminaire");
        opt(x.max_power(), y.max_power(), "power of the luminaire");
        check(x.power_consumption_index() == y.power_consumption_index() && x.power_consumption_index().is_some(), "place in the state");
    }
    for (x, y) in a.objects.iter().zip(&b.objects) {
        check(x.name == y.name && x.space().ok() == y.space().ok() && format!("{:?}", x.specifications) == format!("{:?}", y.specifications), "object");
        for (p, q) in [(x.dimensions, y.dimensions), (x.location, y.location)] {
            close(p.x, q.x, 1e-9, "object");
            close(p.y, q.y, 1e-9, "object");
            close(p.z, q.z, 1e-9, "object");
        }
        for (p, q) in [(x.up, y.up), (x.front, y.front)] {
            close(p.x, q.x, 1e-9, "object");
            close(p.y, q.y, 1e-9, "object");
            close(p.z, q.z, 1e-9, "object");
        }
    }
    for (x, y) in a.outputs.iter().zip(&b.outputs) {
        check(format!("{x:?}") == format!("{y:?}"), "output");
    }
    match (&a.site_details, &b.site_details) {
        (Some(x), Some(y)) => {
            check(x.terrain().ok() == y.terrain().ok(), "terrain");
            opt(x.altitude(), y.altitude(), "altitude");
            opt(x.latitude(), y.latitude(), "latitude");
            opt(x.longitude(), y.longitude(), "longitude");
            opt(x.standard_meridian(), y.standard_meridian(), "standard meridian");
        }
        (None, None) => {}
        _ => check(false, "site"),
    }
    match (&a.solar_options, &b.solar_options) {
        (Some(x), Some(y)) => {
            check(x.n_solar_irradiance_points().ok() == y.n_solar_irradiance_points().ok() && x.solar_ambient_divitions().ok() == y.solar_ambient_divitions().ok(), "solar options");
            check(x.solar_sky_discretization().ok() == y.solar_sky_discretization().ok() && x.optical_data_path().ok() == y.optical_data_path().ok(), "solar options");
        }
        (None, None) => {}
        _ => check(false, "solar options"),
    }
}
/// writes the model and reads it back, through the format given
fn through(a: &Model, spl: bool) -> (Model, SimulationStateHeader) {
    if spl {
        Model::from_bytes(format!("{a}").as_bytes()).unwrap()
    } else {
        let f = std::env::temp_dir().join(format!("hx-air-{}-{:?}.json", std::process::id(), std::thread::current().id()));
        let f = f.to_str().unwrap().to_string();
        a.print_to_json_file(&f).unwrap();
        let r = Model::from_json_file(f.clone());
        std::fs::remove_file(&f).unwrap();
        r.unwrap()
    }
}
fn rect(x0: Float, w: Float, h: Float) -> Polygon3D {
    let mut l = Loop3D::new();
    for (x, z) in [(x0, 0.0), (x0 + w, 0.0), (x0 + w, h), (x0, h)] {
        l.push(Point3D::new(x, 0.0, z)).unwrap();
    }
    l.close().unwrap();
    Polygon3D::new(l).unwrap()
}
fn pick(name: &str, lo: f64, hi: f64, on: bool) -> Option<Float> {
    if on {
        Some(sym(name, lo, hi))
    } else {
        None
    }
}
fn io_objects() {
    let spl = choose("spl", 2) == 1;
    let on = choose("on", 3); // which optional fields
    let o = |i: usize| on == 2 || i % 2 == on;
    let mut m = Model::default();
    m.name = None;
    let mut b = Building::new("the building".to_string());
    if let Some(x) = pick("cs", 0.0, 1.0, o(0)) {
        b.set_stack_coefficient(x);
    }
    if let Some(x) = pick("cw", 0.0, 1.0, o(1)) {
        b.set_wind_coefficient(x);
    }
    if o(0) {
        b.set_shelter_class(shelter(choose("shelter", 5)));
    }
    if o(1) {
        b.set_n_storeys(3);
    }
    m.add_building(b);
    let v = |i: usize| sym(&format!("v{i}"), 0.1, 10.0);
    for (i, name) in ["first", "second one"].iter().enumerate() {
        let mut s = Space::new(name.to_string());
        if o(i) {
            s.set_volume(v(i)).set_storey(i);
            s.purposes.push(SpacePurpose::Kitchen);
        } else {
            s.set_building("the building".to_string());
        }
        match choose("inf", 6) + i {
            0 => s.set_infiltration(Infiltration::Constant { flow: v(2) }),
            1 => s.set_infiltration(Infiltration::Blast { flow: v(2) }),
            2 => s.set_infiltration(Infiltration::Doe2 { flow: v(2) }),
            3 => s.set_infiltration(Infiltration::DesignFlowRate { a: v(2), b: v(3), c: v(4), d: v(5), phi: v(6) }),
            4 => s.set_infiltration(Infiltration::EffectiveAirLeakageArea { area: v(2) }),
            _ => &mut s,
        };
        m.add_space(s);
    }
    let mut e = hvac::ElectricHeater::new("heater".to_string());
    if o(0) {
        e.set_max_heating_power(v(7)).set_target_space("first".to_string());
    }
    if o(1) {
        e.set_heating_setpoint(v(8));
    }
    let mut c = hvac::IdealHeaterCooler::new("cooler".to_string());
    if o(1) {
        c.set_max_heating_power(v(9)).set_target_space("second one".to_string()).set_heating_setpoint(v(11));
    }
    if o(0) {
        c.set_max_cooling_power(v(10)).set_cooling_setpoint(v(12));
    }
    if choose("first_hvac", 2) == 0 {
        m.add_hvac(e.wrap()).unwrap();
        m.add_hvac(c.wrap()).unwrap();
    } else {
        m.add_hvac(c.wrap()).unwrap();
        m.add_hvac(e.wrap()).unwrap();
    }
    let mut l = Luminaire::new("lamp".to_string());
    if o(0) {
        l.set_max_power(v(13));
    }
    if o(1) {
        l.set_target_space("first".to_string());
    }
    m.add_luminaire(l).unwrap();
    let mut s = SiteDetails::new();
    if let Some(x) = pick("alt", -100.0, 3000.0, o(0)) {
        s.set_altitude(x);
    }
    if let Some(x) = pick("lat", -90.0, 90.0, o(1)) {
        s.set_latitude(x);
    }
    if let Some(x) = pick("lon", -180.0, 180.0, o(0)) {
        s.set_longitude(x);
    }
    if let Some(x) = pick("mer", -180.0, 180.0, o(1)) {
        s.set_standard_meridian(x);
    }
    if o(1) {
        s.set_terrain(TerrainClass::Ocean);
    }
    m.site_details = Some(s);
    let mut s = SolarOptions::new();
    if o(0) {
        s.set_n_solar_irradiance_points(11).set_solar_ambient_divitions(55);
    }
    if o(1) {
        s.set_solar_sky_discretization(2).set_optical_data_path("a/b.json".to_string());
    }
    m.solar_options = Some(s);
    m.outputs.push(Output::SpaceDryBulbTemperature("first".to_string()));
    m.outputs.push(Output::SpaceInfiltrationVolume("second one".to_string()));
    let (n, st) = through(&m, spl);
    same_model(&m, &n);
    check(st.len() == 3, "elements of the state");
}
fn io_surfaces() {
    let spl = choose("spl", 2) == 1;
    let mut m = Model::default();
    m.add_space(Space::new("a".to_string()));
    let v = |i: usize| sym(&format!("v{i}"), 0.1, 10.0);
    let on = choose("on", 4);
    let o = |i: usize| on == 3 || i % 3 == on;
    let mut s = Normal::new("solid".to_string());
    if o(0) {
        s.set_thermal_conductivity(v(0)).set_front_solar_absorbtance(v(1)).set_front_visible_reflectance(v(2)).set_front_thermal_absorbtance(v(3));
    }
    if o(1) {
        s.set_specific_heat_capacity(v(4)).set_back_solar_absorbtance(v(5)).set_back_visible_reflectance(v(6)).set_back_thermal_absorbtance(v(7));
    }
    if o(2) {
        s.set_density(v(8)).set_solar_transmittance(v(9)).set_visible_transmissivity(v(10));
    }
    m.add_substance(s.wrap());
    let mut g = Gas::new("gas".to_string());
    use substance::gas::GasSpecification::*;
    if o(0) {
        g.set_gas([Air, Argon, Krypton, Xenon][choose("gas", 4)].clone());
    }
    m.add_substance(g.wrap());
    m.add_material(Material::new("m1".to_string(), "solid".to_string(), v(11)));
    m.add_material(Material::new("m2".to_string(), "gas".to_string(), v(12)));
    let mut c = Construction::new("c".to_string());
    for i in ["m1", "m2", "m1"] {
        c.materials.push(i.to_string());
    }
    m.add_construction(c);
    let (f, b) = (choose("front", 5), choose("back", 5));
    let bd = |i: usize| if i == 4 { Boundary::AmbientTemperature { temperature: sym("t", -20.0, 40.0) } } else { bound(i) };
    let mut s = Surface::new("s".to_string(), rect(sym("x0", -10.0, 10.0), sym("w", 3.0, 10.0), sym("h", 3.0, 5.0)), "c".to_string(), bd(f), bd(b));
    if o(0) {
        s.set_precalculated_front_convection_coef(v(13));
    }
    if o(1) {
        s.set_precalculated_back_convection_coef(v(14));
    }
    if o(2) {
        s.set_category(SurfaceType::Roof);
    }
    m.add_surface(s).unwrap();
    let mut w = Fenestration::new("f".to_string(), rect(sym("x1", 20.0, 30.0), v(15), v(16)), "c".to_string(), if o(0) { FenestrationType::Window } else { FenestrationType::Door }, bd(b), bd(f));
    if o(1) {
        w.set_precalculated_front_convection_coef(v(17));
    }
    if o(0) {
        w.set_precalculated_back_convection_coef(v(18));
    }
    match on {
        0 => w.set_operation(FenestrationPosition::Fixed { fraction: Some(v(19)) }),
        1 => w.set_operation(FenestrationPosition::Continuous { max: Some(v(19)), min: Some(v(20)) }),
        2 => w.set_operation(FenestrationPosition::Binary { open: Some(v(19)), closed: None }),
        _ => &mut w,
    };
    m.add_fenestration(w).unwrap();
    let (n, st) = through(&m, spl);
    same_model(&m, &n);
    check(st.len() == 1, "elements of the state");
}
/// texts that end before their time are errors
fn io_cut() {
    let text = "Space { name : \"a\", volume: 3.5 } // it was 'a'\n Building { name: 'b }', n_storeys: 2 } /* { */ Luminaire { name: \"c\" }";
    let n = choose("n", text.len() + 1);
    let r = Model::from_bytes(&text.as_bytes()[..n]);
    let (a, b, c) = (text.find('}').unwrap() + 1, text.find("2 }").unwrap() + 3, text.len());
    let inside = |from: &str, to: usize| text.find(from).unwrap() + from.len() + 2 <= n && n < to;
    if inside("Space", a) || inside("Building", b) || inside("Luminaire", c) {
        check(r.is_err(), "objects that end before their time are errors");
    }
    if n == 0 || n == a || n == b || n == c {
        check(r.is_ok(), "the text is understood");
    }
    if let Ok((m, _)) = r {
        check(m.spaces.len() == (n >= a) as usize && m.buildings.len() == (n >= b) as usize && m.luminaires.len() == (n == c) as usize, "objects in the text");
    }
}
/// a wall with a window keeps its hole
fn io_window() {
    let spl = choose("spl", 2) == 1;
    let mut m = walled(0, 1);
    let mut w = Fenestration::new("f".to_string(), hole(choose("flip", 2) == 1), "c".to_string(), FenestrationType::Window, Boundary::Outdoor, Boundary::Outdoor);
    w.set_parent_surface("s".to_string());
    m.add_fenestration(w).unwrap();
    let (n, _) = through(&m, spl);
    same_model(&m, &n);
}
/// the order of the objects, comments, space and names do not matter
fn io_text() {
    let names = ["plain", "closing } brace", "opening { brace", "a \"quoted\" name", "// no comment", "/* no comment", "don't", "ñandú"];
    let name = names[choose("name", names.len())];
    let v = |i: usize| sym(&format!("v{i}"), 0.1, 10.0);
    let mut m = Model::default();
    let mut b = Building::new(name.to_string());
    b.set_stack_coefficient(v(0));
    m.add_building(b);
    let mut s = Space::new(name.to_string());
    s.set_volume(v(1)).set_building(name.to_string()).set_infiltration(Infiltration::Doe2 { flow: v(2) });
    m.add_space(s);
    let mut s = Normal::new(name.to_string());
    s.set_density(v(3));
    m.add_substance(s.wrap());
    m.add_material(Material::new(name.to_string(), name.to_string(), v(4)));
    let mut c = Construction::new(name.to_string());
    c.materials.push(name.to_string());
    m.add_construction(c);
    m.add_surface(Surface::new(name.to_string(), rect(0.0, v(5), v(6)), name.to_string(), Boundary::Space { space: name.to_string() }, Boundary::Ground)).unwrap();
    m.add_fenestration(Fenestration::new(name.to_string(), rect(20.0, v(7), v(8)), name.to_string(), FenestrationType::Window, Boundary::Space { space: name.to_string() }, Boundary::Outdoor)).unwrap();
    let mut l = Luminaire::new(name.to_string());
    l.set_max_power(v(9)).set_target_space(name.to_string());
    let l = m.add_luminaire(l).unwrap();
    let mut h = hvac::ElectricHeater::new(name.to_string());
    h.set_max_heating_power(v(10));
    m.add_hvac(h.wrap()).unwrap();
    let blocks = [
        format!("Building {}", m.buildings[0]),
        format!("Space {}", m.spaces[0]),
        format!("Substance {}", m.substances[0]),
        format!("Material {}", m.materials[0]),
        format!("Construction {}", m.constructions[0]),
        format!("Surface {}", m.surfaces[0]),
        format!("Fenestration {}", m.fenestrations[0]),
        format!("Luminaire {}", l),
        format!("HVAC {}", m.hvacs[0]),
    ];
    let n = blocks.len();
    let (first, back) = (choose("first", n), choose("back", 2) == 1);
    let style = choose("style", 5);
    let mut t = String::new();
    for i in 0..n {
        let b = &blocks[if back { (first + n - i) % n } else { (first + i) % n }];
        match style {
            0 => t.push_str(b),
            1 => t.push_str(&format!("// it's a {{ comment\n{b}")),
            2 => t.push_str(&format!("/* it's a }} comment\n * / \n*/{}", b.trim())),
            3 => t.push_str(&format!("\t\r\n{}", b.trim_end().replacen("\n", " // a } comment, don't stop\n", 1))),
            _ => t.push_str(&b.replacen("{", "{ /* { \" */ ", 1)),
        }
    }
    let r = Model::from_bytes(t.as_bytes());
    check(r.is_ok(), "the text is understood");
    let (r, st) = r.unwrap();
    // places in the state: windows, heaters and then luminaires
    check(st.len() == 3, "elements of the state");
    check(r.fenestrations[0].open_fraction_index() == Some(0) && r.luminaires[0].power_consumption_index() == Some(2), "place in the state");
    let mut e = m.clone();
    e.fenestrations.clear();
    e.hvacs.clear();
    e.luminaires.clear();
    let (mut r2, f, lum) = (r.clone(), r.fenestrations[0].clone(), r.luminaires[0].clone());
    r2.fenestrations.clear();
    r2.hvacs.clear();
    r2.luminaires.clear();
    same_model(&e, &r2);
    check(f.name == name && f.construction == name && lum.name() == name && lum.target_space().unwrap() == name, "names");
    same_loop(&f.vertices, &m.fenestrations[0].vertices);
    opt(lum.max_power(), Ok(&v(9)), "power of the luminaire");
}
// ------------------------------------------------------------------ J02 putting models together
fn walled(f: usize, b: usize) -> Model {
    let mut m = Model::default();
    m.add_space(Space::new("a".to_string()));
    let mut s = Normal::new("solid".to_string());
    s.set_thermal_conductivity(1.0);
    m.add_substance(s.wrap());
    m.add_material(Material::new("m1".to_string(), "solid".to_string(), 0.1));
    let mut c = Construction::new("c".to_string());
    c.materials.push("m1".to_string());
    m.add_construction(c);
    let s = Surface::new("s".to_string(), rect(0.0, 6.0, 4.0), "c".to_string(), bound(f), bound(b));
    m.add_surface(s).unwrap();
    m
}
/// a window in that wall
fn hole(flip: bool) -> Polygon3D {
    let (x, z) = (sym("hx", 0.2, 2.0), sym("hz", 0.2, 1.0));
    let (w, h) = (sym("hw", 0.5, 3.0), sym("hh", 0.5, 2.0));
    let mut p = vec![(x, z), (x + w, z), (x + w, z + h), (x, z + h)];
    if flip {
        p.reverse();
    }
    let mut l = Loop3D::new();
    for (x, z) in p {
        l.push(Point3D::new(x, 0.0, z)).unwrap();
    }
    l.close().unwrap();
    Polygon3D::new(l).unwrap()
}
fn window_in_wall() {
    let (f, b) = (choose("front", 5), choose("back", 5));
    let mut m = walled(f, b);
    let flip = choose("flip", 2) == 1;
    let opening = choose("opening", 2) == 1;
    let mut w = Fenestration::new("f".to_string(), hole(flip), if opening { "none" } else { "c" }.to_string(), if opening { FenestrationType::Opening } else { FenestrationType::Window }, Boundary::Ground, Boundary::Ground);
    w.set_parent_surface("s".to_string());
    let area = w.area();
    let w = m.add_fenestration(w).unwrap();
    close(m.surfaces[0].area(), 24.0 - area, 1e-6, "the window takes its area from the wall");
    close(m.fenestrations[0].area(), area, 1e-9, "area of the window");
    let (ef, eb) = if flip { (b, f) } else { (f, b) };
    same_boundary(&w.front_boundary, &bound(ef));
    same_boundary(&w.back_boundary, &bound(eb));
    same_boundary(&m.fenestrations[0].front_boundary, &bound(ef));
    check(w.open_fraction_index() == Some(0), "place in the state");
}
/// the wall may look anywhere, and the window to the same side or the other one
fn window_in_tilted() {
    let (u, v) = [
        ([1.0, 0.0, 0.0], [0.0, 1.0, 0.0]),
        ([0.0, 1.0, 0.0], [1.0, 0.0, 0.0]),
        ([0.0, 1.0, 0.0], [0.0, 0.0, 1.0]),
        ([0.6, 0.8, 0.0], [0.0, 0.0, 1.0]),
        ([1.0, 0.0, 0.0], [0.0, 0.6, 0.8]),
        ([1.0, 0.0, 0.0], [0.0, -0.6, 0.8]),
        ([-0.8, 0.0, 0.6], [0.0, 1.0, 0.0]),
        ([1.0, 0.0, 0.0], [0.0, 0.8, -0.6]),
    ][choose("plane", 8)];
    let area = |x: Float, y: Float, w: Float, h: Float, flip: bool| {
        let mut p = vec![(x, y), (x + w, y), (x + w, y + h), (x, y + h)];
        if flip {
            p.reverse();
        }
        let mut l = Loop3D::new();
        for (a, b) in p {
            let q = |i: usize| a * u[i] as Float + b * v[i] as Float;
            l.push(Point3D::new(q(0), q(1), q(2) + 3.0)).unwrap();
        }
        l.close().unwrap();
        Polygon3D::new(l).unwrap()
    };
    let mut m = walled(0, 1);
    let (f, b) = [(0, 1), (1, 4), (2, 0)][choose("boundaries", 3)];
    let turned = choose("turned", 2) == 1;
    m.add_surface(Surface::new("tilted".to_string(), area(0.0, 0.0, 6.0, 4.0, turned), "c".to_string(), bound(f), bound(b))).unwrap();
    let flip = choose("flip", 2) == 1;
    let (x, h) = (sym("x", 0.2, 2.0), sym("h", 0.5, 2.0));
    let mut w = Fenestration::new("f".to_string(), area(x, 1.0, 1.5, h, flip != turned), "c".to_string(), FenestrationType::Door, Boundary::Ground, Boundary::Ground);
    w.set_parent_surface("tilted".to_string());
    let w = m.add_fenestration(w).unwrap();
    close(m.surfaces[0].area(), 24.0, 1e-6, "other walls keep their area");
    close(m.surfaces[1].area(), 24.0 - 1.5 * h, 1e-6, "the window takes its area from the wall");
    let (ef, eb) = if flip { (b, f) } else { (f, b) };
    same_boundary(&w.front_boundary, &bound(ef));
    same_boundary(&w.back_boundary, &bound(eb));
}
/// several walls and windows: each window in its own wall
fn windows_in_walls() {
    let mut m = walled(0, 1);
    let sizes = [6.0, 7.0, 8.0];
    let kinds = [(0, 1), (1, 2), (4, 0)];
    for i in 1..3 {
        let s = Surface::new(format!("s{i}"), rect(0.0, sizes[i], 4.0), "c".to_string(), bound(kinds[i].0), bound(kinds[i].1));
        m.add_surface(s).unwrap();
    }
    let name = |i: usize| if i == 0 { "s".to_string() } else { format!("s{i}") };
    let win = |n: &str, x: Float, w: Float, parent: usize| {
        let mut f = Fenestration::new(n.to_string(), at(x, w), "c".to_string(), FenestrationType::Window, Boundary::Ground, Boundary::Ground);
        f.set_parent_surface(name(parent));
        f
    };
    let (i, j) = (choose("first", 3), choose("second", 3));
    let (x, w) = (sym("x", 0.2, 1.0), sym("w", 0.5, 1.5));
    m.add_fenestration(win("f0", x, w, i)).unwrap();
    let mut area: Vec<Float> = sizes.iter().map(|x| *x * 4.0).collect();
    area[i] -= w;
    let second = choose("where", 3);
    let y = sym("y", 3.0, 4.0);
    // beside it, over it, or out of the wall
    let f = match second {
        0 => win("f1", y, 1.5, j),
        1 => win("f1", x + w * 0.5, 1.0, j),
        _ => win("f1", y + 20.0, 1.5, j),
    };
    let r = m.add_fenestration(f);
    if second == 2 || (second == 1 && i == j) {
        check(r.is_err() && m.fenestrations.len() == 1, "windows that are not within their wall are refused");
    } else {
        check(r.is_ok() && m.fenestrations.len() == 2, "windows fit in their walls");
        area[j] -= if second == 0 { 1.5 } else { 1.0 };
        let f = m.get_fenestration("f1".to_string()).unwrap();
        same_boundary(&f.front_boundary, &bound(kinds[j].0));
        same_boundary(&f.back_boundary, &bound(kinds[j].1));
        check(f.open_fraction_index() == Some(1), "place in the state of the second window");
    }
    let f = m.get_fenestration("f0".to_string()).unwrap();
    check(f.name() == "f0" && f.open_fraction_index() == Some(0), "window found by name");
    for k in 0..3 {
        let s = m.get_surface(name(k)).unwrap();
        check(s.name() == &name(k), "surface found by name");
        close(s.area(), area[k], 1e-6, "each wall looses the area of its own windows");
        close(m.surfaces[k].area(), area[k], 1e-6, "each wall looses the area of its own windows");
    }
}
fn at(x: Float, w: Float) -> Polygon3D {
    let mut l = Loop3D::new();
    for (x, z) in [(x, 1.0), (x + w, 1.0), (x + w, 2.0), (x, 2.0)] {
        l.push(Point3D::new(x, 0.0, z)).unwrap();
    }
    l.close().unwrap();
    Polygon3D::new(l).unwrap()
}
fn set_boundaries() {
    let (f, b, k, front) = (choose("front", 5), choose("back", 5), choose("new", 5), choose("side", 2) == 1);
    let mut s = Surface::new("s".to_string(), rect(0.0, 1.0, 1.0), "c".to_string(), bound(f), bound(b));
    let mut w = Fenestration::new("f".to_string(), rect(0.0, 1.0, 1.0), "c".to_string(), FenestrationType::Window, bound(f), bound(b));
    fn set<S: SurfaceTrait>(s: &mut S, front: bool, k: usize, f: usize, b: usize) {
        if front {
            s.set_front_boundary(bound(k));
        } else {
            s.set_back_boundary(bound(k));
        }
        same_boundary(s.front_boundary(), &bound(if front { k } else { f }));
        same_boundary(s.back_boundary(), &bound(if front { b } else { k }));
    }
    set(&mut s, front, k, f, b);
    set(&mut w, front, k, f, b);
}
fn refused() {
    let mut m = walled(0, 1);
    let w = |c: &str, t: FenestrationType| Fenestration::new("f".to_string(), rect(1.0, 1.0, 1.0), c.to_string(), t, Boundary::Outdoor, Boundary::Outdoor);
    match choose("k", 8) {
        0 => check(m.add_fenestration(w("nothing", FenestrationType::Window)).is_err() && m.fenestrations.is_empty(), "windows need a construction"),
        1 => check(m.add_fenestration(w("nothing", FenestrationType::Door)).is_err() && m.fenestrations.is_empty(), "doors need a construction"),
        2 => check(m.add_fenestration(w("nothing", FenestrationType::Opening)).is_ok(), "openings need no construction"),
        3 => {
            let mut f = w("c", FenestrationType::Window);
            f.set_parent_surface("nowhere".to_string());
            check(m.add_fenestration(f).is_err() && m.fenestrations.is_empty(), "parents have to exist");
        }
        4 => {
            let s = Surface::new("t".to_string(), rect(0.0, 1.0, 1.0), "nothing".to_string(), Boundary::Outdoor, Boundary::Outdoor);
            check(m.add_surface(s).is_err() && m.surfaces.len() == 1, "surfaces need a construction");
        }
        5 => {
            let s = Surface::new("t".to_string(), rect(0.0, 1.0, 1.0), "c".to_string(), Boundary::Space { space: "b".to_string() }, Boundary::Outdoor);
            check(m.add_surface(s).is_err() && m.surfaces.len() == 1, "surfaces look into spaces that exist");
        }
        6 => {
            let s = Surface::new("t".to_string(), rect(0.0, 1.0, 1.0), "c".to_string(), Boundary::Ground, Boundary::Space { space: "b".to_string() });
            check(m.add_surface(s).is_err() && m.surfaces.len() == 1, "surfaces look into spaces that exist");
        }
        _ => {
            m.take_state();
            check(m.add_fenestration(w("c", FenestrationType::Window)).is_err() && m.add_luminaire(Luminaire::new("l".to_string())).is_err(), "nothing is added once the state was taken");
        }
    }
}
fn lookup() {
    let mut m = Model::default();
    let n = 3;
    for i in 0..n {
        let mut s = Normal::new(format!("s{i}"));
        s.set_density(sym(&format!("rho{i}"), 1.0, 100.0));
        m.add_substance(s.wrap());
        m.add_material(Material::new(format!("m{i}"), format!("s{}", (i + 1) % n), sym(&format!("d{i}"), 0.1, 1.0)));
        let mut c = Construction::new(format!("c{i}"));
        c.materials.push(format!("m{i}"));
        m.add_construction(c);
        let mut s = Space::new(format!("a{i}"));
        s.set_volume(sym(&format!("vol{i}"), 1.0, 100.0));
        m.add_space(s);
        let mut b = Building::new(format!("b{i}"));
        b.set_n_storeys(i);
        m.add_building(b);
        let mut e = hvac::ElectricHeater::new(format!("h{i}"));
        e.set_heating_setpoint(sym(&format!("set{i}"), 10.0, 30.0));
        m.add_hvac(e.wrap()).unwrap();
        let mut l = Luminaire::new(format!("l{i}"));
        l.set_max_power(sym(&format!("p{i}"), 1.0, 30.0));
        m.add_luminaire(l).unwrap();
    }
    let mut cool = hvac::IdealHeaterCooler::new("h3".to_string());
    let (lo, hi) = (sym("lo", 10.0, 20.0), sym("hi", 20.0, 30.0));
    cool.set_heating_setpoint(lo).set_cooling_setpoint(hi);
    m.add_hvac(cool.wrap()).unwrap();
    for i in 0..n {
        let s = m.get_material_substance(format!("m{i}")).unwrap();
        check(s.name() == &format!("s{}", (i + 1) % n), "substance of the material");
        check(m.get_substance(format!("s{i}")).unwrap().name() == &format!("s{i}"), "substance found by name");
        close(m.get_material(format!("m{i}")).unwrap().thickness, m.materials[i].thickness, 0.0, "material found by name");
        check(m.get_construction(format!("c{i}")).unwrap().materials == vec![format!("m{i}")], "construction found by name");
        close(*m.get_space(format!("a{i}")).unwrap().volume().unwrap(), *m.spaces[i].volume().unwrap(), 0.0, "space found by name");
        check(*m.get_building(format!("b{i}")).unwrap().n_storeys().unwrap() == i, "building found by name");
        close(*m.get_luminaire(format!("l{i}")).unwrap().max_power().unwrap(), *m.luminaires[i].max_power().unwrap(), 0.0, "luminaire found by name");
        check(m.get_hvac(format!("h{i}")).unwrap().name() == &format!("h{i}"), "hvac found by name");
    }
    check(m.get_space("none".to_string()).is_err() && m.get_material("none".to_string()).is_err() && m.get_hvac("none".to_string()).is_err() && m.get_building("none".to_string()).is_err(), "unknown names are errors");
    check(m.get_construction("none".to_string()).is_err() && m.get_substance("none".to_string()).is_err() && m.get_luminaire("none".to_string()).is_err() && m.get_surface("none".to_string()).is_err() && m.get_fenestration("none".to_string()).is_err(), "unknown names are errors");
    let sp = m.get_hvac_setpoints();
    check(sp.len() == 4, "a setpoint per machine");
    for i in 0..n {
        let s = sp.get(&format!("h{i}")).unwrap();
        if let hvac::HVAC::ElectricHeater(h) = &m.hvacs[i] {
            close(s[0].unwrap(), *h.heating_setpoint().unwrap(), 0.0, "heating setpoint");
        }
        check(s[1].is_none(), "heaters do not cool");
    }
    let s = sp.get("h3").unwrap();
    close(s[0].unwrap(), lo, 0.0, "heating setpoint");
    close(s[1].unwrap(), hi, 0.0, "cooling setpoint");
    // each machine has its place in the state
    let st = m.take_state().unwrap();
    check(st.len() == 2 * n + 1 && st.n_operational() == 2 * n + 1, "an element per machine");
    check(st[0] == SimulationStateElement::HeatingCoolingPowerConsumption(0) && st[2 * n] == SimulationStateElement::HeatingCoolingPowerConsumption(n), "elements of the state");
    for i in 0..n {
        check(m.luminaires[i].power_consumption_index() == Some(2 * i + 1), "place in the state");
        check(st[2 * i + 1] == SimulationStateElement::LuminairePowerConsumption(i), "elements of the state");
        check(st[2 * i] == SimulationStateElement::HeatingCoolingPowerConsumption(i), "elements of the state");
        if let hvac::HVAC::ElectricHeater(h) = &m.hvacs[i] {
            check(h.heating_cooling_consumption_index() == Some(2 * i), "place in the state");
        }
    }
    if let hvac::HVAC::IdealHeaterCooler(h) = &m.hvacs[n] {
        check(h.heating_cooling_consumption_index() == Some(2 * n), "place in the state");
    }
}
/// floors are counted for the space above them
fn floor_areas() {
    let mut m = walled(0, 1);
    m.add_space(Space::new("b".to_string()));
    let kinds = [SurfaceType::GroundFloor, SurfaceType::InteriorFloor, SurfaceType::ExteriorFloor, SurfaceType::Ceiling, SurfaceType::Roof, SurfaceType::ExteriorWall];
    let mut exp = [0.0, 0.0];
    for i in 0..2 {
        let (w, h) = (sym(&format!("w{i}"), 0.5, 10.0), sym(&format!("h{i}"), 0.5, 10.0));
        let up = choose(&format!("up{i}"), 2) == 1;
        let k = choose(&format!("kind{i}"), 6);
        let front = choose(&format!("front{i}"), 3);
        let z = i as f64 * 3.0;
        // flat, or a ramp
        let (c, s) = if i == 0 && choose("ramp", 2) == 1 { (0.8, 0.6) } else { (1.0, 0.0) };
        let mut p = vec![(0.0, 0.0), (w, 0.0), (w, h), (0.0, h)];
        if !up {
            p.reverse();
        }
        let mut l = Loop3D::new();
        for (x, y) in p {
            l.push(Point3D::new(x, y * c, z + y * s)).unwrap();
        }
        l.close().unwrap();
        let bd = |j: usize| if j == 2 { Boundary::Ground } else { Boundary::Space { space: ["a", "b"][j].to_string() } };
        // a, b or the ground are above it, and the next one below
        let (above, below) = (front, (front + 1) % 3);
        let (f, b) = if up { (above, below) } else { (below, above) };
        let mut s = Surface::new(format!("f{i}"), Polygon3D::new(l).unwrap(), "c".to_string(), bd(f), bd(b));
        s.set_category(kinds[k].clone());
        m.add_surface(s).unwrap();
        if k < 3 && above < 2 {
            exp[above] += w * h;
        }
    }
    let (total, map) = m.get_space_sizes();
    check(map.len() == 2, "an area per space");
    close(map["a"], exp[0], 1e-6, "floor area of the space above");
    close(map["b"], exp[1], 1e-6, "floor area of the space above");
    close(total, exp[0] + exp[1], 1e-6, "total floor area");
}
fn main() {
    hx::main(vec![
        case("A01", "design", design),
        case("A01", "no_site", no_site),
        case("A01", "spaces", spaces),
        case("A01", "leakage", leakage),
        case("A01", "no_building", no_building),
        case("A02", "wind_modifier", wind_modifier),
        case("A02", "wind_ground", wind_ground),
        case("A02", "orientation", orientation),
        case("A02", "orientation_flat", orientation_flat),
        case("A02", "orientation_up", orientation_up),
        case("A02", "sides", sides),
        case("S01", "push", push_all),
        case("S01", "space_state", space_state),
        case("S01", "surface_state", surface_state),
        case("J01", "io_objects", io_objects),
        case("J01", "io_surfaces", io_surfaces),
        case("J01", "io_window", io_window),
        case("J01", "io_text", io_text),
        case("J01", "io_cut", io_cut),
        case("J02", "window_in_wall", window_in_wall),
        case("J02", "window_in_tilted", window_in_tilted),
        case("J02", "windows_in_walls", windows_in_walls),
        case("J02", "set_boundaries", set_boundaries),
        case("J02", "refused", refused),
        case("J02", "lookup", lookup),
        case("J02", "floor_areas", floor_areas),
    ]);
}
