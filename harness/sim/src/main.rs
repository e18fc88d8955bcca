use calendar::Date;
use communication::{MetaOptions, SimulationModel};
use geometry::{Loop3D, Point3D, Polygon3D};
use hx::*;
use model::hvac::{ElectricHeater, IdealHeaterCooler};
use model::*;
use simple::control_trait::SimpleControl;
use simple::run_simulation::{run, run_rhai, SimOptions};
use simple::{MultiphysicsModel, OccupantBehaviour, RhaiControlScript, VoidControl};
use std::sync::Arc;
use weather::{CurrentWeather, Location, Weather};

fn rect(x0: Float) -> Polygon3D {
    let mut l = Loop3D::new();
    for (x, z) in [(x0, 0.0), (x0 + 2.0, 0.0), (x0 + 2.0, 2.0), (x0, 2.0)] {
        l.push(Point3D::new(x, 0.0, z)).unwrap();
    }
    l.close().unwrap();
    Polygon3D::new(l).unwrap()
}
/// physics that controllers do not use
fn no_physics() -> MultiphysicsModel {
    MultiphysicsModel::new(&MetaOptions::default(), (), &Model::default(), &mut SimulationStateHeader::new(), 1).unwrap()
}

/* ---------- O01: thermostats ---------- */

struct Device {
    ideal: bool,
    /// 0: in no room
    room: usize,
    heat_t: Option<Float>,
    heat_p: Option<Float>,
    cool_t: Option<Float>,
    cool_p: Option<Float>,
}
/// `heat` and `cool` tell which settings exist: 0 all, 1 none, 2 only the temperature, 3 only the power
fn device(i: usize, ideal: bool, room: usize, heat: usize, cool: usize) -> Device {
    let t0 = sym(&format!("heat_t{i}"), -10.0, 40.0);
    let t1 = sym(&format!("cool_t{i}"), -10.0, 40.0);
    assume_le(t0, t1);
    let p0 = sym(&format!("heat_p{i}"), 0.0, 5000.0);
    let p1 = sym(&format!("cool_p{i}"), 0.0, 5000.0);
    Device {
        ideal,
        room,
        heat_t: if heat == 0 || heat == 2 { Some(t0) } else { None },
        heat_p: if heat == 0 || heat == 3 { Some(p0) } else { None },
        cool_t: if ideal && (cool == 0 || cool == 2) { Some(t1) } else { None },
        cool_p: if ideal && (cool == 0 || cool == 3) { Some(p1) } else { None },
    }
}
fn add(m: &mut Model, i: usize, d: &Device) {
    let name = format!("d{i}");
    if d.ideal {
        let mut x = IdealHeaterCooler::new(name);
        if d.room > 0 {
            x.set_target_space(format!("r{}", d.room));
        }
        if let Some(v) = d.heat_t {
            x.set_heating_setpoint(v);
        }
        if let Some(v) = d.heat_p {
            x.set_max_heating_power(v);
        }
        if let Some(v) = d.cool_t {
            x.set_cooling_setpoint(v);
        }
        if let Some(v) = d.cool_p {
            x.set_max_cooling_power(v);
        }
        m.add_hvac(x.wrap()).unwrap();
    } else {
        let mut x = ElectricHeater::new(name);
        if d.room > 0 {
            x.set_target_space(format!("r{}", d.room));
        }
        if let Some(v) = d.heat_t {
            x.set_heating_setpoint(v);
        }
        if let Some(v) = d.heat_p {
            x.set_max_heating_power(v);
        }
        m.add_hvac(x.wrap()).unwrap();
    }
}
/// what the thermostat of that device does at `t`
fn thermostat(d: &Device, t: Float, before: Float) -> Float {
    let heats = d.heat_t.is_some() && d.heat_p.is_some();
    let cools = d.cool_t.is_some() && d.cool_p.is_some();
    if d.room == 0 || (!heats && !cools) {
        return before;
    }
    if heats && t < d.heat_t.unwrap() {
        return d.heat_p.unwrap();
    }
    if cools && t > d.cool_t.unwrap() {
        return -d.cool_p.unwrap();
    }
    0.0
}
fn control(devices: &[Device], steps: usize) {
    let mut m = Model::default();
    for i in 0..3 {
        m.add_space(Space::new(format!("r{i}")));
    }
    for (i, d) in devices.iter().enumerate() {
        add(&mut m, i, d);
    }
    let mut lamp = Luminaire::new("lamp".to_string());
    lamp.set_target_space("r1".to_string());
    m.add_luminaire(lamp).unwrap();
    let mut h = m.take_state().unwrap();
    let mut temp = vec![];
    for (i, s) in m.spaces.iter().enumerate() {
        let k = h.push(SimulationStateElement::SpaceDryBulbTemperature(i), 0.0).unwrap();
        s.set_dry_bulb_temperature_index(k).unwrap();
        temp.push(k);
    }
    let elements = h.elements.clone();
    let mut state = h.take_values().unwrap();
    for (i, v) in state.iter_mut().enumerate() {
        *v = sym(&format!("before{i}"), -50.0, 50.0);
    }
    let who = OccupantBehaviour::new(&m).unwrap();
    let physics = no_physics();
    for step in 0..steps {
        if step > 0 {
            for k in temp.iter() {
                state[*k] = sym(&format!("later{k}"), -50.0, 50.0);
            }
        }
        let before = state.clone();
        who.control(&m, &physics, &mut state).unwrap();
        check(state.len() == before.len(), "the state keeps its size");
        for (i, e) in elements.iter().enumerate() {
            match e {
                SimulationStateElement::HeatingCoolingPowerConsumption(k) => {
                    let d = &devices[*k];
                    close(state[i], thermostat(d, before[temp[d.room]], before[i]), 1e-9, "devices heat below and cool above their set points, in their own room");
                }
                _ => close(state[i], before[i], 0.0, "nothing else changes"),
            }
        }
    }
}
fn one_device() {
    max_paths(10000);
    let ideal = choose("ideal", 2) == 1;
    let room = choose("room", 3);
    let heat = choose("heat", 4);
    let cool = if ideal { choose("cool", 4) } else { 1 };
    control(&[device(0, ideal, room, heat, cool)], 2);
}
fn two_devices() {
    max_paths(10000);
    let mut d = vec![];
    for i in 0..2 {
        let kind = choose(&format!("kind{i}"), 4);
        let room = 1 + choose(&format!("room{i}"), 2);
        d.push(match kind {
            0 => device(i, false, room, 0, 1),
            1 => device(i, true, room, 0, 0),
            2 => device(i, true, room, 0, 1),
            _ => device(i, true, room, 1, 0),
        });
    }
    control(&d, 1);
}
fn three_devices() {
    max_paths(20000);
    let d: Vec<Device> = (0..3)
        .map(|i| {
            let ideal = choose(&format!("ideal{i}"), 2) == 1;
            let room = 1 + choose(&format!("room{i}"), 2);
            device(i, ideal, room, 0, if ideal { 0 } else { 1 })
        })
        .collect();
    control(&d, 1);
}
fn nobody() {
    let mut m = Model::default();
    m.add_space(Space::new("r0".to_string()));
    let mut state = vec![sym("a", -1.0, 1.0), sym("b", -1.0, 1.0)];
    let before = state.clone();
    VoidControl {}.control(&m, &no_physics(), &mut state).unwrap();
    for i in 0..2 {
        close(state[i], before[i], 0.0, "no control changes nothing");
    }
}

/* ---------- O02: control scripts ---------- */

const SPACE: [&str; 7] = ["dry_bulb_temperature", "brightness", "loudness", "infiltration_volume", "infiltration_temperature", "ventilation_volume", "ventilation_temperature"];
const WALL: [&str; 10] = [
    "front_temperature",
    "back_temperature",
    "front_convection_coefficient",
    "back_convection_coefficient",
    "front_convective_heat_flow",
    "back_convective_heat_flow",
    "front_incident_solar_irradiance",
    "back_incident_solar_irradiance",
    "front_ir_irradiance",
    "back_ir_irradiance",
];
/// (object, field) that scripts know, of those kinds
struct Scripted {
    m: Arc<Model>,
    state: SimulationState,
    /// what the script says before the field, by name and by number; the field; and its place
    fields: Vec<(String, String, String, usize)>,
    /// things that are not in the state
    absent: Vec<(String, String)>,
}
/// `skip`: every that-many quantity is not part of the simulation
fn scripted(skip: usize) -> Scripted {
    let mut m = Model::default();
    for n in ["a", "b"] {
        m.add_space(Space::new(format!("space {n}")));
    }
    let mut sub = model::substance::Normal::new("solid".to_string());
    sub.set_thermal_conductivity(1.0);
    m.add_substance(sub.wrap());
    m.add_material(Material::new("m1".to_string(), "solid".to_string(), 0.1));
    let mut c = Construction::new("c".to_string());
    c.materials.push("m1".to_string());
    m.add_construction(c);
    for n in ["a", "b"] {
        m.add_surface(Surface::new(format!("wall {n}"), rect(0.0), "c".to_string(), Boundary::Outdoor, Boundary::Outdoor)).unwrap();
    }
    // operational quantities are added by the model itself
    for n in ["a", "b"] {
        m.add_fenestration(Fenestration::new(format!("window {n}"), rect(50.0), "c".to_string(), FenestrationType::Window, Boundary::Outdoor, Boundary::Outdoor)).unwrap();
    }
    for n in ["a", "b"] {
        m.add_luminaire(Luminaire::new(format!("lamp {n}"))).unwrap();
    }
    m.add_hvac(ElectricHeater::new("heater a".to_string()).wrap()).unwrap();
    m.add_hvac(IdealHeaterCooler::new("ideal b".to_string()).wrap()).unwrap();
    m.add_hvac(ElectricHeater::new("heater c".to_string()).wrap()).unwrap();
    let mut h = m.take_state().unwrap();
    let mut fields = vec![];
    let mut absent = vec![];
    for (i, e) in h.elements.clone().iter().enumerate() {
        let (kind, n, name, f) = match e {
            SimulationStateElement::FenestrationOpenFraction(k) => ("fenestration", *k, ["window a", "window b"][*k], "open_fraction"),
            SimulationStateElement::LuminairePowerConsumption(k) => ("luminaire", *k, ["lamp a", "lamp b"][*k], "power_consumption"),
            SimulationStateElement::HeatingCoolingPowerConsumption(k) => ("hvac", *k, ["heater a", "ideal b", "heater c"][*k], "power_consumption"),
            _ => continue,
        };
        fields.push((format!("{kind}(\"{name}\")"), format!("{kind}({n})"), f.to_string(), i));
    }
    let mut count = 0;
    let mut push = |o: String, k: String, f: &str, h: &mut SimulationStateHeader, e: SimulationStateElement, absent: &mut Vec<(String, String)>| {
        count += 1;
        if skip > 0 && count % skip == 0 {
            absent.push((o, f.to_string()));
            return None;
        }
        let i = h.push(e, 0.0).unwrap();
        fields.push((o, k, f.to_string(), i));
        Some(i)
    };
    use SimulationStateElement::*;
    for (i, s) in m.spaces.iter().enumerate() {
        let (o, k) = (format!("space(\"{}\")", s.name()), format!("space({i})"));
        for f in SPACE {
            // the state has no elements of its own for loudness and brightness
            let e = match f {
                "infiltration_volume" => SpaceInfiltrationVolume(i),
                "infiltration_temperature" => SpaceInfiltrationTemperature(i),
                "ventilation_volume" => SpaceVentilationVolume(i),
                "ventilation_temperature" => SpaceVentilationTemperature(i),
                _ => SpaceDryBulbTemperature(i),
            };
            if let Some(p) = push(o.clone(), k.clone(), f, &mut h, e, &mut absent) {
                match f {
                    "dry_bulb_temperature" => s.set_dry_bulb_temperature_index(p),
                    "brightness" => s.set_brightness_index(p),
                    "loudness" => s.set_loudness_index(p),
                    "infiltration_volume" => s.set_infiltration_volume_index(p),
                    "infiltration_temperature" => s.set_infiltration_temperature_index(p),
                    "ventilation_volume" => s.set_ventilation_volume_index(p),
                    _ => s.set_ventilation_temperature_index(p),
                }
                .unwrap();
            }
        }
    }
    for (i, s) in m.surfaces.iter().enumerate() {
        let (o, k) = (format!("surface(\"{}\")", s.name()), format!("surface({i})"));
        for f in WALL {
            let e = match f {
                "front_temperature" => SurfaceNodeTemperature(i, 0),
                "back_temperature" => SurfaceNodeTemperature(i, 1),
                "front_convection_coefficient" => SurfaceFrontConvectionCoefficient(i),
                "back_convection_coefficient" => SurfaceBackConvectionCoefficient(i),
                "front_convective_heat_flow" => SurfaceFrontConvectiveHeatFlow(i),
                "back_convective_heat_flow" => SurfaceBackConvectiveHeatFlow(i),
                "front_incident_solar_irradiance" => SurfaceFrontSolarIrradiance(i),
                "back_incident_solar_irradiance" => SurfaceBackSolarIrradiance(i),
                "front_ir_irradiance" => SurfaceFrontIRIrradiance(i),
                _ => SurfaceBackIRIrradiance(i),
            };
            if let Some(p) = push(o.clone(), k.clone(), f, &mut h, e, &mut absent) {
                match f {
                    "front_temperature" => s.set_first_node_temperature_index(p),
                    "back_temperature" => s.set_last_node_temperature_index(p),
                    "front_convection_coefficient" => s.set_front_convection_coefficient_index(p),
                    "back_convection_coefficient" => s.set_back_convection_coefficient_index(p),
                    "front_convective_heat_flow" => s.set_front_convective_heat_flow_index(p),
                    "back_convective_heat_flow" => s.set_back_convective_heat_flow_index(p),
                    "front_incident_solar_irradiance" => s.set_front_incident_solar_irradiance_index(p),
                    "back_incident_solar_irradiance" => s.set_back_incident_solar_irradiance_index(p),
                    "front_ir_irradiance" => s.set_front_ir_irradiance_index(p),
                    _ => s.set_back_ir_irradiance_index(p),
                }
                .unwrap();
            }
        }
    }
    for (i, s) in m.fenestrations.iter().enumerate() {
        let (o, k) = (format!("fenestration(\"{}\")", s.name()), format!("fenestration({i})"));
        for f in WALL {
            let e = match f {
                "front_temperature" => FenestrationNodeTemperature(i, 0),
                "back_temperature" => FenestrationNodeTemperature(i, 1),
                "front_convection_coefficient" => FenestrationFrontConvectionCoefficient(i),
                "back_convection_coefficient" => FenestrationBackConvectionCoefficient(i),
                "front_convective_heat_flow" => FenestrationFrontConvectiveHeatFlow(i),
                "back_convective_heat_flow" => FenestrationBackConvectiveHeatFlow(i),
                "front_incident_solar_irradiance" => FenestrationFrontSolarIrradiance(i),
                "back_incident_solar_irradiance" => FenestrationBackSolarIrradiance(i),
                "front_ir_irradiance" => FenestrationFrontIRIrradiance(i),
                _ => FenestrationBackIRIrradiance(i),
            };
            if let Some(p) = push(o.clone(), k.clone(), f, &mut h, e, &mut absent) {
                match f {
                    "front_temperature" => s.set_first_node_temperature_index(p),
                    "back_temperature" => s.set_last_node_temperature_index(p),
                    "front_convection_coefficient" => s.set_front_convection_coefficient_index(p),
                    "back_convection_coefficient" => s.set_back_convection_coefficient_index(p),
                    "front_convective_heat_flow" => s.set_front_convective_heat_flow_index(p),
                    "back_convective_heat_flow" => s.set_back_convective_heat_flow_index(p),
                    "front_incident_solar_irradiance" => s.set_front_incident_solar_irradiance_index(p),
                    "back_incident_solar_irradiance" => s.set_back_incident_solar_irradiance_index(p),
                    "front_ir_irradiance" => s.set_front_ir_irradiance_index(p),
                    _ => s.set_back_ir_irradiance_index(p),
                }
                .unwrap();
            }
        }
    }
    let mut state = h.take_values().unwrap();
    for (i, v) in state.iter_mut().enumerate() {
        *v = sym(&format!("x{i}"), -100.0, 100.0);
    }
    Scripted { m: Arc::new(m), state, fields, absent }
}
fn play(s: &Scripted, script: &str) -> (Result<(), String>, SimulationState) {
    let (c, state) = RhaiControlScript::new(&s.m, s.state.clone(), script, choose("research", 2) == 1).unwrap();
    let r = c.control();
    let state = state.lock().unwrap().clone();
    (r, state)
}
fn changed(s: &Scripted, after: &SimulationState, what: &[(usize, Float)]) {
    check(after.len() == s.state.len(), "the state keeps its size");
    for (i, v) in after.iter().enumerate() {
        match what.iter().find(|x| x.0 == i) {
            Some((_, e)) => close(*v, *e, 0.0, "what the script assigns is what the quantity is worth"),
            None => close(*v, s.state[i], 0.0, "a script changes only what it assigns"),
        }
    }
}
fn copy_value() {
    max_paths(10000);
    let s = scripted(0);
    let n = s.fields.len();
    let a = choose("to", n);
    // far or near, in the same object or another one
    let b = (a + [1, 5, 7, 10, 23][choose("from", 5)]) % n;
    let (x, y) = (&s.fields[a], &s.fields[b]);
    let script = match choose("how", 3) {
        0 => format!("let to = {};\nto.{} = {}.{};", x.0, x.2, y.0, y.2),
        1 => format!("let to = {};\nlet from = {};\nto.{} = from.{};", x.1, y.1, x.2, y.2),
        _ => format!("let to = {2};\nlet from = {0};\nlet kept = from.{1};\nfrom.{1} = 3;\nto.{3} = kept;", y.0, y.2, x.1, x.2),
    };
    let three = script.contains("= 3;");
    let (r, after) = play(&s, &script);
    check(r.is_ok(), "scripts read and write every quantity of the simulation");
    if three {
        changed(&s, &after, &[(x.3, s.state[y.3]), (y.3, 3.0)]);
    } else {
        changed(&s, &after, &[(x.3, s.state[y.3])]);
    }
}
fn whole_number() {
    let s = scripted(0);
    let a = choose("to", s.fields.len());
    let x = &s.fields[a];
    let v = [0, 1, -7, 2000][choose("value", 4)];
    let o = if choose("by", 2) == 0 { &x.0 } else { &x.1 };
    let (r, after) = play(&s, &format!("let o = {o};\no.{} = {v};", x.2));
    check(r.is_ok(), "scripts assign whole numbers");
    changed(&s, &after, &[(x.3, v as Float)]);
}
fn swap() {
    let s = scripted(0);
    let n = s.fields.len();
    let a = choose("a", n);
    let b = (a + n / 2) % n;
    let (x, y) = (&s.fields[a], &s.fields[b]);
    let (r, after) = play(&s, &format!("let x = {0};\nlet y = {2};\nlet t = x.{1};\nx.{1} = y.{3};\ny.{3} = t;", x.0, x.2, y.1, y.2));
    check(r.is_ok(), "scripts keep values");
    changed(&s, &after, &[(x.3, s.state[y.3]), (y.3, s.state[x.3])]);
}
/// a script that is run at every step sees what is there then
fn again() {
    let s = scripted(0);
    let n = s.fields.len();
    let a = choose("a", n);
    let b = (a + 3) % n;
    let (x, y) = (&s.fields[a], &s.fields[b]);
    let (c, state) = RhaiControlScript::new(&s.m, s.state.clone(), format!("let x = {};\nx.{} = {}.{};", x.0, x.2, y.1, y.2), false).unwrap();
    c.control().unwrap();
    let v = sym("v", -100.0, 100.0);
    state.lock().unwrap()[y.3] = v;
    c.control().unwrap();
    changed(&s, &state.lock().unwrap(), &[(x.3, v), (y.3, v)]);
}
fn mistakes() {
    let s = scripted(0);
    let kinds = [("space", "dry_bulb_temperature", 2), ("surface", "front_temperature", 2), ("fenestration", "open_fraction", 2), ("luminaire", "power_consumption", 2), ("hvac", "power_consumption", 3)];
    let (k, f, n) = kinds[choose("kind", 5)];
    let script = match choose("mistake", 8) {
        0 => format!("let x = {k}(\"nobody\");\nx.{f} = 3;"),
        1 => format!("let x = {k}({n});\nx.{f} = 3;"),
        2 => format!("let x = {k}(-1);\nx.{f} = 3;"),
        3 => format!("let x = {k}(0);\nx.nothing = 3;"),
        4 => format!("let x = {k}(\"\").{f};"),
        5 => format!("let x = {k}(0);\nx.{f} = \"three\";"),
        6 => format!("let x = {k}(1000000);\nx.{f} = 3;"),
        _ => format!("let x = {k}(0).nothing;"),
    };
    let (r, after) = play(&s, &script);
    check(r.is_err(), "mistakes are reported");
    changed(&s, &after, &[]);
}
fn absent() {
    let s = scripted(2 + choose("skip", 2));
    let (o, f) = &s.absent[choose("which", s.absent.len())];
    let script = match choose("how", 3) {
        0 => format!("let o = {o};\no.{f} = 3;"),
        1 => format!("let x = {o}.{f};"),
        _ => format!("let o = {o};\no.{f} = {}.{};", s.fields[0].0, s.fields[0].2),
    };
    let (r, after) = play(&s, &script);
    check(r.is_err(), "quantities that are not part of the simulation are refused");
    changed(&s, &after, &[]);
}
fn nothing_there() {
    let m = Arc::new(Model::default());
    let k = ["space", "surface", "fenestration", "luminaire", "hvac"][choose("kind", 5)];
    let i = choose("index", 2);
    let (c, _) = RhaiControlScript::new(&m, vec![], format!("let x = {k}({i});"), false).unwrap();
    check(c.control().is_err(), "there is nothing in an empty building");
}

/* ---------- O03: simulations and their reports ---------- */

const STEPS: [usize; 4] = [1, 2, 4, 5];
fn house() -> (Model, SimulationStateHeader) {
    let mut m = Model::default();
    for i in 0..2 {
        let mut s = Space::new(format!("room {i}"));
        s.set_volume(30.0 + 10.0 * i as Float);
        s.set_infiltration(Infiltration::Constant { flow: 0.01 + 0.02 * i as Float });
        m.add_space(s);
    }
    let mut d = ElectricHeater::new("heater".to_string());
    d.set_target_space("room 1".to_string());
    d.set_max_heating_power(1000.0);
    d.set_heating_setpoint(20.0);
    m.add_hvac(d.wrap()).unwrap();
    let mut lamp = Luminaire::new("lamp".to_string());
    lamp.set_target_space("room 0".to_string());
    m.add_luminaire(lamp).unwrap();
    let h = m.take_state().unwrap();
    (m, h)
}
/// names that the report gives to the quantities of the house
const KNOWN: [&str; 8] = [
    "{\"HeatingCoolingPowerConsumption\":\"heater\"}",
    "{\"LuminairePowerConsumption\":\"lamp\"}",
    "{\"SpaceDryBulbTemperature\":\"room 0\"}",
    "{\"SpaceDryBulbTemperature\":\"room 1\"}",
    "{\"SpaceInfiltrationVolume\":\"room 0\"}",
    "{\"SpaceInfiltrationTemperature\":\"room 0\"}",
    "{\"SpaceInfiltrationVolume\":\"room 1\"}",
    "{\"SpaceInfiltrationTemperature\":\"room 1\"}",
];
fn value(m: &Model, state: &SimulationState, k: usize) -> Float {
    match k {
        0 => match &m.hvacs[0] {
            HVAC::ElectricHeater(h) => h.heating_cooling_consumption(state).unwrap(),
            _ => panic!("the heater is electric"),
        },
        1 => m.luminaires[0].power_consumption(state).unwrap(),
        2 => m.spaces[0].dry_bulb_temperature(state).unwrap(),
        3 => m.spaces[1].dry_bulb_temperature(state).unwrap(),
        4 => m.spaces[0].infiltration_volume(state).unwrap(),
        5 => m.spaces[0].infiltration_temperature(state).unwrap(),
        6 => m.spaces[1].infiltration_volume(state).unwrap(),
        _ => m.spaces[1].infiltration_temperature(state).unwrap(),
    }
}
fn climate(start: usize, records: usize, symbolic: bool) -> (Weather, Date) {
    let first = [Date { month: 3, day: 9, hour: 1.0 }, Date { month: 1, day: 31, hour: 22.0 }, Date { month: 12, day: 31, hour: 22.0 }][start];
    let mut data = vec![];
    let mut date = first;
    for i in 0..records {
        let t = if symbolic { sym(&format!("t_out{i}"), -10.0, 40.0) } else { 10.0 };
        data.push(CurrentWeather { date, dry_bulb_temperature: t, dew_point_temperature: 4.0, wind_speed: 2.0, pressure: 101300.0, opaque_sky_cover: 0.5, ..CurrentWeather::default() });
        date.add_hours(1.0);
    }
    let location = Location { city: "here".to_string(), latitude: -0.7, longitude: 3.0, timezone: 12, elevation: 5.0, ..Location::default() };
    (Weather { data, location }, first)
}
fn temporary(name: &str, content: &str) -> String {
    let f = std::env::temp_dir().join(format!("hx-sim-{}-{:?}-{name}", std::process::id(), std::thread::current().id()));
    let f = f.to_str().unwrap().to_string();
    std::fs::write(&f, content).unwrap();
    f
}
/// sets the power of the heater and of the lamp from what it finds
struct Somebody {
    power: Vec<Float>,
    step: std::cell::Cell<usize>,
}
fn operate(m: &Model, state: &mut SimulationState, power: Float) -> Result<(), String> {
    let t = m.spaces[0].dry_bulb_temperature(state).unwrap();
    match &m.hvacs[0] {
        HVAC::ElectricHeater(h) => h.set_heating_cooling_consumption(state, power)?,
        _ => return Err("no heater".to_string()),
    }
    m.luminaires[0].set_power_consumption(state, t + 1.0)
}
impl SimpleControl for Somebody {
    fn control<M: std::borrow::Borrow<Model>>(&self, model: M, _physics: &MultiphysicsModel, state: &mut SimulationState) -> Result<(), String> {
        let k = self.step.get();
        self.step.set(k + 1);
        operate(model.borrow(), state, self.power[k])
    }
}
/// (requested outputs, what must be reported)
fn outputs(k: usize) -> (Vec<Output>, Option<Vec<usize>>) {
    let t = |i: usize| Output::SpaceDryBulbTemperature(format!("room {i}"));
    let p = Output::HeatingCoolingPowerConsumption("heater".to_string());
    match k {
        0 => (vec![], None),
        1 => (vec![t(1)], Some(vec![3])),
        2 => (vec![t(1), p, t(0)], Some(vec![3, 0, 2])),
        // rooms that do not exist are left out
        3 => (vec![t(0), Output::SpaceDryBulbTemperature("attic".to_string())], Some(vec![2])),
        4 => (vec![Output::SpaceDryBulbTemperature("attic".to_string()), Output::LuminairePowerConsumption("lamp".to_string()), t(0)], Some(vec![1, 2])),
        // ... and without anything to report, everything is
        _ => (vec![Output::SpaceDryBulbTemperature("attic".to_string())], None),
    }
}
/// every line of a report, split
fn lines(out: &[u8]) -> Vec<Vec<String>> {
    let s = String::from_utf8(out.to_vec()).unwrap();
    check(s.ends_with('\n'), "the report ends with its last line");
    s.lines().map(|l| l.split(',').map(|x| x.to_string()).collect()).collect()
}
fn two(x: u8) -> String {
    format!("{}{}", x / 10, x % 10)
}
fn report_of(script: bool) {
    drop_div_zero();
    let n = STEPS[choose("steps", 4)];
    let records = 3;
    let (mut weather, first) = climate(choose("start", 3), records, true);
    let file = temporary("w.sw", &serde_json::to_string(&weather).unwrap());
    let (wanted, expected) = outputs(choose("outputs", 6));
    let (mut m, mut h) = house();
    m.outputs = wanted;
    let steps = (records - 1) * n - 1;
    let power: Vec<Float> = (0..steps).map(|i| sym(&format!("power{i}"), 0.0, 2000.0)).collect();
    let options = SimOptions { n, weather_file: Some(file.clone()), ..SimOptions::default() };
    let mut out: Vec<u8> = vec![];
    let r = if script {
        let control = temporary("c.rhai", "let h = hvac(0);\nh.power_consumption = space(0).dry_bulb_temperature;\nlet l = luminaire(0);\nl.power_consumption = space(1).dry_bulb_temperature;");
        let r = run_rhai(m, &mut h, &options, &control, &mut out);
        std::fs::remove_file(&control).unwrap();
        r
    } else {
        run(&m, &mut h, &options, &mut out, Somebody { power: power.clone(), step: std::cell::Cell::new(0) })
    };
    std::fs::remove_file(&file).unwrap();
    check(r.is_ok(), "the simulation runs");
    let all = lines(&out);
    check(all[0][0] == "Date", "the first column is the date");
    let columns: Vec<usize> = all[0][1..]
        .iter()
        .map(|c| match KNOWN.iter().position(|k| k == c) {
            Some(k) => k,
            None => {
                check(false, "every column is a quantity of the building");
                0
            }
        })
        .collect();
    match &expected {
        Some(e) => check(&columns == e, "the quantities that were asked for are reported in that order"),
        None => {
            let mut c = columns.clone();
            c.sort();
            check(c == (0..KNOWN.len()).collect::<Vec<usize>>(), "every quantity is reported once");
        }
    }
    // the same, step by step
    weather.sort_data();
    let (m, mut h) = house();
    let meta = MetaOptions { latitude: weather.location.latitude, longitude: weather.location.longitude, standard_meridian: (180.0 as Float).to_radians(), elevation: weather.location.elevation };
    let physics = MultiphysicsModel::new(&meta, (), &m, &mut h, n).unwrap();
    let mut state = h.take_values().unwrap();
    let mut memory = physics.allocate_memory(&state).unwrap();
    check(all.len() == 1 + steps, "one line for each time step");
    let mut date = first;
    for k in 0..steps {
        date.add_seconds(3600.0 / n as Float);
        let minute = ((k + 1) * 60 / n) % 60;
        let hour = (first.hour.to_string().parse::<usize>().unwrap() + (k + 1) / n) % 24;
        if script {
            let (a, b) = (value(&m, &state, 2), value(&m, &state, 3));
            match &m.hvacs[0] {
                HVAC::ElectricHeater(h) => h.set_heating_cooling_consumption(&mut state, a).unwrap(),
                _ => {}
            }
            m.luminaires[0].set_power_consumption(&mut state, b).unwrap();
        } else {
            operate(&m, &mut state, power[k]).unwrap();
        }
        physics.march(date, &weather, &m, &mut state, &mut memory).unwrap();
        let l = &all[k + 1];
        check(l[0] == format!("{}/{} - {}:{}", two(date.month), two(date.day), hour, two(minute as u8)), "each line tells its date");
        check(l.len() == all[0].len(), "every line has a value per column");
        for (i, c) in columns.iter().enumerate() {
            match l[i + 1].parse::<Float>() {
                Ok(v) => close(v, value(&m, &state, *c), 6e-4, "the report tells the state after controlling and simulating that step"),
                Err(_) => check(false, "values are numbers"),
            }
        }
    }
}
fn report() {
    report_of(false)
}
fn report_script() {
    report_of(true)
}
fn limits() {
    // 0: no steps; 1: no more than 60 steps per hour; 2: no weather; 3: unknown format; 4: no such file
    let k = choose("kind", 5);
    let (weather, _) = climate(0, 2, false);
    let name = if k == 3 { "w.txt" } else { "w.sw" };
    let file = temporary(name, &serde_json::to_string(&weather).unwrap());
    let (mut m, mut h) = house();
    m.outputs = outputs(1).0;
    let options = SimOptions {
        n: [0, 61 + 39 * choose("n", 2), 1, 1, 1][k],
        weather_file: match k {
            2 => None,
            4 => Some(format!("{file}.missing.sw")),
            _ => Some(file.clone()),
        },
        ..SimOptions::default()
    };
    let mut out: Vec<u8> = vec![];
    let r = run(&m, &mut h, &options, &mut out, VoidControl {});
    std::fs::remove_file(&file).unwrap();
    if k == 1 {
        check(r.is_ok(), "too many steps are limited");
        let all = lines(&out);
        let minutes: Vec<usize> = all[1..].iter().map(|l| l[0].rsplit(':').next().unwrap().parse().unwrap()).collect();
        check(minutes.len() >= 50 && minutes.iter().enumerate().all(|(i, m)| *m == i + 1), "there are at most 60 steps per hour");
    } else {
        check(r.is_err(), "mistakes in the options are reported");
        check(out.is_empty(), "and nothing is written");
    }
}
fn modules_in_turn() {
    drop_div_zero();
    let n = STEPS[choose("steps", 4)];
    let (weather, first) = climate(0, 3, true);
    let meta = MetaOptions { latitude: -0.7, longitude: 3.0, standard_meridian: (180.0 as Float).to_radians(), elevation: 5.0 };
    let (m, mut h) = house();
    let physics = MultiphysicsModel::new(&meta, (), &m, &mut h, n).unwrap();
    close(physics.dt, 3600.0 / n as Float, 1e-9, "the time step divides the hour");
    check(physics.dt_subdivisions == n, "steps per hour");
    let mut a = h.take_values().unwrap();
    let mut memory = physics.allocate_memory(&a).unwrap();
    let (m2, mut h2) = house();
    let heat = heat::heat_model::ThermalModel::new(&meta, (), &m2, &mut h2, n).unwrap();
    let air = air::air_model::AirFlowModel::new(&meta, (), &m2, &mut h2, n).unwrap();
    let mut b = h2.take_values().unwrap();
    let mut mh = heat.allocate_memory(&b).unwrap();
    #[allow(clippy::let_unit_value)]
    let mut ma = air.allocate_memory(&b).unwrap();
    let mut date = first;
    for k in 0..2 {
        let p = sym(&format!("power{k}"), 0.0, 2000.0);
        operate(&m, &mut a, p).unwrap();
        operate(&m2, &mut b, p).unwrap();
        physics.march(date, &weather, &m, &mut a, &mut memory).unwrap();
        air.march(date, &weather, &m2, &mut b, &mut ma).unwrap();
        heat.march(date, &weather, &m2, &mut b, &mut mh).unwrap();
        for i in 0..KNOWN.len() {
            close(value(&m, &a, i), value(&m2, &b, i), 1e-9, "a step of the building is a step of the air and then one of the heat");
        }
        date.add_seconds(3600.0 / n as Float);
    }
}

fn main() {
    hx::main(vec![
        case("O01", "one_device", one_device),
        case("O01", "two_devices", two_devices),
        deep("O01", "three_devices", three_devices),
        case("O01", "nobody", nobody),
        case("O02", "copy_value", copy_value),
        case("O02", "whole_number", whole_number),
        case("O02", "swap", swap),
        case("O02", "again", again),
        case("O02", "mistakes", mistakes),
        case("O02", "absent", absent),
        case("O02", "nothing_there", nothing_there),
        case("O03", "report", report),
        case("O03", "report_script", report_script),
        case("O03", "limits", limits),
        case("O03", "modules_in_turn", modules_in_turn),
    ]);
}
