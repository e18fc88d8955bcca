ID = "L01-dusk"
PROPERTY = "L01"
NEEDS = "A step without sun after one with sun, in a model with windows that received sun on their back."
WHAT = "The back of windows keeps the irradiance of the last moment of the day during the night."
EDITS = [("light/src/solar_model.rs", '''                if let FenestrationType::Opening = s.category {
                    continue;
                }
                s.set_front_incident_solar_irradiance(state, 0.0)?;
                s.set_back_incident_solar_irradiance(state, 0.0)?;
            }
            return Ok(());''', '''                if let FenestrationType::Opening = s.category {
                    continue;
                }
                s.set_front_incident_solar_irradiance(state, 0.0)?;
                if SolarSurface::boundary_receives_sun(&s.front_boundary) {
                    continue;
                }
                s.set_back_incident_solar_irradiance(state, 0.0)?;
            }
            return Ok(());''')]
DEPS = ["light", "model", "geometry", "communication", "calendar", "weather"]
MAIN = '''
use calendar::Date;
use communication::{MetaOptions, SimulationModel};
use geometry::{Loop3D, Point3D, Polygon3D};
use light::{Float, SolarModel};
use model::*;
use weather::{CurrentWeather, WeatherTrait};
struct W;
impl WeatherTrait for W {
    fn get_weather_data(&self, date: Date) -> CurrentWeather {
        CurrentWeather { date, dry_bulb_temperature: 10.0, horizontal_infrared_radiation_intensity: Some(300.0), ..CurrentWeather::default() }
    }
}
fn main() {
    let mut l = Loop3D::new();
    for (x, z) in [(0., 0.), (2., 0.), (2., 2.), (0., 2.)] {
        l.push(Point3D::new(x, 0.0, z)).unwrap();
    }
    l.close().unwrap();
    let mut m = Model::default();
    m.add_construction(Construction::new("c"));
    let w = Fenestration::new("w", Polygon3D::new(l).unwrap(), "c", FenestrationType::Window, Boundary::Outdoor, Boundary::Outdoor);
    let w = m.add_fenestration(w).unwrap();
    let mut h = m.take_state().unwrap();
    w.add_front_solar_irradiance_state(&mut h, 0).unwrap();
    w.add_back_solar_irradiance_state(&mut h, 0).unwrap();
    w.add_front_ir_irradiance_state(&mut h, 0).unwrap();
    w.add_back_ir_irradiance_state(&mut h, 0).unwrap();
    w.add_node_temperature_states(&mut h, 0, 3).unwrap();
    let vf = "{\\"sky\\":0.5,\\"ground\\":0.5,\\"air\\":0.0}";
    let dc0 = "{\\"nrows\\":0,\\"ncols\\":0,\\"data\\":[]}";
    let n = 146;
    let z = vec!["0.0"; n].join(",");
    let dc = format!("{{\\"nrows\\":1,\\"ncols\\":{n},\\"data\\":[{z}]}}");
    let text = format!("{{\\"front_surfaces_view_factors\\":[],\\"back_surfaces_view_factors\\":[],\\"front_fenestrations_view_factors\\":[{vf}],\\"back_fenestrations_view_factors\\":[{vf}],\\"front_surfaces_dc\\":{dc0},\\"back_surfaces_dc\\":{dc0},\\"front_fenestrations_dc\\":{dc},\\"back_fenestrations_dc\\":{dc}}}");
    let f = std::env::temp_dir().join(format!("demo-l01-{}.json", std::process::id()));
    std::fs::write(&f, text).unwrap();
    let mut op = SolarOptions::new();
    op.set_optical_data_path(f.to_str().unwrap().to_string());
    let a = SolarModel::new(&MetaOptions::default(), op, &m, &mut h, 1);
    std::fs::remove_file(&f).unwrap();
    let a = a.unwrap();
    let mut st = h.take_values().unwrap();
    w.set_front_incident_solar_irradiance(&mut st, 100.0 as Float).unwrap();
    w.set_back_incident_solar_irradiance(&mut st, 100.0 as Float).unwrap();
    let mut mem = a.allocate_memory(&st).unwrap();
    a.march(Date { month: 1, day: 1, hour: 1.0 }, &W, &m, &mut st, &mut mem).unwrap();
    let got = (w.front_incident_solar_irradiance(&st).unwrap(), w.back_incident_solar_irradiance(&st).unwrap());
    println!("{got:?}");
    if got != (0.0, 0.0) {
        std::process::exit(1);
    }
}
'''
