ID = "H05-vent"
PROPERTY = "H05"
NEEDS = "A zone that is ventilated and has, at the same time, infiltration."
WHAT = "The heat capacity flow of the ventilation replaces that of the infiltration instead of adding to it, so the zone tends to a wrong temperature."
EDITS = [("heat/src/heat_model.rs", "                b[i] += rho_vent_inwards * v_vent * cp_vent_inwards;", "                b[i] = b[i].max(rho_vent_inwards * v_vent * cp_vent_inwards);")]
DEPS = ['simple', 'heat', 'calendar']
MAIN = '''
use simple::{MetaOptions, Model, MultiphysicsModel, SimulationModel, SimulationStateElement as E, Space};
use calendar::Date;
struct W;
impl simple::WeatherTrait for W {
    fn get_weather_data(&self, date: Date) -> simple::CurrentWeather {
        simple::CurrentWeather { date, dry_bulb_temperature: 10.0, ..Default::default() }
    }
}
fn main() {
    let mut m = Model::default();
    let mut s = Space::new("room");
    s.set_volume(40.0);
    let s = m.add_space(s);
    let mut h = m.take_state().unwrap();
    let i = h.push(E::SpaceInfiltrationVolume(0), 0.03).unwrap();
    s.set_infiltration_volume_index(i).unwrap();
    let i = h.push(E::SpaceInfiltrationTemperature(0), 0.0).unwrap();
    s.set_infiltration_temperature_index(i).unwrap();
    let i = h.push(E::SpaceVentilationVolume(0), 0.03).unwrap();
    s.set_ventilation_volume_index(i).unwrap();
    let i = h.push(E::SpaceVentilationTemperature(0), 20.0).unwrap();
    s.set_ventilation_temperature_index(i).unwrap();
    let p = heat::heat_model::ThermalModel::new(&MetaOptions::default(), (), &m, &mut h, 1).unwrap();
    let mut st = h.take_values().unwrap();
    s.set_dry_bulb_temperature(&mut st, 30.0).unwrap();
    let mut mem = p.allocate_memory(&st).unwrap();
    for _ in 0..50 {
        p.march(Date { month: 1, day: 1, hour: 1.0 }, &W, &m, &mut st, &mut mem).unwrap();
    }
    let t = s.dry_bulb_temperature(&st).unwrap();
    println!("{t}");
    let _ = std::marker::PhantomData::<MultiphysicsModel>;
    // air at 0 and 20 degrees, as much of each: a little less than 10
    if !(8.5..11.5).contains(&t) {
        std::process::exit(1);
    }
}
'''
