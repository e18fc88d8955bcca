ID = "O01-cooleroff"
PROPERTY = "O01"
NEEDS = "An ideal heater and cooler that has a cooling power and set point but no heating ones, in a room that was too hot and then got cooler than the cooling set point."
WHAT = "The device keeps cooling for ever: it is never switched off."
EDITS = [("src/occupant_behaviour.rs", "                        let mut has_heating = false;\n", "                        let mut has_heating = hvac.max_cooling_power().is_ok();\n")]
DEPS = ["simple"]
MAIN = '''
use simple::control_trait::SimpleControl;
use simple::{MetaOptions, Model, MultiphysicsModel, OccupantBehaviour, SimulationModel, Space, HVAC};
fn main() {
    let mut model = Model::default();
    let mut space = Space::new("room");
    space.set_volume(100.0);
    let space = model.add_space(space);
    let mut d = simple::hvac::IdealHeaterCooler::new("cooler".to_string());
    d.set_cooling_setpoint(25.0).set_target_space("room").set_max_cooling_power(1000.0);
    let hvac = model.add_hvac(d.wrap()).unwrap();
    let mut header = model.take_state().unwrap();
    let physics = MultiphysicsModel::new(&MetaOptions::default(), (), &model, &mut header, 1).unwrap();
    let mut state = header.take_values().unwrap();
    let c = OccupantBehaviour::new(&model).unwrap();
    let mut got = vec![];
    for t in [26.0, 24.0] {
        space.set_dry_bulb_temperature(&mut state, t).unwrap();
        c.control(&model, &physics, &mut state).unwrap();
        if let HVAC::IdealHeaterCooler(h) = &hvac {
            got.push(h.heating_cooling_consumption(&state).unwrap());
        }
    }
    println!("{got:?}");
    if got != vec![-1000.0, 0.0] {
        std::process::exit(1);
    }
}
'''
