ID = "W01-infrared"
PROPERTY = "W01"
NEEDS = "A date between two records with different infrared radiation from the sky, in weather data that carry it."
WHAT = "The infrared radiation is interpolated from the wrong end."
EDITS = [("weather/src/current_weather.rs", "                Some(a + x * (b - a))", "                Some(b + x * (a - b))")]
DEPS = ["weather", "calendar"]
MAIN = '''
use calendar::Date;
use weather::{CurrentWeather, Weather, WeatherTrait};
fn main() {
    let r = |hour: f64, ir: f64| CurrentWeather { date: Date { month: 5, day: 5, hour }, horizontal_infrared_radiation_intensity: Some(ir), ..CurrentWeather::default() };
    let w = Weather { data: vec![r(1.0, 100.0), r(2.0, 200.0), r(3.0, 500.0)], location: Default::default() };
    let d = w.get_weather_data(Date { month: 5, day: 5, hour: 2.25 });
    println!("{:?}", d.horizontal_infrared_radiation_intensity);
    if (d.horizontal_infrared_radiation_intensity.unwrap() - 275.0).abs() > 1e-6 {
        std::process::exit(1);
    }
}
'''
