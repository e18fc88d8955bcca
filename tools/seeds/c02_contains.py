ID = "C02-jan"
PROPERTY = "C02"
NEEDS = "A period that goes through the New Year and a date asked for after the New Year, in the last hour(s) of its last day."
WHAT = "A period that goes through the New Year no longer contains the dates of its last day that come before its end."
EDITS = [("calendar/src/period.rs", "date <= self.end || date >= self.start", "(date <= self.end && !date.same_day(self.end)) || date == self.end || date >= self.start")]
DEPS = ["calendar"]
MAIN = '''
use calendar::{Date, Period};
fn main() {
    let p = Period::new(Date { month: 12, day: 2, hour: 1. }, Date { month: 1, day: 3, hour: 12. }, 3600.);
    if !p.contains(Date { month: 1, day: 3, hour: 11. }) {
        println!("3 January at 11:00 left out");
        std::process::exit(1);
    }
}
'''
