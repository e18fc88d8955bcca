ID = "C01-midnight"
PROPERTY = "C01"
NEEDS = "Advancing a date by an amount that lands exactly at midnight, without being a whole number of days."
WHAT = "The date lands on hour 24 of the day, which does not exist, rather than on hour 0 of the next one."
EDITS = [("calendar/src/date.rs", "        if self.hour >= 24. {", "        if self.hour > 24. {")]
DEPS = ["calendar"]
MAIN = '''
use calendar::Date;
fn main() {
    let mut d = Date { month: 2, day: 28, hour: 23.5 };
    d.add_minutes(30.);
    println!("{} {} {}", d.month, d.day, d.hour);
    if d.month != 3 || d.day != 1 || d.hour >= 24. {
        std::process::exit(1);
    }
}
'''
