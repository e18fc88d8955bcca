mod cast;
mod images;
mod mats;
mod sampling;
mod scenes;
use hx::*;

fn main() {
    let mut v = images::cases();
    v.extend(mats::cases());
    v.extend(sampling::cases());
    v.extend(cast::cases());
    v.extend(scenes::cases());
    hx::main(v)
}
