ID = "J02-flipped"
PROPERTY = "J02"
NEEDS = "A window whose normal looks the other way than that of its parent wall, where the wall has different boundaries on both sides."
WHAT = "The window gets the boundaries of the wall without exchanging them, unless the two normals look the same way."
EDITS = [("model/src/model.rs", "            if wall_normal.is_same_direction(window_normal) {", "            if wall_normal.is_parallel(window_normal) {")]
DEPS = ["model", "geometry"]
MAIN = '''
use geometry::{Loop3D, Point3D, Polygon3D};
use model::*;
fn poly(a: f64, b: f64, flip: bool) -> Polygon3D {
    let mut p = vec![(a, a), (b, a), (b, b), (a, b)];
    if flip {
        p.reverse();
    }
    let mut l = Loop3D::new();
    for (x, z) in p {
        l.push(Point3D::new(x, 0., z)).unwrap();
    }
    l.close().unwrap();
    Polygon3D::new(l).unwrap()
}
fn main() {
    let mut m = Model::default();
    m.add_space(Space::new("room"));
    m.add_construction(Construction::new("c"));
    let mut s = Surface::new("wall", poly(0., 4., false), "c", Boundary::Outdoor, Boundary::Space { space: "room".to_string() });
    let _ = &mut s;
    m.add_surface(s).unwrap();
    let mut f = Fenestration::new("w", poly(1., 2., true), "c", FenestrationType::Window, Boundary::default(), Boundary::default());
    f.set_parent_surface("wall");
    let f = m.add_fenestration(f).unwrap();
    println!("{:?} {:?}", f.front_boundary, f.back_boundary);
    match (&f.front_boundary, &f.back_boundary) {
        (Boundary::Space { .. }, Boundary::Outdoor) => {}
        _ => std::process::exit(1),
    }
}
'''
