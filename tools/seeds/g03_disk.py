ID = "G03-diskback"
PROPERTY = "G03"
NEEDS = "A ring (a disk with a hole) and a ray that goes through its hole close to its border."
WHAT = "The radius of the hole is compared with the square of the distance to the centre, so rays through holes smaller or larger than 1 are decided wrongly."
EDITS = [("geometry/src/disk3d.rs", "r_squared < self.inner_radius * self.inner_radius", "r_squared < self.inner_radius.min(self.inner_radius * self.inner_radius)")]
DEPS = ["geometry"]
MAIN = '''
use geometry::{Disk3D, Point3D, Ray3D, Vector3D};
fn main() {
    let k = Disk3D::new_detailed(Point3D::new(0., 0., 0.), Vector3D::new(0., 0., 1.), 4., 3., Vector3D::new(1., 0., 0.), 360., None);
    let r = Ray3D { origin: Point3D::new(2.5, 0., 1.), direction: Vector3D::new(0., 0., -1.) };

    let hit = k.simple_intersect(&r).is_some();
    println!("{hit}");
    if hit {
        std::process::exit(1);
    }
}
'''
