ID = "G04-zbeside"
PROPERTY = "G04"
NEEDS = "A ray that goes through the box only because of its Z component, entering after it entered the other two slabs."
WHAT = "The Z interval of a box is compared with only one end of the X-Y interval, so rays that leave the X and Y slabs before entering the Z slab are said to hit."
EDITS = [("geometry/src/bbox3d.rs", "        // Narrow down the intersection... Now t_min and t_max\n        // represent the intersection between the X an Y dimensions.\n        if ty_min > tx_min {\n            tx_min = ty_min;\n        }\n        if ty_max < tx_max {\n            tx_max = ty_max;\n        }",
 "        // Narrow down the intersection... Now t_min and t_max\n        // represent the intersection between the X an Y dimensions.\n        if ty_min > tx_min {\n            tx_min = ty_min;\n        }\n        if ty_max < tx_max && ty_min < 0. {\n            tx_max = ty_max;\n        }")]
DEPS = ["geometry"]
MAIN = '''
use geometry::{BBox3D, Point3D, Ray3D, Vector3D};
fn main() {
    let b = BBox3D::new(Point3D::new(0., 0., 0.), Point3D::new(10., 1., 1.));
    // crosses Y in [0,1] between t=1 and t=2 (in the units below); reaches Z=0 only at t=4
    let d = Vector3D::new(1., 1., 1.);
    let r = Ray3D { origin: Point3D::new(-0.5, -1., -4.), direction: d };
    let hit = b.intersect(r, &Vector3D::new(1., 1., 1.));
    println!("{hit}");
    if hit {
        std::process::exit(1);
    }
}
'''
