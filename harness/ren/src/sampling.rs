use geometry::{DistantSource3D, Point3D, Ray3D, Sphere3D, Triangle3D, Vector3D};
use hx::*;
use rendering::primitive::Primitive;
use rendering::primitive_samplers::*;
use rendering::rand::{RandGen, SeedableRng};
use rendering::samplers::*;

const PI: Float = std::f64::consts::PI as Float;

/// the generator must replay the draws of the solver
fn draws() {
    use rendering::rand::Rng;
    let mut r = rng();
    let a: Float = r.gen();
    let (b, c): (Float, Float) = r.gen();
    close(a, drawn(0), 1e-9, "(of the check itself) draws are replayed");
    close(b, drawn(1), 1e-9, "(of the check itself) draws are replayed");
    close(c, drawn(2), 1e-9, "(of the check itself) draws are replayed");
}
pub fn rng() -> RandGen {
    RandGen::from_seed(seed())
}
/// orthonormal frames (e1, e2, n), right handed
pub fn frames(k: usize) -> (Vector3D, Vector3D, Vector3D) {
    let v = |a: [Float; 3], d: Float| Vector3D::new(a[0] / d, a[1] / d, a[2] / d);
    match k {
        0 => (v([1., 0., 0.], 1.), v([0., 1., 0.], 1.), v([0., 0., 1.], 1.)),
        1 => (v([0., 1., 0.], 1.), v([0., 0., 1.], 1.), v([1., 0., 0.], 1.)),
        2 => (v([2., -1., 2.], 3.), v([2., 2., -1.], 3.), v([-1., 2., 2.], 3.)),
        3 => (v([3., 4., 0.], 5.), v([4., -3., 0.], 5.), v([0., 0., -1.], 1.)),
        _ => (v([2., 3., 6.], 7.), v([3., -6., 2.], 7.), v([6., 2., -3.], 7.)),
    }
}
fn unit(v: Vector3D, l: &str) {
    close(v.x * v.x + v.y * v.y + v.z * v.z, 1.0, 1e-5, l);
}
fn two() -> (Float, Float) {
    (sym("u", 0.0, 0.999999), sym("v", 0.0, 0.999999))
}
fn triangle() {
    let u = two();
    let (e1, e2, n) = frames(choose("frame", 5));
    let o = Point3D::new(sym("ox", -10.0, 10.0), 2.0, -1.0);
    // legs of 2 and 3 along e1 and a skewed direction
    let k = [0.0, 0.5, -1.5][choose("skew", 3)] as Float;
    let (a, b, c) = (o, o + e1 * 2.0, o + e1 * k + e2 * 3.0);
    let p = match choose("how", 2) {
        0 => uniform_sample_triangle(u, a, b, c),
        _ => {
            let t = Triangle3D::new(a, b, c).unwrap();
            sample_triangle_surface(&t, &mut rng())
        }
    };
    let d = p - o;
    close(d * n, 0.0, 1e-6, "samples of a triangle are in its plane");
    let gamma = (d * e2) / 3.0;
    let beta = (d * e1 - gamma * k) / 2.0;
    le(0.0, beta, 1e-6, "samples of a triangle are inside of it");
    le(0.0, gamma, 1e-6, "samples of a triangle are inside of it");
    le(beta + gamma, 1.0, 1e-6, "samples of a triangle are inside of it");
}
fn triangle_uniform() {
    // equal areas are equally likely: the part of the triangle beyond beta has (1 - beta)^2 of its area
    let u = two();
    let p = uniform_sample_triangle(u, Point3D::new(1., 1., 1.), Point3D::new(2., 1., 1.), Point3D::new(1., 2., 1.));
    let (beta, gamma) = (p.x - 1.0, p.y - 1.0);
    close((1.0 - beta) * (1.0 - beta), u.0, 1e-5, "samples of a triangle are uniform");
    close(gamma, (1.0 - beta) * u.1, 1e-5, "samples of a triangle are uniform");
}
fn disc() {
    let u = two();
    let r = sym("radius", 0.125, 10.0);
    let (s, c) = (2.0 * PI * u.1).sin_cos();
    match choose("how", 2) {
        0 => {
            let (x, y) = uniform_sample_horizontal_disc(u, r);
            close(x * x + y * y, r * r * u.0, 1e-5, "samples of a disc are uniform over its area");
            close(x * c, y * s, 1e-5, "samples of a disc go all around");
            le(0.0, x * s + y * c, 1e-6, "samples of a disc go all around");
        }
        _ => {
            let (_, _, n) = frames(choose("frame", 5));
            let o = Point3D::new(sym("ox", -10.0, 10.0), 2.0, -1.0);
            let p = uniform_sample_tilted_disc(u, r, o, n);
            let d = p - o;
            close(d * n, 0.0, 1e-5, "samples of a tilted disc are in its plane");
            close(d * d, r * r * u.0, 1e-4, "samples of a tilted disc are uniform over its area");
        }
    }
}
fn hemisphere() {
    let u = two();
    match choose("how", 3) {
        0 => {
            let v = sample_uniform_hemisphere(u);
            unit(v, "directions have length one");
            close(v.z, u.0, 1e-6, "directions are uniform over the hemisphere");
        }
        1 => {
            let v = sample_cosine_weighted_horizontal_hemisphere(u);
            unit(v, "directions have length one");
            le(0.0, v.z, 1e-9, "directions are above the horizon");
            close(v.z * v.z, 1.0 - u.0, 1e-5, "directions are distributed as the cosine");
        }
        _ => {
            let (e1, e2, n) = frames(choose("frame", 5));
            let v = uniform_sample_tilted_hemisphere(u, e1, e2, n);
            unit(v, "directions have length one");
            close(v * n, u.0, 1e-5, "tilted directions are on the side of the normal");
        }
    }
}
fn sphere() {
    let u = two();
    match choose("how", 2) {
        0 => {
            let p = uniform_sample_sphere(u);
            close(p.x * p.x + p.y * p.y + p.z * p.z, 1.0, 1e-5, "samples of a sphere are on it");
            close(p.z, 1.0 - 2.0 * u.0, 1e-5, "samples of a sphere are uniform over it");
        }
        _ => {
            let r = sym("radius", 0.125, 10.0);
            let c = Point3D::new(sym("cx", -10.0, 10.0), 2.0, sym("cz", -10.0, 10.0));
            let p = sample_sphere_surface(&Sphere3D::new(r, c), &mut rng());
            let d = p - c;
            le(d * d, r * r, 1e-6, "samples of a sphere are not beyond it");
            le(r * r * 0.999, d * d, 1e-6, "samples of a sphere are on it");
        }
    }
}
fn to_world() {
    let (e1, e2, n) = frames(choose("frame", 5));
    let c = Point3D::new(sym("cx", -10.0, 10.0), sym("cy", -10.0, 10.0), sym("cz", -10.0, 10.0));
    let (x, y, z) = (sym("x", -10.0, 10.0), sym("y", -10.0, 10.0), sym("z", -10.0, 10.0));
    let w = local_to_world(e1, e2, n, c, x, y, z);
    let d = Point3D::new(w.0, w.1, w.2) - c;
    close(d * e1, x, 1e-5, "local x is along the first axis");
    close(d * e2, y, 1e-5, "local y is along the second axis");
    close(d * n, z, 1e-5, "local z is along the normal");
}
/// a light, seen from a point
fn light_triangle() {
    let (e1, e2, n) = frames(choose("frame", 5));
    // the coordinates may start anywhere
    let o = Point3D::new(sym("ox", -10.0, 10.0), [0.0, 7.0, -20.0][choose("oy", 3)] as Float, 3.0);
    let (a, b, c) = (o, o + e1 * 2.0, o + e2 * 3.0);
    let t = Triangle3D::new(a, b, c).unwrap();
    let side = [1.0, -1.0][choose("side", 2)] as Float;
    let h = sym("h", 0.5, 8.0);
    // the point seen is (0.5, 1) on the triangle, from 3h/4 beside and h away
    let q = o + e1 * 0.5 + e2 * 1.0;
    let p = q + n * (h * side) + e1 * (h * 0.75);
    let l = Primitive::Triangle(t);
    let dir = (q - p) / (h * 1.25);
    let ray = Ray3D { origin: p, direction: dir };
    let info = l.intersect(&ray);
    check(info.is_some(), "a ray towards a light hits it");
    let info = info.unwrap();
    let pdf = l.solid_angle_pdf(&info, &ray);
    // distance 1.25 h, cosine 0.8, area 3
    close(pdf, h * h * (1.5625 / 0.8 / 3.0), 1e-4, "the density of a triangle is distance^2 / (area cosine)");
    // towards the centroid
    let (d, v) = l.direction(p);
    let e = o + e1 * (2.0 / 3.0) + e2 * 1.0 - p;
    unit(v, "the direction of a light has length one");
    close(d * d, e * e, 1e-4, "the distance of a triangle is that of its centroid");
    let m = v * d - e;
    close(m * m, 0.0, 1e-6, "the direction of a triangle is that of its centroid");
}
fn light_sphere() {
    let r = sym("r", 0.5, 2.0);
    let c = Point3D::new(sym("cx", -10.0, 10.0), 4.0, 3.0);
    let (v, _, _) = frames(choose("frame", 5));
    let k = sym("k", 1.5, 6.0);
    let p = c - v * (r * k);
    let l = Primitive::Sphere(Sphere3D::new(r, c));
    let (d, w) = l.direction(p);
    close(d, r * (k - 1.0), 1e-4, "the distance of a sphere is that of its surface");
    let m = w - v;
    close(m * m, 0.0, 1e-6, "the direction of a sphere is that of its centre");
    let ray = Ray3D { origin: p, direction: v };
    let info = geometry::intersection::IntersectionInfo::default();
    let pdf = l.solid_angle_pdf(&info, &ray);
    // 1 / pdf = 2 pi (1 - cos), cos^2 = 1 - 1 / k^2
    let cos = 1.0 - 1.0 / (pdf * 2.0 * PI);
    le(0.0, cos, 1e-6, "the density of a sphere is that of the cone it fills");
    close(cos * cos * k * k, k * k - 1.0, 1e-4, "the density of a sphere is that of the cone it fills");
}
fn light_source() {
    let (e1, e2, n) = frames(choose("frame", 5));
    let alpha = [0.01, 0.5, 1.0][choose("angle", 3)] as Float;
    let len = sym("len", 0.5, 3.0);
    let l = Primitive::Source(DistantSource3D::new(n * len, alpha));
    let p = Point3D::new(sym("px", -10.0, 10.0), 4.0, 3.0);
    let (_, v) = l.direction(p);
    close(v * e1, 0.0, 1e-6, "the direction of a distant light is its own");
    close(v * e2, 0.0, 1e-6, "the direction of a distant light is its own");
    lt(0.0, v * n, "the direction of a distant light is its own");
    let ray = Ray3D { origin: p, direction: n };
    let pdf = l.solid_angle_pdf(&geometry::intersection::IntersectionInfo::default(), &ray);
    close(pdf * 2.0 * PI * (1.0 - (alpha / 2.0).cos()), 1.0, 1e-6, "the density of a distant light is that of its cone");
    let d = l.sample_direction(&mut rng(), p);
    unit(d, "sampled directions have length one");
    le((alpha / 2.0).cos(), d * n, 1e-5, "sampled directions are within the cone of the light");
}
/// sampled directions go towards the light
fn sampled_triangle() {
    let (e1, e2, n) = frames(choose("frame", 5));
    let o = Point3D::new(1.0, 7.0, 3.0);
    let t = Triangle3D::new(o, o + e1 * 2.0, o + e2 * 3.0).unwrap();
    let h = [0.5, -2.0][choose("h", 2)] as Float;
    let p = o + n * h + e1 * 1.0;
    let d = Primitive::Triangle(t).sample_direction(&mut rng(), p);
    unit(d, "sampled directions have length one");
    // where it meets the plane
    let c = (d * n) * -h;
    lt(0.0, c, "sampled directions go towards the light");
    let k = h * h;
    // p + d * s with s = k / c
    let beta = c + (d * e1) * k; // times 2 / c
    let gamma = (d * e2) * k; // times 3 / c
    le(0.0, beta, 1e-5, "sampled directions hit the light");
    le(0.0, gamma, 1e-5, "sampled directions hit the light");
    le(beta / 2.0 + gamma / 3.0, c, 1e-5, "sampled directions hit the light");
}
fn sampled_sphere() {
    let r = [0.5, 2.0][choose("r", 2)] as Float;
    let c = Point3D::new(1.0, 4.0, 3.0);
    let (v, _, _) = frames(choose("frame", 2));
    let p = c - v * (r * 3.0);
    let d = Primitive::Sphere(Sphere3D::new(r, c)).sample_direction(&mut rng(), p);
    unit(d, "sampled directions have length one");
    // within the cone that the sphere fills: sin = 1/3, cos^2 = 8/9
    lt(0.0, d * v, "sampled directions go towards the light");
    le(0.85, (d * v) * (d * v), 1e-3, "sampled directions hit the light");
}
/// surfaces of the scene's triangles
fn mesh_triangle_area() {
    use rendering::triangle::*;
    let (e1, e2, n) = frames(choose("frame", 5));
    let o = Point3D::new(sym("ox", -10.0, 10.0), 7.0, 3.0);
    // sides 3 k, 4 k, 5 k
    let k = sym("k", 0.125, 4.0);
    let (a, b, c) = (o, o + e1 * (3.0 * k), o + e2 * (4.0 * k));
    let t: Triangle = [a.x, a.y, a.z, b.x, b.y, b.z, c.x, c.y, c.z];
    close(triangle_area(&t), 6.0 * k * k, 1e-4, "the area of a triangle");
    // seen from the point (1, 1) k beside the corner, at a distance of 2 k, straight
    let q = o + e1 * k + e2 * k;
    let side = [1.0, -1.0][choose("side", 2)] as Float;
    let p = q + n * (2.0 * k * side);
    let ray = Ray3D { origin: p, direction: n * -side };
    let pdf = triangle_solid_angle_pdf(&t, q, n * side, &ray);
    close(pdf, 4.0 / 6.0, 1e-4, "the density of a triangle is distance^2 / (area cosine)");
}

pub fn cases() -> Vec<Case> {
    vec![
        case("R02", "draws", draws),
        case("R02", "triangle", triangle),
        case("R02", "triangle_uniform", triangle_uniform),
        case("R02", "disc", disc),
        case("R02", "hemisphere", hemisphere),
        case("R02", "sphere", sphere),
        case("R02", "to_world", to_world),
        case("R02", "light_triangle", light_triangle),
        case("R02", "light_sphere", light_sphere),
        case("R02", "light_source", light_source),
        case("R02", "sampled_triangle", sampled_triangle),
        case("R02", "sampled_sphere", sampled_sphere),
        case("R02", "mesh_triangle_area", mesh_triangle_area),
    ]
}
