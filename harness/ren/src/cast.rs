use geometry::intersection::SurfaceSide;
use geometry::{Point3D, Ray3D, Triangle3D, Vector3D};
use hx::*;
use rendering::material::{Diffuse, Material};
use rendering::primitive::Primitive;
use rendering::{Scene, Spectrum};

type P3 = [f64; 3];
type Tri = [P3; 3];

/// numbers that look random, in eighths
struct Rnd(u64);
impl Rnd {
    fn next(&mut self, n: u64) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) % n
    }
    fn at(&mut self, lo: i64, hi: i64) -> f64 {
        (lo * 8 + self.next(((hi - lo) * 8) as u64) as i64) as f64 / 8.0
    }
}
fn cross(a: P3, b: P3) -> P3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn dot(a: P3, b: P3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn sub(a: P3, b: P3) -> P3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
/// triangles spread in a box
fn spread(seed: u64, n: usize, size: i64) -> Vec<Tri> {
    let mut r = Rnd(seed * 977 + 5);
    let mut v = vec![];
    while v.len() < n {
        let a = [r.at(-4, 4), r.at(-4, 4), r.at(-4, 4)];
        let mut other = || [a[0] + r.at(-size, size), a[1] + r.at(-size, size), a[2] + r.at(-size, size)];
        let t = [a, other(), other()];
        let c = cross(sub(t[1], t[0]), sub(t[2], t[0]));
        if dot(c, c) > 0.1 {
            v.push(t);
        }
    }
    v
}
/// a floor of squares, and a higher one with holes
fn floors(n: usize) -> Vec<Tri> {
    let mut v = vec![];
    for l in 0..2 {
        for i in 0..n {
            for j in 0..n {
                if l == 1 && (i + j) % 2 == 0 {
                    continue;
                }
                let (x, y, z) = (i as f64 - n as f64 / 2.0, j as f64 - n as f64 / 2.0, l as f64 * 1.5);
                v.push([[x, y, z], [x + 1.0, y, z], [x + 1.0, y + 1.0, z]]);
                v.push([[x, y, z], [x + 1.0, y + 1.0, z], [x, y + 1.0, z]]);
            }
        }
    }
    v
}
fn layout(k: usize) -> Vec<Tri> {
    match k {
        0 => vec![],
        1 => vec![[[-2.0, -1.0, 0.5], [3.0, -1.5, 0.25], [0.5, 3.0, -0.5]]],
        // one over the other, with the same centre
        2 => (0..3).map(|i| [[-2.0, -2.0, i as f64], [2.0, -2.0, i as f64], [0.0, 2.0, i as f64]]).collect(),
        // the same box, twice: leaves with several triangles
        3 => vec![[[-2.0, -2.0, 0.0], [2.0, -2.0, 0.0], [2.0, 2.0, 0.0]], [[-2.0, -2.0, 0.0], [2.0, 2.0, 0.0], [-2.0, 2.0, 0.0]]],
        4 => spread(1, 4, 3),
        5 => spread(2, 12, 3),
        6 => floors(4),
        7 => spread(3, 30, 2),
        8 => spread(4, 60, 2),
        9 => floors(7),
        10 => spread(5, 200, 1),
        _ => floors(12),
    }
}
const SMALL: usize = 8;
const LARGE: usize = 10;
fn vec(a: P3) -> Vector3D {
    Vector3D::new(a[0] as Float, a[1] as Float, a[2] as Float)
}
fn point(a: P3) -> Point3D {
    Point3D::new(a[0] as Float, a[1] as Float, a[2] as Float)
}
fn scene(v: &[Tri]) -> (Scene, Vec<usize>) {
    let mut s = Scene::new();
    for i in 0..5 {
        s.push_material(Material::Diffuse(Diffuse::new(Spectrum::gray(i as f64 as Float / 10.0))));
    }
    for (i, t) in v.iter().enumerate() {
        s.push_object(i % 5, (i / 2) % 5, Primitive::Triangle(Triangle3D::new(point(t[0]), point(t[1]), point(t[2])).unwrap()));
    }
    let m = s.build_accelerator();
    (s, m)
}
/// one direction and the line along which the origin of rays moves
fn lines(k: usize) -> (P3, P3, P3) {
    [
        ([0.0, 0.0, -1.0], [-3.0, 0.3, 9.0], [1.0, 0.1, 0.0]),
        ([0.0, 0.0, 1.0], [0.7, -3.3, -9.0], [-0.2, 1.0, 0.0]),
        ([2.0 / 3.0, 1.0 / 3.0, -2.0 / 3.0], [-6.0, -4.1, 7.0], [1.0, 0.3, 0.2]),
        ([-0.6, 0.8, 0.0], [5.0, -6.0, 0.35], [0.1, 0.2, 1.0]),
        ([0.0, -0.8, 0.6], [0.45, 6.0, -5.0], [1.0, 0.0, 0.1]),
        ([1.0, 0.0, 0.0], [-9.0, 0.9, -1.1], [0.0, 0.6, 1.0]),
        ([-3.0 / 7.0, -6.0 / 7.0, 2.0 / 7.0], [4.0, 8.0, -3.0], [0.9, 0.0, 0.4]),
        // from within the scene
        ([2.0 / 3.0, -2.0 / 3.0, 1.0 / 3.0], [-1.0, 0.2, 0.1], [0.3, 0.5, 1.0]),
        ([0.0, -1.0, 0.0], [0.2, 0.1, 0.55], [1.0, 0.2, 0.3]),
    ][k]
}
const LINES: usize = 9;
struct Cast {
    all: Vec<Tri>,
    ray: Ray3D,
    dir: P3,
    hits: Vec<(usize, Float)>,
}
/// where the ray meets each triangle, leaving out rays that graze
fn cast_in(all: Vec<Tri>, k: usize, scale: f64, margin: f64) -> Cast {
    let (dir, base, step) = lines(k);
    let s = sym("s", -4.0, 4.0);
    let f = |i: usize| base[i] as Float * scale as Float + s * ((step[i] * scale) as Float);
    let o = Point3D::new(f(0), f(1), f(2));
    let mut hits = vec![];
    for (i, t) in all.iter().enumerate() {
        let (e1, e2) = (sub(t[1], t[0]), sub(t[2], t[0]));
        let h = cross(dir, e2);
        let a = dot(e1, h);
        let n = cross(e1, e2);
        if dot(dir, n).abs() < 1e-4 * dot(n, n).sqrt() {
            // seen from the side: as if it was not there
            continue;
        }
        // the coordinates of the hit are linear in the origin: u = h (o - a) / a
        let d = o - point(t[0]);
        let lin = |v: P3| (d.x * (v[0] / a) as Float) + (d.y * (v[1] / a) as Float) + (d.z * (v[2] / a) as Float);
        let u = lin(h);
        // dir . (d x e1) = d . (e1 x dir)
        let v = lin(cross(e1, dir));
        // e2 . (d x e1) = d . (e1 x e2)
        let at = lin(n);
        let m = margin as Float;
        if u < -m || v < -m || u + v > 1.0 + m || at < -m {
            continue;
        }
        assume_le(m, u);
        assume_le(m, v);
        assume_le(u + v, 1.0 - m);
        assume_le(m, at);
        hits.push((i, at));
    }
    Cast { all, ray: Ray3D { origin: o, direction: vec(dir) }, dir, hits }
}
fn nearest(c: &Cast, margin: Float) -> Option<(usize, Float)> {
    let mut r: Option<(usize, Float)> = None;
    for (i, t) in &c.hits {
        match r {
            None => r = Some((*i, *t)),
            Some((_, b)) => {
                if *t < b {
                    assume_le(*t, b - margin);
                    r = Some((*i, *t));
                } else {
                    assume_le(b + margin, *t);
                }
            }
        }
    }
    r
}
fn judge(c: &Cast) {
    let (s, mapping) = scene(&c.all);
    let e = nearest(c, 1e-3);
    let mut aux = [0; 64];
    let got = s.cast_ray(c.ray, &mut aux);
    match e {
        None => check(got.is_none(), "rays that cross nothing hit nothing"),
        Some((i, t)) => {
            check(got.is_some(), "rays hit what they cross");
            let (j, x) = got.unwrap();
            check(mapping[j] == i, "rays hit the nearest triangle");
            let p = c.ray.origin + c.ray.direction * t;
            let (d, b) = (x.point - p, x.geometry_shading.p - p);
            close(d.x * d.x + d.y * d.y + d.z * d.z, 0.0, 1e-9, "the point of a hit is where the ray crosses");
            close(b.x * b.x + b.y * b.y + b.z * b.z, 0.0, 1e-9, "the point of a hit is where the ray crosses");
            let w = x.wo + c.ray.direction;
            close(w * w, 0.0, 1e-9, "the way back is opposite to the ray");
            let tr = c.all[i];
            let n = cross(sub(tr[1], tr[0]), sub(tr[2], tr[0]));
            let l = dot(n, n).sqrt();
            let front = dot(n, c.dir) < 0.0;
            let sign = if front { 1.0 } else { -1.0 };
            check(x.geometry_shading.side == if front { SurfaceSide::Front } else { SurfaceSide::Back }, "the front of a triangle is where its normal points");
            let q = x.geometry_shading.normal - vec([n[0] * sign / l, n[1] * sign / l, n[2] * sign / l]);
            close(q * q, 0.0, 1e-9, "the normal of a hit faces the ray");
            let (e1, e2, n) = (x.geometry_shading.dpdu, x.geometry_shading.dpdv, x.geometry_shading.normal);
            close(e1 * e1, 1.0, 1e-6, "the frame of a hit is orthonormal");
            close(e2 * e2, 1.0, 1e-6, "the frame of a hit is orthonormal");
            close(e1 * e2, 0.0, 1e-6, "the frame of a hit is orthonormal");
            close(e1 * n, 0.0, 1e-6, "the frame of a hit is orthonormal");
            close(e2 * n, 0.0, 1e-6, "the frame of a hit is orthonormal");
        }
    }
}
fn hits() {
    let all = layout(choose("scene", SMALL));
    let c = cast_in(all, choose("line", LINES), 1.0, 1e-3);
    max_paths(20000);
    judge(&c);
}
fn large() {
    let all = layout(SMALL + choose("scene", LARGE - SMALL));
    let c = cast_in(all, choose("line", LINES), 1.0, 1e-3);
    max_paths(20000);
    judge(&c);
}
fn huge() {
    let all = layout(LARGE + choose("scene", 2));
    let c = cast_in(all, choose("line", LINES), 1.0, 1e-3);
    max_paths(40000);
    judge(&c);
}
/// the same scenes, a thousand times smaller or larger
fn scaled() {
    let (i, k) = [(1, 0.002), (2, 0.005), (4, 0.02), (5, 0.02), (1, 100.0), (5, 100.0)][choose("scene", 6)];
    let all = layout(i);
    let all: Vec<Tri> = all.iter().map(|t| t.map(|p| p.map(|x| x * k))).collect();
    let c = cast_in(all, choose("line", LINES), k, 1e-3);
    // hits are told apart from the origin of the ray from 0.01 mm on
    for (_, t) in &c.hits {
        assume_le(0.0005, *t);
    }
    let (s, mapping) = scene(&c.all);
    let e = nearest(&c, 1e-4);
    let mut aux = [0; 64];
    let got = s.cast_ray(c.ray, &mut aux);
    match e {
        None => check(got.is_none(), "rays that cross nothing hit nothing, in scenes of any size"),
        Some((i, _)) => check(got.map(|g| mapping[g.0] == i) == Some(true), "rays hit the nearest triangle, in scenes of any size"),
    }
}
fn shadows() {
    let all = layout(choose("scene", SMALL));
    let c = cast_in(all, choose("line", LINES), 1.0, 1e-3);
    max_paths(20000);
    let (s, _) = scene(&c.all);
    let e = nearest(&c, 1e-3);
    let mut aux = [0; 64];
    let d = [0.75, 3.0, 6.5, 11.0][choose("d", 4)] as Float;
    for (_, t) in &c.hits {
        assume_le(0.01, *t);
    }
    let free = match e {
        None => true,
        Some((_, t)) => {
            if t < d {
                assume_le(t, d - 0.01);
                false
            } else {
                assume_le(d + 0.01, t);
                true
            }
        }
    };
    let got = s.unobstructed_distance(c.ray, d * d, &mut aux);
    check(got == free, "shadow rays are obstructed by what is closer, and by nothing else");
}
/// some consecutive triangles of the scene, without its structure
fn slices() {
    let all = layout(1 + choose("scene", 5));
    let mut c = cast_in(all, choose("line", LINES), 1.0, 1e-3);
    let (s, mapping) = scene(&c.all);
    let n = mapping.len();
    let (ini, fin) = [(0, n), (n / 2, n), (0, n - n / 2), (n / 3, n - n / 3)][choose("slice", 4)];
    c.hits.retain(|(i, _)| mapping[ini..fin].contains(i));
    let e = nearest(&c, 1e-3);
    let a = rendering::triangle::intersect_triangle_slice(&s, c.ray, ini, fin);
    let b = rendering::triangle::simple_intersect_triangle_slice(&s, c.ray, ini, fin);
    match e {
        None => check(a.is_none() && b.is_none(), "rays that cross no triangle of a part of the scene hit nothing of it"),
        Some((i, t)) => {
            check(a.is_some() && b.is_some(), "rays hit what they cross of a part of the scene");
            let ((j, x), (k, q)) = (a.unwrap(), b.unwrap());
            check(mapping[j] == i && mapping[k] == i, "rays hit the nearest triangle of a part of the scene");
            let p = c.ray.origin + c.ray.direction * t;
            let (d, f) = (x.p - p, q - p);
            close(d * d, 0.0, 1e-9, "the point of a hit is where the ray crosses");
            close(f * f, 0.0, 1e-9, "the point of a hit is where the ray crosses");
        }
    }
}
/// the order changes, and everything moves together
fn moved() {
    let all = layout(choose("scene", LARGE));
    let (s, m) = scene(&all);
    // coordinates scaled by a symbolic factor do not alter who goes with whom
    check(m.len() == all.len() && s.triangles.len() == all.len() && s.normals.len() == all.len(), "the scene keeps its triangles");
    check(s.front_material_indexes.len() == all.len() && s.back_material_indexes.len() == all.len(), "the scene keeps its materials");
    let mut seen = vec![false; all.len()];
    for (j, &i) in m.iter().enumerate() {
        check(i < all.len() && !seen[i], "each triangle has one place");
        seen[i] = true;
        let t = all[i];
        for a in 0..3 {
            for b in 0..3 {
                close(s.triangles[j][a * 3 + b], t[a][b] as Float, 1e-12, "triangles keep their vertices");
            }
        }
        check(s.front_material_indexes[j] == i % 5 && s.back_material_indexes[j] == (i / 2) % 5, "triangles keep their materials");
        let n = cross(sub(t[1], t[0]), sub(t[2], t[0]));
        let l = dot(n, n).sqrt();
        for v in [s.normals[j].0, s.normals[j].1, s.normals[j].2] {
            let q = v - vec([n[0] / l, n[1] / l, n[2] / l]);
            close(q * q, 0.0, 1e-9, "triangles keep their normals");
        }
    }
}
/// the direction of the ray turns
fn turning() {
    let all = layout([1, 2, 3, 4][choose("scene", 4)]);
    let s = sym("s", -3.0, 3.0);
    let (o, to, step) = [([0.3, 0.2, 6.0], [0.1, 0.3, -4.0], [1.0, 0.2, 0.0]), ([5.0, 5.5, -6.0], [-0.5, -0.7, 0.5], [0.3, -1.0, 0.2])][choose("line", 2)] as (P3, P3, P3);
    let dir = Vector3D::new((to[0] - o[0]) as Float + s * step[0] as Float, (to[1] - o[1]) as Float + s * step[1] as Float, (to[2] - o[2]) as Float + s * step[2] as Float);
    let ray = Ray3D { origin: point(o), direction: dir };
    let m: Float = 1e-3;
    let mut hits = vec![];
    for (i, t) in all.iter().enumerate() {
        let (e1, e2) = (vec(sub(t[1], t[0])), vec(sub(t[2], t[0])));
        let d = point(o) - point(t[0]);
        // all multiplied by a
        let a = dir * (e2.cross(e1));
        let sign: Float = if a < 0.0 { -1.0 } else { 1.0 };
        assume_le(0.01, a * sign);
        let (u, v, at) = (sign * (dir * e2.cross(d)), sign * (dir * d.cross(e1)), sign * (d * e1.cross(e2)));
        let a = a * sign;
        if u < -m * a || v < -m * a || u + v > a * (1.0 + m) || at < -m * a {
            continue;
        }
        assume_le(m * a, u);
        assume_le(m * a, v);
        assume_le(u + v, a * (1.0 - m));
        assume_le(m * a, at);
        hits.push((i, at / a));
    }
    let c = Cast { all, ray, dir: [0.0; 3], hits };
    let (s, mapping) = scene(&c.all);
    let e = nearest(&c, 1e-3);
    let mut aux = [0; 64];
    let got = s.cast_ray(ray, &mut aux);
    match e {
        None => check(got.is_none(), "rays that cross nothing hit nothing"),
        Some((i, t)) => {
            check(got.is_some(), "rays hit what they cross");
            let (j, x) = got.unwrap();
            check(mapping[j] == i, "rays hit the nearest triangle");
            let p = ray.origin + dir * t;
            close(x.point.x, p.x, 1e-6, "the point of a hit is where the ray crosses");
            close(x.point.y, p.y, 1e-6, "the point of a hit is where the ray crosses");
            close(x.point.z, p.z, 1e-6, "the point of a hit is where the ray crosses");
        }
    }
}

pub fn cases() -> Vec<Case> {
    vec![
        case("R03", "hits", hits),
        case("R03", "slices", slices),
        case("R03", "scaled", scaled),
        case("R03", "shadows", shadows),
        case("R03", "moved", moved),
        case("R03", "turning", turning),
        case("R03", "large", large),
        deep("R03", "huge", huge),
    ]
}
