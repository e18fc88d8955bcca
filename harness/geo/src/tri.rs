//! G03: rays and primitives
use super::*;

fn shape() -> (Vector3D, Vector3D) {
    [
        (Vector3D::x() * 2.0, Vector3D::y() * 3.0),
        (Vector3D::new(1.0, 0.0, 0.0), Vector3D::new(1.0, 2.0, 0.0)),
        (Vector3D::new(0.0, 2.0, 1.0), Vector3D::new(3.0, -1.0, 0.5)),
        (Vector3D::new(0.0, 0.0, 1.5), Vector3D::new(0.0, 1.0, 0.0)),
    ][choose("shape", 4)]
}
fn triangle_ray() {
    drop_div_zero();
    let o = p3("o", 5.0);
    let (e1, e2) = shape();
    let n = e1.cross(e2);
    let t = Triangle3D::new(o, o + e1, o + e2).unwrap();
    let (al, be) = (sym("al", -2.0, 3.0), sym("be", -2.0, 3.0));
    let p = o + e1 * al + e2 * be;
    let d = unit("d");
    let nd = n.x * d.x + n.y * d.y + n.z * d.z;
    assume(nd.abs() > 0.01);
    let s = sym("t", -10.0, 10.0);
    let ray = Ray3D { origin: p - d * s, direction: d };
    let w = 1.0 - al - be;
    let m = 1e-6;
    let a = t.simple_intersect(&ray);
    let b = t.intersect(&ray);
    if al > m && be > m && w > m && s > m {
        check(a.is_some() && b.is_some(), "a ray towards a point of the triangle hits it");
    } else if al < -m || be < -m || w < -m || s < -m {
        check(a.is_none() && b.is_none(), "a ray that passes beside or points away misses");
    }
    if let Some(q) = a {
        same_p(q, p, 1e-5, "where it hits");
    }
    if let Some(i) = b {
        same_p(i.p, p, 1e-5, "where it hits");
        let front = nd < 0.0;
        check(i.side == if front { SurfaceSide::Front } else { SurfaceSide::Back }, "the side that is hit");
        let l = n.length();
        same_v(i.normal * l, if front { n } else { -n }, 1e-5, "the normal faces the ray");
    }
}
fn triangle_parallel() {
    let o = p3("o", 5.0);
    let (e1, e2) = shape();
    let t = Triangle3D::new(o, o + e1, o + e2).unwrap();
    let d = e1 * sym("u", -1.0, 1.0) + e2 * sym("v", -1.0, 1.0);
    assume_le(0.01, d * d);
    let ray = Ray3D { origin: p3("q", 10.0), direction: d };
    check(t.simple_intersect(&ray).is_none(), "a ray parallel to the triangle misses it");
}

fn centre_of(k: usize) -> Point3D {
    if k == 0 {
        Point3D::new(0.0, 0.0, 0.0)
    } else {
        Point3D::new(sym("cx", 1.0, 5.0), sym("cy", -5.0, 5.0), sym("cz", -5.0, 5.0))
    }
}
fn zero() -> Point3D {
    Point3D::new(0.0, 0.0, 0.0)
}
/// (unit vector to a point of the sphere, unit direction of the ray)
fn aim() -> (Vector3D, Vector3D) {
    let v = Vector3D::new;
    let l = [
        (v(1.0, 0.0, 0.0), v(-1.0, 0.0, 0.0)),
        (v(0.6, 0.8, 0.0), v(0.0, -1.0, 0.0)),
        (v(0.48, 0.64, 0.6), v(0.0, 0.6, -0.8)),
        (v(-0.36, 0.48, -0.8), v(0.6, 0.0, 0.8)),
        (v(0.0, -0.6, 0.8), v(0.48, 0.64, -0.6)),
        // leaving the sphere
        (v(1.0, 0.0, 0.0), v(0.6, 0.8, 0.0)),
        (v(0.48, 0.64, 0.6), v(0.0, 0.6, 0.8)),
        (v(-0.36, 0.48, -0.8), v(-0.8, 0.0, -0.6)),
    ];
    l[choose("aim", l.len())]
}
fn sphere_hit() {
    drop_div_zero();
    let r = sym("r", 0.5, 5.0);
    let s = Sphere3D::new(r, zero());
    let (u, d) = aim();
    let ud = u * d;
    // the ray reaches p after t; the other crossing is 2 r (u.d) before (or after) it
    let t = sym("t", 0.01, 20.0);
    if ud > 0.0 {
        assume_le(t, 2.0 * r * ud - 0.01);
    }
    let p = (u * r).as_point3d();
    let ray = Ray3D { origin: p - d * t, direction: d };
    let q = s.simple_intersect_local_ray(&ray, zero(), zero());
    check(q.is_some(), "a ray towards the sphere hits it");
    if let Some(q) = q {
        same_p(q, p, 1e-3, "it hits the first point of the sphere along the ray");
    }
}
fn sphere_hit_moved() {
    drop_div_zero();
    let (c, r) = [(Point3D::new(2.0, -1.0, 3.0), 1.5), (Point3D::new(-4.0, 0.5, 0.25), 0.5), (zero(), 2.0)][choose("sphere", 3)];
    let s = Sphere3D::new(r, c);
    let tr = s.transform().as_ref().map(|t| (**t).clone()).unwrap_or_default();
    let a = p3("a", 10.0);
    same_p(tr.transform_pt(a), a + (c - zero()), 1e-9, "the sphere is placed at its centre");
    same_p(tr.inv_transform_pt(a + (c - zero())), a, 1e-9, "and rays are brought back from there");
}
fn sphere_world() {
    drop_div_zero();
    let (c, r) = [(Point3D::new(2.0, -1.0, 3.0), 1.5), (Point3D::new(-4.0, 0.5, 0.25), 0.5)][choose("sphere", 2)];
    let s = Sphere3D::new(r, c);
    let u = [Vector3D::x(), Vector3D::new(0.0, 0.0, -1.0)][choose("u", 2)];
    let p = c + u * r;
    let t = 0.5 + sym("dt", 0.0, 0.0001);
    let q = s.simple_intersect(&Ray3D { origin: p + u * t, direction: -u });
    check(q.is_some(), "a ray towards the sphere hits it");
    if let Some(q) = q {
        same_p(q, p, 1e-3, "it hits the first point of the sphere along the ray");
    }
}
fn sphere_normal() {
    drop_div_zero();
    let r = sym("r", 0.5, 5.0);
    let s = Sphere3D::new(r, Point3D::new(0.0, 0.0, 0.0));
    let u = [Vector3D::x(), Vector3D::new(0.6, 0.8, 0.0), Vector3D::new(0.48, 0.64, 0.6), Vector3D::new(-0.36, 0.48, -0.8)][choose("u", 4)];
    let t = sym("t", 0.01, 20.0);
    let outside = choose("outside", 2) == 0;
    let d = if outside { -u } else { u };
    let ray = if outside {
        Ray3D { origin: (u * (r + t)).as_point3d(), direction: d }
    } else {
        assume_le(t, r);
        Ray3D { origin: (u * (r - t)).as_point3d(), direction: d }
    };
    let i = s.intersect(&ray);
    check(i.is_some(), "hits");
    if let Some(i) = i {
        check(i.side == if outside { SurfaceSide::Front } else { SurfaceSide::Back }, "outside is the front");
        same_v(i.normal, -d, 1e-3, "the normal faces the ray");
    }
}
fn sphere_miss() {
    drop_div_zero();
    let r = sym("r", 0.5, 5.0);
    let s = Sphere3D::new(r, zero());
    let d = unit("d");
    let e = d.get_perpendicular().unwrap();
    let t = sym("t", -20.0, 20.0);
    let h = sym("h", 0.01, 10.0);
    let beside = choose("how", 2) == 0;
    let ray = if beside {
        Ray3D { origin: (e * (r + h) + d * t).as_point3d(), direction: d }
    } else {
        // behind
        Ray3D { origin: (d * (r + h)).as_point3d(), direction: d }
    };
    check(s.simple_intersect_local_ray(&ray, zero(), zero()).is_none(), "a ray that passes beside or points away misses");
}
fn sphere_partial() {
    drop_div_zero();
    // a sphere cut at z in [zmin, zmax]: a horizontal ray through the axis
    let r = sym("r", 0.5, 5.0);
    let (z0, z1) = (sym("z0", -6.0, 6.0), sym("z1", -6.0, 6.0));
    assume_le(z0 + 0.01, z1);
    let s = Sphere3D::new_partial(r, zero(), z0, z1, 360.0);
    let (u, d) = [
        (Vector3D::new(0.8, 0.0, 0.6), Vector3D::new(-1.0, 0.0, 0.0)),
        (Vector3D::new(0.48, 0.64, -0.6), Vector3D::new(-0.6, -0.8, 0.0)),
    ][choose("u", 2)];
    let p = u * r;
    let t = sym("t", 0.01, 20.0);
    let ray = Ray3D { origin: (p - d * t).as_point3d(), direction: d };
    let q = s.simple_intersect_local_ray(&ray, zero(), zero());
    if p.z > z0 + 1e-4 && p.z < z1 - 1e-4 {
        check(q.is_some(), "hits the part that is left");
        if let Some(q) = q {
            same_p(q, p.as_point3d(), 1e-3, "where");
        }
    } else if p.z < z0 - 1e-4 || p.z > z1 + 1e-4 {
        check(q.is_none(), "does not hit the part that was cut");
    }
}
fn sphere_partial_second() {
    drop_div_zero();
    // the first crossing was cut away: the ray goes on to the second one
    let r = sym("r", 0.5, 5.0);
    let z1 = sym("z1", -6.0, 6.0);
    let s = Sphere3D::new_partial(r, zero(), -6.0, z1, 360.0);
    // enters at (0, -0.6, 0.8) r and leaves at (0, 0.96, -0.28) r... direction between the two
    let (u, w) = (Vector3D::new(0.0, -0.6, 0.8), Vector3D::new(0.0, 0.96, -0.28));
    let t = sym("t", 0.01, 20.0);
    assume_le(z1, u.z * r - 0.01);
    let d = (w - u) * (1.0 / 1.8973665961010275);
    let ray = Ray3D { origin: (u * r - d * t).as_point3d(), direction: d };
    let q = s.simple_intersect_local_ray(&ray, zero(), zero());
    if w.z * r < z1 - 1e-3 {
        check(q.is_some(), "hits the part that is left");
        if let Some(q) = q {
            same_p(q, (w * r).as_point3d(), 1e-3, "where");
        }
    } else if w.z * r > z1 + 1e-3 {
        check(q.is_none(), "both crossings were cut away");
    }
}
fn sphere_measures() {
    let r = sym("r", 0.5, 5.0);
    let c = centre_of(1);
    let s = Sphere3D::new(r, c);
    close(s.area(), 4.0 * std::f64::consts::PI * r * r, 1e-6, "area of a sphere");
    same_p(s.centre(), c, 1e-9, "centre");
    let b = s.world_bounds();
    let u = unit("u");
    inside(&b, c + u * r, "the bounds contain the sphere");
}

fn disk_ray() {
    drop_div_zero();
    let c = p3("c", 5.0);
    let n = [Vector3D::z(), Vector3D::new(0.6, 0.8, 0.0), Vector3D::new(-0.36, 0.48, -0.8)][choose("n", 3)];
    let r = sym("r", 0.5, 5.0);
    let k = Disk3D::new(c, n, r);
    let e = n.get_perpendicular().unwrap();
    let f = n.cross(e);
    let rho = sym("rho", 0.01, 8.0);
    let (x, y) = [(1.0, 0.0), (-0.8, 0.6), (-0.6, -0.8)][choose("where", 3)];
    let p = c + e * (rho * x) + f * (rho * y);
    let d = [Vector3D::new(0.0, 0.6, 0.8), Vector3D::new(0.48, -0.64, -0.6)][choose("d", 2)];
    let nd = n * d;
    assume(nd.abs() > 0.01);
    let t = sym("t", -10.0, 10.0);
    let ray = Ray3D { origin: p - d * t, direction: d };
    let q = k.simple_intersect(&ray);
    let i = k.intersect(&ray);
    let m = 1e-6;
    if rho < r - m && t > m {
        check(q.is_some() && i.is_some(), "a ray towards a point of the disk hits it");
    } else if rho > r + m || t < -m {
        check(q.is_none() && i.is_none(), "a ray that passes beside or points away misses");
    }
    if let Some(q) = q {
        same_p(q, p, 1e-5, "where it hits");
    }
    if let Some(i) = i {
        same_p(i.p, p, 1e-5, "where it hits");
        let front = nd < 0.0;
        check(i.side == if front { SurfaceSide::Front } else { SurfaceSide::Back }, "the side that is hit");
        same_v(i.normal, if front { n } else { -n }, 1e-5, "the normal faces the ray");
    }
    close(k.area(), std::f64::consts::PI * r * r, 1e-6, "area");
}
fn disk_ring() {
    drop_div_zero();
    let c = p3("c", 5.0);
    let n = Vector3D::z();
    let (r, w) = (sym("r", 0.5, 5.0), sym("w", 0.1, 3.0));
    let k = Disk3D::new_detailed(c, n, r + w, r, Vector3D::x(), 360.0, None);
    let rho = sym("rho", 0.01, 10.0);
    let (x, y) = [(1.0, 0.0), (0.6, 0.8), (-0.8, 0.6), (0.0, -1.0), (-0.6, -0.8)][choose("where", 5)];
    let p = Point3D::new(c.x + rho * x, c.y + rho * y, c.z);
    let t = sym("t", 0.01, 10.0);
    let d = [Vector3D::new(0.0, 0.0, -1.0), Vector3D::new(0.6, 0.0, 0.8)][choose("d", 2)];
    let q = k.simple_intersect(&Ray3D { origin: p - d * t, direction: d });
    if rho > r + 1e-6 && rho < r + w - 1e-6 {
        check(q.is_some(), "hits the ring");
    } else if rho < r - 1e-6 || rho > r + w + 1e-6 {
        check(q.is_none(), "does not hit the hole or the outside");
    }
    close(k.area(), std::f64::consts::PI * ((r + w) * (r + w) - r * r), 1e-6, "area");
}

fn cylinder_local() {
    drop_div_zero();
    let len = sym("len", 1.0, 5.0);
    let r = sym("r", 0.5, 3.0);
    let k = Cylinder3D::new_transformed(r, 0.0, len, 360.0, None);
    // from outside, radially and slanted
    let (x, y) = [(1.0, 0.0), (0.6, 0.8), (-0.8, 0.6), (0.0, -1.0)][choose("where", 4)];
    let h = sym("h", -3.0, 8.0);
    let u = Vector3D::new(x, y, 0.0);
    let d = if choose("slanted", 2) == 0 { -u } else { Vector3D::new(-0.6 * x, -0.6 * y, 0.8) };
    let t = sym("t", 0.01, 10.0);
    let p = Point3D::new(r * x, r * y, h);
    let ray = Ray3D { origin: p - d * t, direction: d };
    let q = k.simple_intersect_local_ray(&ray, zero(), zero());
    if h > 1e-4 && h < len - 1e-4 {
        check(q.is_some(), "a ray towards the cylinder hits it");
        if let Some(q) = q {
            same_p(q, p, 1e-3, "where it hits");
        }
    } else if h > len + 1e-4 || (h < -1e-4 && d.z == 0.0) {
        check(q.is_none(), "a ray beyond the ends misses");
    }
    close(k.area(), 2.0 * std::f64::consts::PI * r * len, 1e-5, "area");
}
fn cylinder_placed() {
    drop_div_zero();
    let c = [zero(), Point3D::new(2.0, -1.0, 3.0)][choose("moved", 2)];
    let (len, r) = (2.0, 0.5);
    let (ax, e, f) = [
        (Vector3D::z(), Vector3D::x(), Vector3D::y()),
        (Vector3D::x(), Vector3D::y(), Vector3D::z()),
        (Vector3D::y(), Vector3D::z(), Vector3D::x()),
        (Vector3D::new(0.48, 0.64, 0.6), Vector3D::new(-0.8, 0.6, 0.0), Vector3D::new(-0.36, -0.48, 0.8)),
    ][choose("axis", 4)];
    let k = Cylinder3D::new(c, c + ax * len, r);
    let tr = k.transform().as_ref().map(|t| (**t).clone()).unwrap_or_default();
    let (x, y, z) = (sym("x", -5.0, 5.0), sym("y", -5.0, 5.0), sym("z", -5.0, 5.0));
    let there = c + ax * z;
    same_p(tr.transform_pt(Point3D::new(0.0, 0.0, z)), there, 1e-5, "the axis goes from one end to the other");
    same_p(tr.inv_transform_pt(there), Point3D::new(0.0, 0.0, z), 1e-5, "and rays are brought back from there");
    let q = there + e * x + f * y;
    let b = tr.inv_transform_pt(q);
    close(b.z, z, 1e-5, "the height along the axis");
    close(b.x * b.x + b.y * b.y, x * x + y * y, 1e-3, "the distance to the axis");
    close(k.area(), 2.0 * std::f64::consts::PI * r * len, 1e-5, "area");
}
fn cylinder_world() {
    drop_div_zero();
    let c = Point3D::new(2.0, -1.0, 3.0);
    let (len, r) = (2.0, 0.5);
    let (ax, u) = (Vector3D::z(), [Vector3D::x(), Vector3D::new(0.0, -1.0, 0.0)][choose("from", 2)]);
    let k = Cylinder3D::new(c, c + ax * len, r);
    let h = [0.5, -0.5][choose("h", 2)];
    let p = c + ax * h + u * r;
    let t = 0.5 + sym("dt", 0.0, 0.0001);
    let q = k.simple_intersect(&Ray3D { origin: p + u * t, direction: -u });
    if h > 0.0 {
        check(q.is_some(), "a ray towards the cylinder hits it");
        if let Some(q) = q {
            same_p(q, p, 1e-3, "where it hits");
        }
    } else {
        check(q.is_none(), "a ray beyond the ends misses");
    }
}
fn distant() {
    let dir = unit("dir");
    let d = unit("d");
    let s = sym("s", 0.1, 4.0);
    let half = sym("half", 0.001, 1.5);
    let src = DistantSource3D::new(dir * s, half * 2.0);
    let ray = Ray3D { origin: p3("o", 5.0), direction: d };
    let got = src.simple_intersect(&ray).is_some();
    let c = dir * d;
    if c > half.cos() + 1e-6 {
        check(got, "a ray within half the angle of the source hits it");
    } else if c < half.cos() - 1e-6 {
        check(!got, "a ray further away misses it");
    }
    same_v(src.direction, dir, 1e-6, "the direction is normalised");
}

pub fn cases() -> Vec<Case> {
    vec![
        case("G03", "triangle_ray", triangle_ray),
        case("G03", "triangle_parallel", triangle_parallel),
        case("G03", "sphere_hit", sphere_hit),
        case("G03", "sphere_hit_moved", sphere_hit_moved),
        case("G03", "sphere_world", sphere_world),
        case("G03", "sphere_normal", sphere_normal),
        case("G03", "sphere_miss", sphere_miss),
        case("G03", "sphere_partial", sphere_partial),
        case("G03", "sphere_partial_second", sphere_partial_second),
        case("G03", "sphere_measures", sphere_measures),
        case("G03", "disk_ray", disk_ray),
        case("G03", "disk_ring", disk_ring),
        case("G03", "cylinder_local", cylinder_local),
        case("G03", "cylinder_placed", cylinder_placed),
        case("G03", "cylinder_world", cylinder_world),
        case("G03", "distant", distant),
    ]
}
