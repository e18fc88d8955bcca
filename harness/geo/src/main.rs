use geometry::intersection::SurfaceSide;
use geometry::round_error::ApproxFloat;
use geometry::*;
use hx::*;

mod poly;
mod tri;

pub fn p3(n: &str, r: Float) -> Point3D {
    Point3D::new(sym(&format!("{n}x"), -r, r), sym(&format!("{n}y"), -r, r), sym(&format!("{n}z"), -r, r))
}
pub fn v3(n: &str, r: Float) -> Vector3D {
    let p = p3(n, r);
    Vector3D::new(p.x, p.y, p.z)
}
pub fn same_p(a: Point3D, b: Point3D, tol: Float, l: &str) {
    close(a.x, b.x, tol, l);
    close(a.y, b.y, tol, l);
    close(a.z, b.z, tol, l);
}
pub fn same_v(a: Vector3D, b: Vector3D, tol: Float, l: &str) {
    close(a.x, b.x, tol, l);
    close(a.y, b.y, tol, l);
    close(a.z, b.z, tol, l);
}
fn dot(a: Vector3D, b: Vector3D) -> Float {
    a.x * b.x + a.y * b.y + a.z * b.z
}
/// unit vectors with rational components
pub fn unit(n: &str) -> Vector3D {
    let l = [
        (0.0, 0.0, 1.0),
        (0.0, 0.0, -1.0),
        (1.0, 0.0, 0.0),
        (0.0, 1.0, 0.0),
        (0.6, 0.8, 0.0),
        (0.0, -0.6, 0.8),
        (0.48, 0.64, 0.6),
        (-0.36, 0.48, -0.8),
    ];
    let (x, y, z) = l[choose(n, l.len())];
    Vector3D::new(x, y, z)
}

// ------------------------------------------------------------------ G01
fn vec_algebra() {
    let (a, b, c) = (v3("a", 10.0), v3("b", 10.0), v3("c", 10.0));
    let s = sym("s", -10.0, 10.0);
    close(a * b, a.x * b.x + a.y * b.y + a.z * b.z, 1e-9, "dot product");
    close(a * b, b * a, 1e-9, "dot product is symmetric");
    close(a.length_squared(), a * a, 1e-9, "squared length");
    let x = a.cross(b);
    close(x * a, 0.0, 1e-6, "cross product is perpendicular to the first");
    close(x * b, 0.0, 1e-6, "cross product is perpendicular to the second");
    same_v(x, -(b.cross(a)), 1e-9, "cross product is antisymmetric");
    same_v(a.cross(b + c), a.cross(b) + a.cross(c), 1e-6, "cross product distributes");
    close(x * x, (a * a) * (b * b) - (a * b) * (a * b), 1e-3, "size of the cross product (Lagrange)");
    same_v(Vector3D::x().cross(Vector3D::y()), Vector3D::z(), 1e-9, "right handed");
    same_v((a + b) - b, a, 1e-9, "subtraction undoes addition");
    same_v((a * s) + (a * (1.0 - s)), a, 1e-6, "scaling distributes");
    let mut d = a;
    d += b;
    same_v(d, a + b, 1e-9, "add-assign");
    d -= b;
    same_v(d, a, 1e-9, "sub-assign");
    d *= s;
    same_v(d, a * s, 1e-9, "mul-assign");
    let k = sym("k", 0.5, 10.0);
    same_v((a / k) * k, a, 1e-6, "division undoes scaling");
    let mut d = a;
    d /= k;
    same_v(d, a / k, 1e-6, "div-assign");
    same_v(a.scale_components(b.x, b.y, b.z), Vector3D::new(a.x * b.x, a.y * b.y, a.z * b.z), 1e-9, "componentwise scaling");
    let p: Point3D = a.as_point3d();
    same_p(p + b, (a + b).as_point3d(), 1e-9, "moving a point");
    same_p(p - b, (a - b).as_point3d(), 1e-9, "moving a point back");
    same_v(p - b.as_point3d(), a - b, 1e-9, "difference of points");
    close(a * b.as_point3d(), a * b, 1e-9, "projection of a point");
    let (e, f) = (a.as_point3d(), b.as_point3d());
    close(e.squared_distance(f), (a - b) * (a - b), 1e-6, "squared distance");
}
fn vec_length() {
    let a = v3("a", 10.0);
    let l = a.length();
    le(0.0, l, 0.0, "length is not negative");
    close(l * l, a * a, 1e-6, "length squared");
    let (p, q) = (p3("p", 10.0), p3("q", 10.0));
    let d = p.distance(q);
    le(0.0, d, 0.0, "distance is not negative");
    close(d * d, p.squared_distance(q), 1e-6, "distance squared");
    close(q.distance(p), d, 1e-6, "distance is symmetric");
}
fn vec_normalize() {
    let a = v3("a", 10.0);
    assume_le(1e-4, a * a);
    let n = a.get_normalized();
    close(n * n, 1.0, 1e-6, "unit length");
    same_v(n * a.length(), a, 1e-6, "same direction");
    let mut m = a;
    m.normalize();
    same_v(m, n, 1e-9, "in-place version");
}
fn vec_perpendicular() {
    let a = v3("a", 10.0);
    match choose("zero", 4) {
        1 => assume_eq(a.x, 0.0),
        2 => {
            assume_eq(a.x, 0.0);
            assume_eq(a.y, 0.0)
        }
        3 => assume_eq(a.y, 0.0),
        _ => {}
    }
    assume_le(1e-4, a * a);
    let p = a.get_perpendicular();
    check(p.is_ok(), "defined for every vector that is not zero");
    if let Ok(p) = p {
        close(p * a, 0.0, 1e-6, "perpendicular");
        close(p * p, 1.0, 1e-6, "unit length");
    }
}
fn vec_perpendicular_zero() {
    let x = sym("x", 0.0, 1.0);
    check(Vector3D::new(x * 0.0, 0.0, 0.0).get_perpendicular().is_err(), "there is no perpendicular to zero");
    check(Vector3D::new(0.0, 0.0, 0.0).is_zero() && !Vector3D::new(0.0, x + 0.1, 0.0).is_zero(), "is_zero");
    let o = |i: usize, v: Float| Point3D::new(if i == 0 { v } else { 0.0 }, if i == 1 { v } else { 0.0 }, if i == 2 { v } else { 0.0 });
    let i = choose("coordinate", 3);
    check(o(i, 0.0).is_zero() && !o(i, x + 0.1).is_zero() && !o(i, -x - 0.1).is_zero(), "only the origin is at the origin");
}
fn plane_point() {
    let n = unit("n");
    let a = p3("a", 10.0);
    let p = p3("p", 10.0);
    let d = p.distance_to_plane(a, n);
    close(d, dot(p - a, n), 1e-6, "signed distance to the plane");
    let q = p.project_into_plane(a, n);
    close(dot(q - a, n), 0.0, 1e-6, "projection lies on the plane");
    same_v(p - q, n * d, 1e-6, "projection moves along the normal");
    let pl = Plane3D::new(a, n);
    check(pl.test_point(a), "the anchor is on the plane");
    let s = sym("s", -10.0, 10.0);
    let off = pl.test_point(a + n * s);
    if s.abs() > 1e-6 {
        check(!off, "points off the plane are not on it");
    }
}
fn plane_ray() {
    drop_div_zero();
    let n = unit("n");
    let a = p3("a", 10.0);
    let r = Ray3D { origin: p3("o", 10.0), direction: v3("d", 1.0) };
    let pl = Plane3D::new(a, n);
    let den = dot(n, r.direction);
    let side = dot(a - r.origin, n);
    match pl.intersect(&r) {
        Some(t) => {
            le(0.0, t, 0.0, "hits in front of the origin");
            // the point at t is on the plane
            close(dot(r.origin - a, n) + t * den, 0.0, 1e-6, "hits on the plane");
        }
        None => check(den.abs() < 1e-9 || side * den <= 0.0, "misses only if parallel or behind"),
    }
    let t = sym("t", 0.0, 10.0);
    same_p(r.project(t), r.origin + r.direction * t, 1e-9, "point at a distance along a ray");
    let mut q = r;
    q.advance(t);
    same_p(q.origin, r.project(t), 1e-9, "advancing a ray moves its origin");
    same_v(q.direction, r.direction, 1e-9, "advancing a ray keeps its direction");
}
fn line_distance() {
    drop_div_zero();
    let a = p3("a", 5.0);
    let u = unit("u");
    let len = sym("len", 0.1, 10.0);
    let b = a + u * len;
    let p = p3("p", 5.0);
    let w = p - a;
    let along = dot(w, u);
    let d2 = p.squared_distance_to_line(a, b);
    close(d2, dot(w, w) - along * along, 1e-5, "squared distance to a line (Pythagoras)");
    le(0.0, d2, 1e-7, "squared distance is not negative");
}
fn segment_basic() {
    let (a, b) = (p3("a", 10.0), p3("b", 10.0));
    let s = Segment3D::new(a, b);
    same_p(s.start(), a, 0.0, "start");
    same_p(s.end(), b, 0.0, "end");
    same_v(s.as_vector3d(), b - a, 1e-9, "direction");
    same_v(s.as_reversed_vector3d(), a - b, 1e-9, "reversed direction");
    close(s.length() * s.length(), a.squared_distance(b), 1e-6, "length");
    same_p(s.midpoint(), Point3D::new((a.x + b.x) * 0.5, (a.y + b.y) * 0.5, (a.z + b.z) * 0.5), 1e-9, "midpoint");
    check(s.compare(&s), "equal to itself");
    check(s.compare(&Segment3D::new(b, a)), "equal to its reverse");
}
/// two segments in a plane: they cross exactly where the signed areas say
fn segment_cross() {
    drop_div_zero();
    let ax = choose("plane", 3);
    let mk = |x: Float, y: Float| match ax {
        0 => Point3D::new(x, y, 1.5),
        1 => Point3D::new(1.5, x, y),
        _ => Point3D::new(x, 1.5, y),
    };
    let a = (sym("ax", -10.0, 10.0), sym("ay", -10.0, 10.0));
    let b = (a.0 + sym("ux", 0.5, 10.0), a.1);
    let c = (sym("cx", -10.0, 10.0), sym("cy", -10.0, 10.0));
    let d = (c.0 + sym("wx", -10.0, 10.0), c.1 + sym("wy", 0.5, 10.0));
    let s = Segment3D::new(mk(a.0, a.1), mk(b.0, b.1));
    let r = Segment3D::new(mk(c.0, c.1), mk(d.0, d.1));
    let mut out = Point3D::new(0.0, 0.0, 0.0);
    // horizontal segment: parameter along r where it crosses the line y = ay
    let tb = (a.1 - c.1) / (d.1 - c.1);
    let x = c.0 + tb * (d.0 - c.0);
    let hit = s.touches(&r, &mut out);
    let inside = tb >= 0.0 && tb <= 1.0 && x >= a.0 && x <= b.0;
    check(hit == inside, "segments touch exactly when they share a point");
    if hit {
        same_p(out, mk(x, a.1), 1e-6, "the point they share");
    }
    let mut out2 = Point3D::new(0.0, 0.0, 0.0);
    let hit2 = s.intersect(&r, &mut out2);
    if tb > 1e-6 && tb < 1.0 - 1e-6 && x >= a.0 && x <= b.0 {
        check(hit2, "segments that cross are reported");
    }
    if hit2 {
        same_p(out2, mk(x, a.1), 1e-6, "the point where they cross");
    } else {
        check(!(tb > 1e-6 && tb < 1.0 - 1e-6 && x > a.0 && x < b.0), "no crossing is missed");
    }
}
fn segment_contains() {
    let a = p3("a", 5.0);
    let u = unit("u");
    let len = 2.0;
    let s = Segment3D::new(a, a + u * len);
    let t = sym("t", -5.0, 5.0);
    let k = sym("k", 0.0, 3.0);
    let n = u.get_perpendicular().unwrap();
    let p = a + u * t + n * k;
    let r = s.contains_point(p);
    check(r.is_ok(), "defined");
    let got = r.unwrap_or(false);
    if k == 0.0 && t > 0.0 && t < len {
        check(got, "points of the segment are contained");
    }
    // points at an end count as collinear within the crate's 1 mm tolerance
    if k > 0.01 || t < -0.01 || t > len + 0.01 {
        check(!got, "points away from the segment are not contained");
    }
}
fn collinear() {
    let a = p3("a", 5.0);
    let u = unit("u");
    let (s, t) = (sym("s", 0.01, 5.0), sym("t", 0.01, 5.0));
    let b = a + u * s;
    let c = b + u * t;
    check(a.is_collinear(b, c) == Ok(true), "points of a line are collinear");
    check(c.is_collinear(a, b) == Ok(true), "in any order");
    let n = u.get_perpendicular().unwrap();
    let h = sym("h", 0.05, 5.0);
    check(a.is_collinear(b, c + n * h) == Ok(false), "points off the line are not");
}
fn triangle_measures() {
    let o = p3("o", 5.0);
    let w = sym("w", 0.5, 10.0);
    let (sx, h) = (sym("sx", -5.0, 5.0), sym("h", 0.5, 10.0));
    let (e1, e2) = [
        (Vector3D::x(), Vector3D::y()),
        (Vector3D::y(), Vector3D::z()),
        (Vector3D::new(0.6, 0.0, 0.8), Vector3D::y()),
    ][choose("frame", 3)];
    let (a, b, c) = (o, o + e1 * w, o + e1 * sx + e2 * h);
    let t = Triangle3D::new(a, b, c);
    check(t.is_ok(), "accepted");
    if let Ok(t) = t {
        let n = t.normal();
        same_v(n, e1.cross(e2), 1e-6, "the normal follows the right hand rule");
        let g = t.centroid();
        same_v((g - a) + (g - b) + (g - c), Vector3D::new(0.0, 0.0, 0.0), 1e-6, "centroid");
        let bb = t.bounds();
        for v in [a, b, c] {
            check(bb.point_inside(v), "the bounds contain every vertex");
        }
    }
}
fn triangle_area() {
    let w = [1.0, 2.5, 0.3][choose("w", 3)];
    let (sx, h) = (sym("sx", -5.0, 5.0), sym("h", 0.5, 10.0));
    let o = Point3D::new(1.0, 2.0, 3.0);
    let t = Triangle3D::new(o, o + Vector3D::x() * w, o + Vector3D::x() * sx + Vector3D::y() * h).unwrap();
    let s = t.area();
    le(0.0, s, 0.0, "area is not negative");
    close(s * s, w * w * h * h * 0.25, 1e-3, "area");
}
fn triangle_circumcentre() {
    drop_div_zero();
    let o = p3("o", 5.0);
    let w = sym("w", 0.5, 10.0);
    let (sx, h) = (sym("sx", -5.0, 5.0), sym("h", 0.5, 10.0));
    let (a, b, c) = (o, o + Vector3D::x() * w, o + Vector3D::x() * sx + Vector3D::y() * h);
    let t = Triangle3D::new(a, b, c).unwrap();
    let q = t.circumcenter();
    close(q.squared_distance(a), q.squared_distance(b), 1e-4, "as far from a as from b");
    close(q.squared_distance(a), q.squared_distance(c), 1e-4, "as far from a as from c");
}
fn triangle_degenerate() {
    let a = p3("a", 5.0);
    let u = unit("u");
    let (s, t) = (sym("s", 0.0, 5.0), sym("t", -5.0, 5.0));
    check(Triangle3D::new(a, a + u * s, a + u * t).is_err(), "collinear vertices are refused");
}
fn triangle_point() {
    let o = p3("o", 5.0);
    let (e1, e2) = [
        (Vector3D::x() * 2.0, Vector3D::y() * 3.0),
        (Vector3D::new(1.0, 0.0, 0.0), Vector3D::new(1.0, 2.0, 0.0)),
        (Vector3D::new(0.0, 2.0, 1.0), Vector3D::new(3.0, -1.0, 0.5)),
    ][choose("shape", 3)];
    let t = Triangle3D::new(o, o + e1, o + e2).unwrap();
    let (al, be) = (sym("al", -3.0, 3.0), sym("be", -3.0, 3.0));
    match choose("on", 4) {
        1 => assume_eq(al, 0.0),
        2 => assume_eq(be, 0.0),
        3 => assume_eq(al + be, 1.0),
        _ => {}
    }
    let p = o + e1 * al + e2 * be;
    let r = t.test_point(p);
    let w = 1.0 - al - be;
    let e = 1e-9;
    if al > e && be > e && w > e {
        check(r == PointInTriangle::Inside, "strictly inside");
    } else if al < -e || be < -e || w < -e {
        check(r == PointInTriangle::Outside, "strictly outside");
    } else if al == 0.0 && be > e && w > e {
        check(r == PointInTriangle::EdgeAC, "on the edge AC");
    } else if be == 0.0 && al > e && w > e {
        check(r == PointInTriangle::EdgeAB, "on the edge AB");
    } else if w == 0.0 && al > e && be > e {
        check(r == PointInTriangle::EdgeBC, "on the edge BC");
    } else if al == 0.0 && be == 0.0 {
        check(r == PointInTriangle::VertexA, "on the vertex A");
    } else if al == 1.0 && be == 0.0 {
        check(r == PointInTriangle::VertexB, "on the vertex B");
    } else if al == 0.0 && be == 1.0 {
        check(r == PointInTriangle::VertexC, "on the vertex C");
    } else {
        check(r != PointInTriangle::Inside || al.abs() < 1e-6 || be.abs() < 1e-6 || w.abs() < 1e-6, "-");
    }
}

// ------------------------------------------------------------------ G02
fn any_transform(n: &str) -> Transform {
    match choose(n, 5) {
        0 => Transform::translate(sym(&format!("{n}x"), -5.0, 5.0), sym(&format!("{n}y"), -5.0, 5.0), sym(&format!("{n}z"), -5.0, 5.0)),
        1 => Transform::scale(sym(&format!("{n}sx"), 0.25, 4.0), sym(&format!("{n}sy"), -4.0, -0.25), sym(&format!("{n}sz"), 0.25, 4.0)),
        2 => Transform::rotate_x(sym(&format!("{n}r"), -180.0, 180.0)),
        3 => Transform::rotate_y(sym(&format!("{n}r"), -180.0, 180.0)),
        _ => Transform::rotate_z(sym(&format!("{n}r"), -180.0, 180.0)),
    }
}
fn tr_single() {
    let t = any_transform("t");
    let p = p3("p", 5.0);
    let v = v3("v", 5.0);
    same_p(t.inv_transform_pt(t.transform_pt(p)), p, 1e-6, "the inverse undoes a transform of points");
    same_p(t.transform_pt(t.inv_transform_pt(p)), p, 1e-6, "a transform undoes its inverse");
    same_v(t.inv_transform_vec(t.transform_vec(v)), v, 1e-6, "the inverse undoes a transform of vectors");
    let q = p + v;
    same_v(t.transform_pt(q) - t.transform_pt(p), t.transform_vec(v), 1e-6, "vectors transform as differences of points");
    same_v(t.inv_transform_pt(q) - t.inv_transform_pt(p), t.inv_transform_vec(v), 1e-6, "same for the inverse");
}
fn tr_rotation() {
    let a = sym("a", -180.0, 180.0);
    let (t, axis) = match choose("t", 3) {
        0 => (Transform::rotate_x(a), Vector3D::x()),
        1 => (Transform::rotate_y(a), Vector3D::y()),
        _ => (Transform::rotate_z(a), Vector3D::z()),
    };
    let (v, w) = (v3("v", 5.0), v3("w", 5.0));
    close(t.transform_vec(v) * t.transform_vec(w), v * w, 1e-5, "rotations keep lengths and angles");
    same_v(t.transform_vec(v).cross(t.transform_vec(w)), t.transform_vec(v.cross(w)), 1e-5, "rotations keep handedness");
    same_v(t.transform_vec(axis), axis, 1e-9, "rotations keep their axis");
}
fn tr_rotation_direction() {
    // a quarter of a turn, counter clockwise seen from the tip of the axis
    let s = sym("s", 0.5, 2.0);
    same_v(Transform::rotate_x(90.0).transform_vec(Vector3D::y() * s), Vector3D::z() * s, 1e-6, "x turns y into z");
    same_v(Transform::rotate_y(90.0).transform_vec(Vector3D::z() * s), Vector3D::x() * s, 1e-6, "y turns z into x");
    same_v(Transform::rotate_z(90.0).transform_vec(Vector3D::x() * s), Vector3D::y() * s, 1e-6, "z turns x into y");
}
fn tr_meaning() {
    let p = p3("p", 5.0);
    let d = v3("d", 5.0);
    same_p(Transform::translate(d.x, d.y, d.z).transform_pt(p), p + d, 1e-9, "translation");
    same_v(Transform::translate(d.x, d.y, d.z).transform_vec(d), d, 1e-9, "translation leaves vectors alone");
    let s = Vector3D::new(sym("sx", 0.25, 4.0), sym("sy", 0.25, 4.0), sym("sz", -4.0, -0.25));
    same_p(Transform::scale(s.x, s.y, s.z).transform_pt(p), Point3D::new(p.x * s.x, p.y * s.y, p.z * s.z), 1e-9, "scaling");
    same_p(Transform::new().transform_pt(p), p, 1e-9, "identity");
    check(Transform::scale(s.x, s.y, s.z).changes_hands(), "an odd number of reflections changes hands");
    check(!Transform::scale(s.x, s.y, -s.z).changes_hands(), "no reflection");
}
fn tr_compose() {
    let a = any_transform("t");
    let b = any_transform("u");
    let p = p3("p", 5.0);
    let v = v3("v", 5.0);
    let mut c = a.clone();
    c *= b.clone();
    same_p(c.transform_pt(p), a.transform_pt(b.transform_pt(p)), 1e-5, "composition applies the right one first");
    same_p(c.inv_transform_pt(p), b.inv_transform_pt(a.inv_transform_pt(p)), 1e-5, "inverse of a composition");
    same_v(c.inv_transform_vec(v), b.inv_transform_vec(a.inv_transform_vec(v)), 1e-5, "inverse of a composition, vectors");
}
fn tr_normal() {
    // normals stay perpendicular to the surface they belong to
    let t = any_transform("t");
    let u = v3("u", 5.0);
    let n = v3("n", 5.0);
    assume_eq(u * n, 0.0);
    close(t.transform_normal(n) * t.transform_vec(u), 0.0, 1e-6, "transformed normal is perpendicular to transformed tangents");
    close(t.inv_transform_normal(n) * t.inv_transform_vec(u), 0.0, 1e-6, "same for the inverse");
}
fn tr_bbox() {
    let t = any_transform("t");
    let m = p3("m", 5.0);
    let s = (sym("lx", 0.0, 5.0), sym("ly", 0.0, 5.0), sym("lz", 0.0, 5.0));
    let b = BBox3D::new(m, Point3D::new(m.x + s.0, m.y + s.1, m.z + s.2));
    // any corner
    let k = choose("corner", 8);
    let c = Point3D::new(
        if k & 1 == 0 { m.x } else { m.x + s.0 },
        if k & 2 == 0 { m.y } else { m.y + s.1 },
        if k & 4 == 0 { m.z } else { m.z + s.2 },
    );
    let q = t.transform_pt(c);
    let r = t.transform_bbox(b);
    inside(&r, q, "a transformed box contains the transformed corners");
}
fn inside(b: &BBox3D, p: Point3D, l: &str) {
    le(b.min.x, p.x, 1e-6, l);
    le(b.min.y, p.y, 1e-6, l);
    le(b.min.z, p.z, 1e-6, l);
    le(p.x, b.max.x, 1e-6, l);
    le(p.y, b.max.y, 1e-6, l);
    le(p.z, b.max.z, 1e-6, l);
}
fn tr_ray() {
    let t = any_transform("t");
    let r = Ray3D { origin: p3("o", 5.0), direction: unit("d") };
    for inv in [false, true] {
        let (q, _, _) = if inv { t.inv_transform_ray(&r) } else { t.transform_ray(&r) };
        let d = if inv { t.inv_transform_vec(r.direction) } else { t.transform_vec(r.direction) };
        let o = if inv { t.inv_transform_pt(r.origin) } else { t.transform_pt(r.origin) };
        same_v(q.direction, d, 1e-6, "direction of a transformed ray");
        // the origin may be nudged along the ray, to leave the surface it starts on
        same_v((q.origin - o).cross(d), Vector3D::new(0.0, 0.0, 0.0), 1e-6, "the origin of a transformed ray is on the transformed line");
    }
}
fn tr_error() {
    // whatever is within the error given is, once transformed, within the error reported
    let mut t = Transform::translate(sym("tx", -5.0, 5.0), sym("ty", -5.0, 5.0), sym("tz", -5.0, 5.0));
    t *= match choose("t", 4) {
        0 => Transform::scale(sym("sx", 0.25, 4.0), sym("sy", -4.0, -0.25), sym("sz", 0.25, 4.0)),
        1 => Transform::rotate_x(sym("r", -180.0, 180.0)),
        2 => Transform::rotate_y(sym("r", -180.0, 180.0)),
        _ => Transform::rotate_z(sym("r", -180.0, 180.0)),
    };
    let p = p3("p", 5.0);
    // the corner of the box of the error
    let e = Point3D::new(sym("ex", 0.0, 2.0), sym("ey", 0.0, 2.0), sym("ez", 0.0, 2.0));
    let d = match choose("corner", 2) {
        0 => Vector3D::new(e.x, e.y, e.z),
        _ => Vector3D::new(e.x, -e.y, -e.z),
    };
    let bounds = |d: Vector3D, e: Point3D, l: &str| {
        le(d.x.abs(), e.x, 1e-9, l);
        le(d.y.abs(), e.y, 1e-9, l);
        le(d.z.abs(), e.z, 1e-9, l);
    };
    match choose("what", 4) {
        0 => {
            let (q, eq) = t.transform_pt_propagate_error(p, e);
            bounds(t.transform_pt(p + d) - q, eq, "error of a transformed point");
            same_p(q, t.transform_pt(p), 1e-9, "a point with error is transformed like one without");
        }
        1 => {
            let (q, eq) = t.inv_transform_pt_propagate_error(p, e);
            bounds(t.inv_transform_pt(p + d) - q, eq, "error of an inverse transformed point");
            same_p(q, t.inv_transform_pt(p), 1e-9, "a point with error is inverse transformed like one without");
        }
        2 => {
            let v = Vector3D::new(p.x, p.y, p.z);
            let (q, eq) = t.transform_vec_propagate_error(v, e);
            bounds(t.transform_vec(v + d) - q, eq, "error of a transformed vector");
            same_v(q, t.transform_vec(v), 1e-9, "a vector with error is transformed like one without");
        }
        _ => {
            let v = Vector3D::new(p.x, p.y, p.z);
            let (q, eq) = t.inv_transform_vec_propagate_error(v, e);
            bounds(t.inv_transform_vec(v + d) - q, eq, "error of an inverse transformed vector");
            same_v(q, t.inv_transform_vec(v), 1e-9, "a vector with error is inverse transformed like one without");
        }
    }
}
fn tr_ray_nudge() {
    let t = match choose("t", 2) {
        0 => Transform::translate(sym("tx", -5.0, 5.0), sym("ty", -5.0, 5.0), sym("tz", -5.0, 5.0)),
        _ => Transform::scale(sym("sx", 0.25, 4.0), sym("sy", 0.25, 4.0), sym("sz", 0.25, 4.0)),
    };
    let r = Ray3D { origin: p3("o", 5.0), direction: unit("d") };
    let (q, _, _) = t.transform_ray(&r);
    same_p(q.origin, t.transform_pt(r.origin), 1e-6, "origin of a transformed ray");
    let (q, _, _) = t.inv_transform_ray(&r);
    same_p(q.origin, t.inv_transform_pt(r.origin), 1e-6, "origin of an inverse transformed ray");
}

// ------------------------------------------------------------------ G04
fn any_box(n: &str) -> (BBox3D, Point3D, Point3D) {
    let (a, b) = (p3(&format!("{n}a"), 10.0), p3(&format!("{n}b"), 10.0));
    (BBox3D::new(a, b), a, b)
}
fn bb_new() {
    let (b, p, q) = any_box("");
    for (lo, hi, x, y) in [(b.min.x, b.max.x, p.x, q.x), (b.min.y, b.max.y, p.y, q.y), (b.min.z, b.max.z, p.z, q.z)] {
        close(lo, x.min(y), 0.0, "lowest coordinate");
        close(hi, x.max(y), 0.0, "highest coordinate");
    }
    let d = b.max - b.min;
    close(b.surface_area(), 2.0 * (d.x * d.y + d.y * d.z + d.x * d.z), 1e-6, "surface area");
}
fn bb_max_extent() {
    let s = Vector3D::new(sym("x", 0.0, 10.0), sym("y", 0.0, 10.0), sym("z", 0.0, 10.0));
    let o = p3("o", 10.0);
    let b = BBox3D::new(o, o + s);
    let m = match b.max_extent() {
        BBoxAxis::X => s.x,
        BBoxAxis::Y => s.y,
        BBoxAxis::Z => s.z,
    };
    check(m >= s.x && m >= s.y && m >= s.z, "longest axis");
}
fn mk(n: &str) -> BBox3D {
    let o = p3(n, 10.0);
    let s = Vector3D::new(sym(&format!("{n}lx"), 0.0, 10.0), sym(&format!("{n}ly"), 0.0, 10.0), sym(&format!("{n}lz"), 0.0, 10.0));
    BBox3D { min: o, max: o + s }
}
fn bb_union() {
    let (a, b) = (mk("a"), mk("b"));
    let u = BBox3D::from_union(&a, &b);
    let i = BBox3D::from_intersection(&a, &b);
    for (k, lab) in [(0, "x"), (1, "y"), (2, "z")] {
        let g = |p: Point3D| match k {
            0 => p.x,
            1 => p.y,
            _ => p.z,
        };
        let _ = lab;
        close(g(u.min), g(a.min).min(g(b.min)), 0.0, "union: smallest minimum");
        close(g(u.max), g(a.max).max(g(b.max)), 0.0, "union: largest maximum");
        close(g(i.min), g(a.min).max(g(b.min)), 0.0, "intersection: largest minimum");
        close(g(i.max), g(a.max).min(g(b.max)), 0.0, "intersection: smallest maximum");
    }
}
fn bb_union_point() {
    let a = mk("a");
    let p = p3("p", 30.0);
    let u = BBox3D::from_union_point(&a, p);
    for k in 0..3 {
        let g = |p: Point3D| match k {
            0 => p.x,
            1 => p.y,
            _ => p.z,
        };
        close(g(u.min), g(a.min).min(g(p)), 0.0, "smallest minimum");
        close(g(u.max), g(a.max).max(g(p)), 0.0, "largest maximum");
    }
    let f = BBox3D::from_point(p);
    same_p(f.min, p, 0.0, "box of a point");
    same_p(f.max, p, 0.0, "box of a point");
}
fn bb_membership() {
    let a = mk("a");
    let p = p3("p", 30.0);
    let inb = a.min.x <= p.x && p.x <= a.max.x && a.min.y <= p.y && p.y <= a.max.y && a.min.z <= p.z && p.z <= a.max.z;
    check(a.point_inside(p) == inb, "membership");
    let half = a.min.x <= p.x && p.x < a.max.x && a.min.y <= p.y && p.y < a.max.y && a.min.z <= p.z && p.z < a.max.z;
    check(a.point_inside_exclusive(p) == half, "half-open membership");
}
fn bb_overlap() {
    let (a, b) = (mk("a"), mk("b"));
    let o = |al: Float, ah: Float, bl: Float, bh: Float| al <= bh && bl <= ah;
    let want = o(a.min.x, a.max.x, b.min.x, b.max.x) && o(a.min.y, a.max.y, b.min.y, b.max.y) && o(a.min.z, a.max.z, b.min.z, b.max.z);
    check(a.overlaps(&b) == want, "boxes overlap exactly when their intervals do in every axis");
    check(b.overlaps(&a) == want, "overlap is symmetric");
}
/// a ray aimed at a point of the box is never rejected
fn bb_conservative() {
    drop_div_zero();
    let b = BBox3D { min: Point3D::new(-1.0, -2.0, 0.5), max: Point3D::new(1.0, 1.0, 3.0) };
    // target strictly inside the box
    let g = |n: &str, lo: Float, hi: Float| sym(n, lo, hi);
    let p = Point3D::new(g("px", -0.999, 0.999), g("py", -1.999, 0.999), g("pz", 0.501, 2.999));
    // direction: signs by case split, component sizes symbolic
    let k = choose("signs", 8);
    let s = |bit: usize| if k & bit == 0 { 1.0 } else { -1.0 };
    let d = Vector3D::new(s(1) * g("dx", 0.05, 1.0), s(2) * g("dy", 0.05, 1.0), s(4) * g("dz", 0.05, 1.0));
    let t = sym("t", 0.001, 20.0);
    let r = Ray3D { origin: p - d * t, direction: d };
    let inv = Vector3D::new(1.0 / d.x, 1.0 / d.y, 1.0 / d.z);
    check(b.intersect(r, &inv), "a ray towards a point of the box is not rejected");
}
fn bb_slant() {
    // every direction component different from zero: the ray meets each pair of faces during an interval of time
    let b = mk("b");
    assume_le(0.1, b.max.x - b.min.x);
    assume_le(0.1, b.max.y - b.min.y);
    assume_le(0.1, b.max.z - b.min.z);
    let d = [Vector3D::new(1.0, 0.5, 2.0), Vector3D::new(-0.5, 2.0, -1.0), Vector3D::new(2.0, -1.0, -0.25), Vector3D::new(-1.0, -1.0, 0.5)][choose("d", 4)];
    let o = p3("o", 30.0);
    let inv = Vector3D::new(1.0 / d.x, 1.0 / d.y, 1.0 / d.z);
    let times = |l: Float, h: Float, v: Float, d: Float| if d > 0.0 { ((l - v) / d, (h - v) / d) } else { ((h - v) / d, (l - v) / d) };
    let t = [times(b.min.x, b.max.x, o.x, d.x), times(b.min.y, b.max.y, o.y, d.y), times(b.min.z, b.max.z, o.z, d.z)];
    let m = 1e-6;
    match choose("expect", 3) {
        0 => {
            for i in 0..3 {
                for j in 0..3 {
                    assume_le(t[i].0 + m, t[j].1);
                }
                assume_le(m, t[i].1);
            }
            check(b.intersect(Ray3D { origin: o, direction: d }, &inv), "a ray that is within the three slabs at once hits");
        }
        1 => {
            let i = choose("i", 3);
            let j = (i + 1 + choose("j", 2)) % 3;
            assume_le(t[j].1 + m, t[i].0);
            check(!b.intersect(Ray3D { origin: o, direction: d }, &inv), "a ray that leaves a slab before entering another misses");
        }
        _ => {
            let i = choose("i", 3);
            assume_le(t[i].1, -m);
            check(!b.intersect(Ray3D { origin: o, direction: d }, &inv), "a ray that left the box behind misses");
        }
    }
}
fn bb_axis_ray() {
    // rays along an axis: the other two components are zero, their inverses infinite
    let b = mk("b");
    assume_le(0.1, b.max.x - b.min.x);
    assume_le(0.1, b.max.y - b.min.y);
    assume_le(0.1, b.max.z - b.min.z);
    let ax = choose("axis", 3);
    let sg = if choose("sign", 2) == 0 { 1.0 } else { -1.0 };
    let o = p3("o", 30.0);
    let inf = 1.0 / 0.0;
    let (d, inv) = match ax {
        0 => (Vector3D::new(sg, 0.0, 0.0), Vector3D::new(sg, inf, inf)),
        1 => (Vector3D::new(0.0, sg, 0.0), Vector3D::new(inf, sg, inf)),
        _ => (Vector3D::new(0.0, 0.0, sg), Vector3D::new(inf, inf, sg)),
    };
    let (lo, hi, x) = match ax {
        0 => (b.min.x, b.max.x, o.x),
        1 => (b.min.y, b.max.y, o.y),
        _ => (b.min.z, b.max.z, o.z),
    };
    let m = 0.01;
    let within = |l: Float, h: Float, v: Float| v > l + m && v < h - m;
    let out = |l: Float, h: Float, v: Float| v < l - m || v > h + m;
    let (w, z) = match ax {
        0 => ((b.min.y, b.max.y, o.y), (b.min.z, b.max.z, o.z)),
        1 => ((b.min.x, b.max.x, o.x), (b.min.z, b.max.z, o.z)),
        _ => ((b.min.x, b.max.x, o.x), (b.min.y, b.max.y, o.y)),
    };
    let got = b.intersect(Ray3D { origin: o, direction: d }, &inv);
    let ahead = if sg > 0.0 { hi > x + m } else { lo < x - m };
    if within(w.0, w.1, w.2) && within(z.0, z.1, z.2) && ahead {
        check(got, "hits the box in front of it");
    } else if out(w.0, w.1, w.2) || out(z.0, z.1, z.2) || (sg > 0.0 && hi < x - m) || (sg < 0.0 && lo > x + m) {
        check(!got, "misses a box that is beside or behind");
    } else {
        check(true, "-");
    }
}

// ------------------------------------------------------------------ G07
fn enclosed(r: ApproxFloat, v: Float, l: &str) {
    le(r.low, v, 1e-9, l);
    le(v, r.high, 1e-9, l);
}
fn af_arith() {
    let mk = |n: &str| {
        let l = sym(&format!("{n}l"), -10.0, 10.0);
        let w = sym(&format!("{n}w"), 0.0, 5.0);
        let f = sym(&format!("{n}f"), 0.0, 1.0);
        (ApproxFloat::from_bounds(l, l + w), l + w * f)
    };
    let (a, x) = mk("a");
    let (b, y) = mk("b");
    let k = sym("k", -5.0, 5.0);
    match choose("op", 10) {
        0 => enclosed(a + b, x + y, "sum"),
        1 => enclosed(a - b, x - y, "difference"),
        2 => enclosed(-a, -x, "negation"),
        3 => {
            let mut c = a;
            c += b;
            enclosed(c, x + y, "add-assign")
        }
        4 => {
            let mut c = a;
            c -= b;
            enclosed(c, x - y, "sub-assign")
        }
        5 => enclosed(a + k, x + k, "sum with a number"),
        6 => enclosed(a - k, x - k, "difference with a number"),
        7 => enclosed(a * k, x * k, "product with a number"),
        8 => {
            let v = ApproxFloat::from_value_and_error(x, sym("e", 0.0, 3.0));
            enclosed(v, x + sym("e", 0.0, 3.0) * sym("g", -1.0, 1.0), "value and error");
            close(v.midpoint(), x, 1e-9, "midpoint");
            close(v.absolute_error(), sym("e", 0.0, 3.0), 1e-9, "absolute error");
        }
        _ => enclosed(ApproxFloat::from(k), k, "a number"),
    }
}
fn af_mul() {
    let mk = |n: &str| {
        let l = sym(&format!("{n}l"), -10.0, 10.0);
        let w = sym(&format!("{n}w"), 0.0, 5.0);
        (ApproxFloat::from_bounds(l, l + w), sym(&format!("{n}v"), -10.0, 15.0), l, w)
    };
    let (a, x, l, w) = mk("a");
    let (b, y, m, z) = mk("b");
    assume_le(l, x);
    assume_le(x, l + w);
    assume_le(m, y);
    assume_le(y, m + z);
    // sign cases keep the queries small
    match choose("sa", 3) {
        0 => assume_le(0.0, l),
        1 => assume_le(l + w, 0.0),
        _ => {
            assume_le(l, 0.0);
            assume_le(0.0, l + w)
        }
    }
    match choose("sb", 3) {
        0 => assume_le(0.0, m),
        1 => assume_le(m + z, 0.0),
        _ => {
            assume_le(m, 0.0);
            assume_le(0.0, m + z)
        }
    }
    let r = if choose("op", 2) == 0 {
        a * b
    } else {
        let mut c = a;
        c *= b;
        c
    };
    // the extreme of a bilinear function is at a corner: it suffices to look at the corners
    for (u, v) in [(l, m), (l + w, m), (l, m + z), (l + w, m + z)] {
        enclosed(r, u * v, "product of the ends");
    }
    let _ = (x, y);
}
fn af_div() {
    drop_div_zero();
    let l = sym("l", -10.0, 10.0);
    let w = sym("w", 0.0, 5.0);
    let a = ApproxFloat::from_bounds(l, l + w);
    let s = if choose("s", 2) == 0 { 1.0 } else { -1.0 };
    let m = sym("m", 0.1, 10.0);
    let z = sym("z", 0.0, 5.0);
    let b = if s > 0.0 { ApproxFloat::from_bounds(m, m + z) } else { ApproxFloat::from_bounds(-(m + z), -m) };
    let r = if choose("op", 2) == 0 {
        a / b
    } else {
        let mut c = a;
        c /= b;
        c
    };
    for u in [l, l + w] {
        for v in [m, m + z] {
            enclosed(r, s * u / v, "quotient of the ends");
        }
    }
}
fn af_sqrt() {
    let l = sym("l", 0.0, 10.0);
    let w = sym("w", 0.0, 5.0);
    let x = sym("x", 0.0, 15.0);
    assume_le(l, x);
    assume_le(x, l + w);
    enclosed(ApproxFloat::from_bounds(l, l + w).sqrt(), x.sqrt(), "square root");
}
fn af_quadratic() {
    drop_div_zero();
    // exact coefficients: a root r1 <= r2 of a(x-r1)(x-r2)
    let a = sym("a", 0.5, 4.0);
    let r1 = sym("r1", -5.0, 5.0);
    let d = sym("d", 0.1, 5.0);
    let r2 = r1 + d;
    let b = -a * (r1 + r2);
    let c = a * r1 * r2;
    let q = ApproxFloat::solve_quadratic(ApproxFloat::from(a), ApproxFloat::from(b), ApproxFloat::from(c));
    check(q.is_some(), "real roots are found");
    if let Some((x, y)) = q {
        close(x.as_float(), r1, 1e-6, "smaller root");
        close(y.as_float(), r2, 1e-6, "larger root");
    }
}
fn af_quadratic_none() {
    let a = sym("a", 0.5, 4.0);
    let b = sym("b", -5.0, 5.0);
    let c = sym("c", -5.0, 20.0);
    assume_lt(b * b + 0.01, 4.0 * a * c);
    let q = ApproxFloat::solve_quadratic(ApproxFloat::from(a), ApproxFloat::from(b), ApproxFloat::from(c));
    check(q.is_none(), "no real roots are invented");
}

fn main() {
    let mut v = vec![
        case("G01", "vec_algebra", vec_algebra),
        case("G01", "vec_length", vec_length),
        case("G01", "vec_normalize", vec_normalize),
        case("G01", "vec_perpendicular", vec_perpendicular),
        case("G01", "vec_perpendicular_zero", vec_perpendicular_zero),
        case("G01", "plane_point", plane_point),
        case("G01", "plane_ray", plane_ray),
        case("G01", "line_distance", line_distance),
        case("G01", "segment_basic", segment_basic),
        case("G01", "segment_cross", segment_cross),
        case("G01", "segment_contains", segment_contains),
        case("G01", "collinear", collinear),
        case("G01", "triangle_measures", triangle_measures),
        case("G01", "triangle_area", triangle_area),
        case("G01", "triangle_circumcentre", triangle_circumcentre),
        case("G01", "triangle_degenerate", triangle_degenerate),
        case("G01", "triangle_point", triangle_point),
        case("G02", "tr_single", tr_single),
        case("G02", "tr_rotation", tr_rotation),
        case("G02", "tr_rotation_direction", tr_rotation_direction),
        case("G02", "tr_meaning", tr_meaning),
        case("G02", "tr_compose", tr_compose),
        case("G02", "tr_normal", tr_normal),
        case("G02", "tr_bbox", tr_bbox),
        case("G02", "tr_ray", tr_ray),
        case("G02", "tr_ray_nudge", tr_ray_nudge),
        case("G02", "tr_error", tr_error),
        case("G04", "bb_new", bb_new),
        case("G04", "bb_max_extent", bb_max_extent),
        case("G04", "bb_union", bb_union),
        case("G04", "bb_union_point", bb_union_point),
        case("G04", "bb_membership", bb_membership),
        case("G04", "bb_overlap", bb_overlap),
        case("G04", "bb_conservative", bb_conservative),
        case("G04", "bb_axis_ray", bb_axis_ray),
        case("G04", "bb_slant", bb_slant),
        case("G07", "af_arith", af_arith),
        case("G07", "af_mul", af_mul),
        case("G07", "af_div", af_div),
        case("G07", "af_sqrt", af_sqrt),
        case("G07", "af_quadratic", af_quadratic),
        case("G07", "af_quadratic_none", af_quadratic_none),
    ];
    v.extend(tri::cases());
    v.extend(poly::cases());
    hx::main(v);
}
