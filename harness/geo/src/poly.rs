use crate::{p3, same_p, same_v};
use geometry::*;
use hx::*;
use std::convert::TryInto;

/// origin and two perpendicular unit vectors
fn frame(k: usize) -> (Point3D, Vector3D, Vector3D) {
    match k {
        0 => (Point3D::new(1.0, -2.0, 3.0), Vector3D::x(), Vector3D::y()),
        1 => (Point3D::new(-1.0, 2.0, 0.5), Vector3D::y(), Vector3D::z()),
        2 => (Point3D::new(0.0, 1.0, 2.0), Vector3D::z(), Vector3D::x()),
        _ => (Point3D::new(2.0, 0.0, -1.0), Vector3D::new(0.6, 0.8, 0.0), Vector3D::new(-0.48, 0.36, 0.8)),
    }
}
fn at(f: &(Point3D, Vector3D, Vector3D), x: Float, y: Float) -> Point3D {
    f.0 + f.1 * x + f.2 * y
}
fn mk(f: &(Point3D, Vector3D, Vector3D), pts: &[(Float, Float)], start: usize, rev: bool) -> Result<Loop3D, String> {
    let n = pts.len();
    let mut l = Loop3D::new();
    for i in 0..n {
        let k = if rev { (start + n - i) % n } else { (start + i) % n };
        l.push(at(f, pts[k].0, pts[k].1))?;
    }
    l.close()?;
    Ok(l)
}
/// twice the signed area of a list of points
fn shoelace(v: &[(Float, Float)]) -> Float {
    let n = v.len();
    let mut s = 0.0;
    for i in 0..n {
        let (a, b) = (v[i], v[(i + 1) % n]);
        s += a.0 * b.1 - a.1 * b.0;
    }
    s
}

fn loop_rect() {
    let f = frame(choose("frame", 3));
    let (w, h) = (sym("w", 0.5, 10.0), sym("h", 0.5, 10.0));
    let rev = choose("rev", 2) == 1;
    let pts = [(0.0, 0.0), (w, 0.0), (w, h), (0.0, h)];
    let r = mk(&f, &pts, choose("start", 4), rev);
    check(r.is_ok(), "a rectangle is accepted");
    if let Ok(l) = r {
        check(l.len() == 4 && l.closed(), "four vertices");
        close(l.area().unwrap(), w * h, 1e-5, "area");
        close(l.perimeter().unwrap(), 2.0 * (w + h), 1e-5, "perimeter");
        let n = f.1.cross(f.2);
        same_v(l.normal(), if rev { -n } else { n }, 1e-6, "the normal follows the right hand rule");
        same_p(l.centroid().unwrap(), at(&f, w * 0.5, h * 0.5), 1e-6, "centroid");
        let b = l.get_reversed();
        same_v(b.normal(), if rev { n } else { -n }, 1e-6, "reversing flips the normal");
        close(b.area().unwrap(), w * h, 1e-5, "reversing keeps the area");
        let bb = l.bbox().unwrap();
        for p in l.vertices() {
            check(bb.point_inside(*p), "the box contains the vertices");
        }
    }
}
fn loop_ell() {
    // reflex vertices, starting anywhere
    let f = frame(choose("frame", 2));
    let (w, h) = (sym("w", 2.0, 10.0), sym("h", 2.0, 10.0));
    let (a, b) = (1.0, 1.5);
    let rev = choose("rev", 2) == 1;
    let pts = [(0.0, 0.0), (w, 0.0), (w, b), (a, b), (a, h), (0.0, h)];
    let r = mk(&f, &pts, choose("start", 6), rev);
    check(r.is_ok(), "a polygon that does not cross itself is accepted");
    if let Ok(l) = r {
        check(l.len() == 6, "six vertices");
        close(l.area().unwrap(), w * b + a * (h - b), 1e-5, "area");
        close(l.perimeter().unwrap(), 2.0 * (w + h), 1e-5, "perimeter");
        let n = f.1.cross(f.2);
        same_v(l.normal(), if rev { -n } else { n }, 1e-6, "the normal follows the right hand rule");
    }
}
fn loop_tilted() {
    let f = frame(3);
    let w = sym("w", 2.0, 10.0);
    let h = [3.0, 5.0][choose("h", 2)];
    let rev = choose("rev", 2) == 1;
    let pts = [(0.0, 0.0), (w, 0.0), (w, 1.5), (1.0, 1.5), (1.0, h), (0.0, h)];
    let r = mk(&f, &pts, choose("start", 6), rev);
    check(r.is_ok(), "accepted");
    if let Ok(l) = r {
        close(l.area().unwrap(), w * 1.5 + (h - 1.5), 1e-5, "area");
        let n = f.1.cross(f.2);
        same_v(l.normal(), if rev { -n } else { n }, 1e-6, "the normal follows the right hand rule");
    }
}
fn loop_collinear() {
    // vertices in the middle of an edge do not change the shape
    let f = frame(choose("frame", 3));
    let (w, h) = (sym("w", 1.0, 10.0), sym("h", 1.0, 10.0));
    let x = sym("x", 0.1, 0.9);
    let pts = match choose("where", 4) {
        0 => [(0.0, 0.0), (w * x, 0.0), (w, 0.0), (w, h), (0.0, h)],
        1 => [(0.0, 0.0), (w, 0.0), (w, h * x), (w, h), (0.0, h)],
        2 => [(0.0, 0.0), (w, 0.0), (w, h), (w * x, h), (0.0, h)],
        _ => [(0.0, 0.0), (w, 0.0), (w, h), (0.0, h), (0.0, h * x)],
    };
    let r = mk(&f, &pts, choose("start", 5), false);
    check(r.is_ok(), "accepted");
    if let Ok(l) = r {
        check(l.len() == 4, "vertices in the middle of an edge are dropped");
        close(l.area().unwrap(), w * h, 1e-5, "area");
    }
}
fn loop_refuse() {
    let f = frame(choose("frame", 3));
    let (w, h) = (sym("w", 1.0, 10.0), sym("h", 1.0, 10.0));
    let mut l = Loop3D::new();
    l.push(at(&f, 0.0, 0.0)).unwrap();
    l.push(at(&f, w, 0.0)).unwrap();
    check(l.close().is_err(), "two points do not make a loop");
    match choose("what", 4) {
        0 => {
            // goes back through the first edge
            l.push(at(&f, w, h)).unwrap();
            let (x, y) = (sym("x", 0.1, 0.9), sym("y", 0.1, 5.0));
            check(l.push(at(&f, w * x, -y)).is_err(), "a point that makes the loop cross itself is refused");
        }
        1 => {
            l.push(at(&f, w, h)).unwrap();
            let d = sym("d", 0.001, 5.0) * if choose("sign", 2) == 0 { 1.0 } else { -1.0 };
            let p = at(&f, sym("x", -5.0, 5.0), sym("y", -5.0, 5.0)) + f.1.cross(f.2) * d;
            check(l.push(p).is_err(), "a point out of the plane is refused");
        }
        2 => {
            // bow tie: the last edge crosses
            l.push(at(&f, 0.0, h)).unwrap();
            let r = l.push(at(&f, w, h));
            check(r.is_err() || l.close().is_err(), "a loop that crosses itself is not closed");
        }
        _ => {
            l.push(at(&f, w, h)).unwrap();
            l.close().unwrap();
            check(l.push(at(&f, 0.0, h)).is_err(), "a closed loop does not take more points");
            let o = Loop3D::new();
            check(o.area().is_err() && o.perimeter().is_err() && o.centroid().is_err() && o.test_point(f.0).is_err(), "open loops have no area");
        }
    }
}
fn shape(k: usize) -> Vec<(Float, Float)> {
    match k {
        0 => vec![(0.0, 0.0), (4.0, 0.0), (4.0, 3.0), (0.0, 3.0)],
        1 => vec![(0.0, 0.0), (4.0, 0.0), (1.0, 3.0)],
        2 => vec![(0.0, 0.0), (4.0, 0.0), (4.0, 1.0), (1.0, 1.0), (1.0, 3.0), (0.0, 3.0)],
        3 => vec![(0.0, 0.0), (30.0, 0.0), (30.0, 20.0), (0.0, 20.0)],
        _ => vec![(0.0, 0.0), (4.0, 0.0), (4.0, 4.0), (3.0, 4.0), (3.0, 1.0), (1.0, 1.0), (1.0, 4.0), (0.0, 4.0)],
    }
}
/// the convex pieces of each shape, as (lower corner, upper corner), or none if it is the triangle
fn pieces(k: usize) -> Vec<(Float, Float, Float, Float)> {
    match k {
        0 => vec![(0.0, 0.0, 4.0, 3.0)],
        2 => vec![(0.0, 0.0, 4.0, 1.0), (0.0, 0.0, 1.0, 3.0)],
        3 => vec![(0.0, 0.0, 30.0, 20.0)],
        _ => vec![(0.0, 0.0, 4.0, 1.0), (0.0, 0.0, 1.0, 4.0), (3.0, 0.0, 4.0, 4.0)],
    }
}
fn loop_point(k: usize, frames: usize, starts: usize) {
    drop_div_zero();
    let f = frame(choose("frame", frames));
    let pts = shape(k);
    let n = pts.len();
    let l = mk(&f, &pts, choose("start", starts.min(n)), choose("rev", 2) == 1).unwrap();
    let (w, h) = if k == 3 { (30.0, 20.0) } else { (4.0, 4.0) };
    let (x, y) = (sym("x", -1.0, w + 1.0), sym("y", -1.0, h + 1.0));
    let m = 0.01;
    // expected answer first, so that it does not multiply the paths
    let expect = choose("in", 2) == 0;
    if k == 1 {
        // edges: y = 0, y = 3x, y = 4 - x
        if expect {
            assume_le(m, y);
            assume_le(m, 3.0 * x - y);
            assume_le(m, 4.0 - x - y);
        } else {
            match choose("side", 3) {
                0 => assume_le(y, -m),
                1 => assume_le(3.0 * x - y, -m * 4.0),
                _ => assume_le(4.0 - x - y, -m * 2.0),
            }
        }
    } else {
        let ps = pieces(k);
        if expect {
            let (a, b, c, d) = ps[choose("piece", ps.len())];
            assume_le(a + m, x);
            assume_le(x, c - m);
            assume_le(b + m, y);
            assume_le(y, d - m);
        } else {
            for (i, (a, b, c, d)) in ps.into_iter().enumerate() {
                match choose(&format!("beside{i}"), 4) {
                    0 => assume_le(x, a - m),
                    1 => assume_le(c + m, x),
                    2 => assume_le(y, b - m),
                    _ => assume_le(d + m, y),
                }
            }
        }
    }
    let got = l.test_point(at(&f, x, y));
    check(got == Ok(expect), if expect { "points inside are inside" } else { "points outside are outside" });
}
fn point_rect() {
    loop_point(0, 2, 2)
}
fn point_triangle() {
    loop_point(1, 1, 3)
}
fn point_ell() {
    loop_point(2, 1, 2)
}
fn point_large() {
    loop_point(3, 1, 1)
}
fn point_u() {
    loop_point(4, 1, 1)
}
fn point_plane() {
    let f = frame(choose("frame", 3));
    let l = mk(&f, &shape(0), 0, false).unwrap();
    let d = sym("d", 0.001, 5.0) * if choose("sign", 2) == 0 { 1.0 } else { -1.0 };
    let p = at(&f, sym("x", -1.0, 5.0), sym("y", -1.0, 5.0)) + f.1.cross(f.2) * d;
    check(l.test_point(p) == Ok(false), "points out of the plane are outside");
}

/// a room of 10 x 8 with a hole
fn outer(f: &(Point3D, Vector3D, Vector3D)) -> Polygon3D {
    let l = mk(f, &[(0.0, 0.0), (10.0, 0.0), (10.0, 8.0), (0.0, 8.0)], 0, false).unwrap();
    Polygon3D::new(l).unwrap()
}
fn hole_pts(k: usize, x: Float, y: Float) -> Vec<(Float, Float)> {
    match k {
        0 => vec![(x, y), (x + 1.0, y), (x + 1.0, y + 2.0), (x, y + 2.0)],
        1 => vec![(x, y), (x + 2.0, y), (x + 1.0, y + 1.0)],
        _ => vec![(x, y), (x + 2.0, y), (x + 3.0, y + 1.0), (x + 1.0, y + 2.0), (x, y + 1.0)],
    }
}
fn hole_area() {
    let f = frame(choose("frame", 2));
    let mut p = outer(&f);
    let (x, y) = (sym("x", 1.0, 6.0), [1.0, 5.0][choose("y", 2)]);
    let pts = hole_pts(choose("hole", 2), x, y);
    let h = mk(&f, &pts, 0, choose("rev", 2) == 1).unwrap();
    let r = p.cut_hole(h);
    check(r.is_ok(), "a hole inside the polygon is accepted");
    close(p.area(), 80.0 - shoelace(&pts) * 0.5, 1e-5, "the area of the hole is taken away");
    check(p.n_inner_loops() == 1, "one hole");
    same_v(p.normal(), f.1.cross(f.2), 1e-6, "the normal does not change");
}
fn hole_refused() {
    let f = frame(choose("frame", 2));
    let mut p = outer(&f);
    // partly or completely outside
    let (x, y) = match choose("side", 4) {
        0 => (sym("x", 9.1, 12.0), 3.0),
        1 => (sym("x", -4.0, -0.1), 3.0),
        2 => (3.0, sym("y", 6.1, 9.0)),
        _ => (3.0, sym("y", -4.0, -0.1)),
    };
    let h = mk(&f, &hole_pts(0, x, y), 0, false).unwrap();
    check(p.cut_hole(h).is_err(), "a hole that is not inside the polygon is refused");
    close(p.area(), 80.0, 1e-9, "and the polygon is left as it was");
    check(p.n_inner_loops() == 0, "and the polygon is left as it was");
    // another plane
    let g = (f.0 + f.1 * 3.0 + f.2 * 3.0, f.1, f.1.cross(f.2));
    let h = mk(&g, &hole_pts(0, 0.0, 0.0), 0, false).unwrap();
    check(p.cut_hole(h).is_err(), "a hole in another plane is refused");
}
fn hole_point() {
    drop_div_zero();
    let f = frame(0);
    let mut p = outer(&f);
    p.cut_hole(mk(&f, &hole_pts(0, 4.0, 3.0), 0, choose("rev", 2) == 1).unwrap()).unwrap();
    let (x, y) = (sym("x", 0.1, 9.9), sym("y", 0.1, 7.9));
    let m = 0.01;
    let expect = choose("in", 2) == 0;
    if expect {
        match choose("beside", 4) {
            0 => assume_le(x, 4.0 - m),
            1 => assume_le(5.0 + m, x),
            2 => assume_le(y, 3.0 - m),
            _ => assume_le(5.0 + m, y),
        }
    } else {
        assume_le(4.0 + m, x);
        assume_le(x, 5.0 - m);
        assume_le(3.0 + m, y);
        assume_le(y, 5.0 - m);
    }
    check(p.test_point(at(&f, x, y)) == Ok(expect), "points in the hole are not in the polygon, all others are");
}
/// one loop that goes around the holes
fn hole_loop() {
    let f = frame(choose("frame", 2));
    let mut p = outer(&f);
    let (x, y) = (sym("x", 1.0, 1.2), sym("y", 1.0, 1.1));
    let pts = hole_pts(choose("hole", 3), x, y);
    let n = pts.len();
    p.cut_hole(mk(&f, &pts, choose("start", n), choose("rev", 2) == 1).unwrap()).unwrap();
    let l = p.get_closed_loop();
    check(l.len() == 4 + n + 2, "goes around the hole and comes back");
    // signed area of the loop
    let mut v = vec![];
    for q in l.vertices() {
        let d = *q - f.0;
        v.push((d * f.1, d * f.2));
    }
    close(shoelace(&v) * 0.5, 80.0 - shoelace(&pts) * 0.5, 1e-5, "the loop encloses the area of the polygon");
    for q in pts.iter() {
        let q = at(&f, q.0, q.1);
        check(l.vertices().iter().any(|a| a.squared_distance(q) < 1e-6), "every vertex of the hole is in the loop");
    }
}
fn split() {
    let f = frame(choose("frame", 2));
    let (w, h) = (6.0, 4.0);
    let l = mk(&f, &[(0.0, 0.0), (w, 0.0), (w, h), (0.0, h)], 0, choose("rev", 2) == 1).unwrap();
    let (a, b) = (sym("a", 0.5, 5.5), sym("b", 0.5, 5.5));
    let s = Segment3D::new(at(&f, a, -1.0), at(&f, b, h + 1.0));
    let r = l.split(&s).unwrap();
    check(r.len() == 2, "a segment across a rectangle makes two pieces");
    let mut t = 0.0;
    for q in &r {
        t += q.area().unwrap();
        check(q.normal() * l.normal() > 0.0, "the pieces face the same way");
    }
    close(t, w * h, 1e-5, "the pieces add up to the whole");
    let far = Segment3D::new(at(&f, a + 20.0, -1.0), at(&f, b + 20.0, h + 1.0));
    let r = l.split(&far).unwrap();
    check(r.len() == 1, "a segment that does not touch it leaves it whole");
}

// ------------------------------------------------------------------ G06
/// the triangles face the way the polygon does and add up to its area
fn covers(f: &(Point3D, Vector3D, Vector3D), t: &[Triangle3D], area: Float) {
    let n = f.1.cross(f.2);
    let mut sum = 0.0;
    for k in t {
        let x = (k.b() - k.a()).cross(k.c() - k.a()) * n;
        lt(0.0, x, "every triangle faces the way the polygon does");
        sum += x * 0.5;
    }
    close(sum, area, 1e-5, "the triangles add up to the polygon");
}
fn tri_of(p: &Polygon3D) -> Option<Vec<Triangle3D>> {
    let r: Result<Triangulation3D, String> = p.try_into();
    check(r.is_ok(), "the polygon is triangulated");
    r.ok().map(|t| {
        check(t.n_triangles() == t.n_valid_triangles() && t.len() == t.n_triangles(), "every triangle is valid");
        t.get_trilist()
    })
}
fn tri_plain() {
    drop_div_zero();
    let f = frame(choose("frame", 2));
    let d = sym("d", 0.0, 0.5);
    let pts: Vec<(Float, Float)> = match choose("shape", 4) {
        0 => vec![(0.0, 0.0), (4.0 + d, 0.0), (4.0 + d, 3.0), (0.0, 3.0)],
        1 => vec![(0.0, 0.0), (4.0, 0.0), (4.0, 1.0 + d), (1.0, 1.0 + d), (1.0, 3.0), (0.0, 3.0)],
        2 => vec![(0.0, 0.0), (4.0, 0.0), (4.0, 4.0), (3.0, 4.0), (3.0, 1.0 + d), (1.0, 1.0 + d), (1.0, 4.0), (0.0, 4.0)],
        _ => vec![(0.0, 0.0), (4.0, -1.0), (5.0, 2.0 + d), (2.0, 4.0), (1.0, 2.5)],
    };
    let n = pts.len();
    let l = mk(&f, &pts, choose("start", n), false).unwrap();
    let area = shoelace(&pts) * 0.5;
    let p = Polygon3D::new(l).unwrap();
    if let Some(t) = tri_of(&p) {
        check(t.len() == n - 2, "two triangles less than vertices");
        covers(&f, &t, area);
        for k in &t {
            for v in [k.a(), k.b(), k.c()] {
                check(p.outer().vertices().iter().any(|q| q.squared_distance(v) < 1e-9), "the corners of the triangles are vertices of the polygon");
            }
        }
    }
}
fn tri_hole() {
    drop_div_zero();
    let f = frame([0, 3][choose("frame", if thorough() { 2 } else { 1 })]);
    let mut p = outer(&f);
    let x = sym("x", 3.0, 3.02);
    let y = [0.5, 3.0, 5.5][choose("y", 3)];
    let pts = hole_pts(choose("hole", 3), x, y);
    p.cut_hole(mk(&f, &pts, 0, choose("rev", 2) == 1).unwrap()).unwrap();
    // merging a loop around the hole may fail, in which case the polygon is refused
    let r: Result<Triangulation3D, String> = (&p).try_into();
    if let Ok(t) = r {
        let t = t.get_trilist();
        check(t.len() == 4 + pts.len(), "two triangles more than vertices for a polygon with a hole");
        covers(&f, &t, 80.0 - shoelace(&pts) * 0.5);
    }
}
fn tri_point() {
    drop_div_zero();
    let f = frame([0, 3][choose("frame", if thorough() { 2 } else { 1 })]);
    let l = mk(&f, &[(0.0, 0.0), (4.0, 0.0), (4.0, 3.0), (0.0, 3.0)], 0, false).unwrap();
    let p = Polygon3D::new(l).unwrap();
    let mut t: Triangulation3D = (&p).try_into().unwrap();
    // on either side of the diagonal, or on it, or on the border
    let s = sym("s", 0.5, 1.9);
    let (x, y) = match choose("where", 5) {
        0 => (s, 2.0),
        1 => (3.0 + s * 0.5, 1.0),
        2 => (s * 4.0 / 3.0, s),
        3 => (4.0, s),
        _ => (2.0 + s, 3.0),
    };
    let extra = if (x == 4.0) || (y == 3.0) { 1 } else { 2 };
    let q = at(&f, x, y);
    let r = t.add_point(q);
    check(r == Ok(true), "a point inside is added");
    let l = t.get_trilist();
    check(l.len() == 2 + extra && t.n_valid_triangles() == l.len(), "two more triangles (one, in the border)");
    covers(&f, &l, 12.0);
    check(l.iter().any(|k| [k.a(), k.b(), k.c()].iter().any(|v| v.squared_distance(q) < 1e-9)), "the point is a corner of the mesh");
    let out = at(&f, sym("ox", 4.5, 9.0), 2.0);
    check(t.add_point(out).is_err(), "a point outside is refused");
}
fn tri_mesh() {
    drop_div_zero();
    let f = frame(choose("frame", 2));
    let d = sym("d", 0.0, 0.001);
    let (w, h) = [(2.0 + d, 2.1), (2.0 + d, 6.0)][choose("shape", 2)];
    let l = mk(&f, &[(0.0, 0.0), (w, 0.0), (w, h), (0.0, h)], 0, false).unwrap();
    let p = Polygon3D::new(l).unwrap();
    let max = [1.5, 20.0][choose("max", 2)];
    let ar = [1.6, 9.0][choose("ar", 2)];
    let r = Triangulation3D::mesh_polygon(&p, max, ar);
    if let Ok(t) = r {
        let l = t.get_trilist();
        check(t.n_valid_triangles() == l.len(), "every triangle is valid");
        covers(&f, &l, w * h);
        for k in &l {
            le(k.area(), max, 1e-6, "no triangle is larger than asked for");
        }
    }
}

pub fn cases() -> Vec<Case> {
    vec![
        case("G05", "loop_rect", loop_rect),
        case("G05", "loop_ell", loop_ell),
        case("G05", "loop_tilted", loop_tilted),
        case("G05", "loop_collinear", loop_collinear),
        case("G05", "loop_refuse", loop_refuse),
        case("G05", "point_rect", point_rect),
        case("G05", "point_triangle", point_triangle),
        case("G05", "point_ell", point_ell),
        case("G05", "point_large", point_large),
        case("G05", "point_u", point_u),
        case("G05", "point_plane", point_plane),
        case("G05", "hole_area", hole_area),
        case("G05", "hole_refused", hole_refused),
        case("G05", "hole_point", hole_point),
        case("G05", "hole_loop", hole_loop),
        case("G05", "split", split),
        case("G06", "tri_plain", tri_plain),
        case("G06", "tri_hole", tri_hole),
        case("G06", "tri_point", tri_point),
        case("G06", "tri_mesh", tri_mesh),
    ]
}
