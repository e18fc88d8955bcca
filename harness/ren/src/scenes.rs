use calendar::Date;
use geometry::{DistantSource3D, Loop3D, Point3D, Polygon3D, Sphere3D, Triangle3D, Vector3D};
use hx::*;
use model::substance::{Gas, Normal};
use model::*;
use rendering::material::{Diffuse, Glass, Light, Material as Mat, Mirror, Plastic};
use rendering::primitive::Primitive;
use rendering::{Scene, SceneElement, SimpleModelReader, Spectrum, Wavelengths};
use weather::{PerezSky, SkyUnits, Solar, Time};

const PI: Float = std::f64::consts::PI as Float;

fn channels(c: Spectrum, want: [Float; 3], l: &str) {
    for i in 0..3 {
        close(c.0[i], want[i], 1e-6, l);
    }
}
fn corners(t: &[Float; 9]) -> [Vector3D; 3] {
    [Vector3D::new(t[0], t[1], t[2]), Vector3D::new(t[3], t[4], t[5]), Vector3D::new(t[6], t[7], t[8])]
}
/// twice the area, along the normal
fn double_area(t: &[Float; 9]) -> Vector3D {
    let [a, b, c] = corners(t);
    (b - a).cross(c - a)
}

// ------------------------------------------------------------------ buildings
#[derive(Clone, Copy)]
struct Sub {
    front: Option<Float>,
    back: Option<Float>,
    tau: Option<Float>,
}
fn sub(n: &str, k: usize) -> Sub {
    let o = |i: usize, v: Float| if k & i > 0 { Some(v) } else { None };
    Sub {
        front: o(1, sym(&format!("{n}_front"), 0.0, 1.0)),
        back: o(2, sym(&format!("{n}_back"), 0.0, 1.0)),
        tau: o(4, sym(&format!("{n}_tau"), 0.05, 0.95)),
    }
}
fn add_sub(m: &mut Model, n: &str, s: &Sub) {
    let mut x = Normal::new(n.to_string());
    if let Some(v) = s.front {
        x.set_front_solar_absorbtance(v);
    }
    if let Some(v) = s.back {
        x.set_back_solar_absorbtance(v);
    }
    if let Some(v) = s.tau {
        x.set_solar_transmittance(v);
    }
    m.add_substance(x.wrap());
    m.add_material(Material::new(format!("m_{n}"), n.to_string(), 0.1));
}
/// what the light sees of a substance
fn looks(mat: &Mat, s: &Sub, front: bool) {
    let a = (if front { s.front } else { s.back }).unwrap_or(0.7);
    match (mat, s.tau) {
        (Mat::Glass(g), Some(t)) => {
            channels(g.colour, [((0.8402528435 + 0.0072522239 * t * t).sqrt() - 0.9166530661) / 0.0036261119 / t; 3], "panes let light through as their transmittance says");
            close(g.refraction_index, 1.52, 1e-9, "glass refracts with 1.52");
        }
        (Mat::Plastic(p), None) => {
            channels(p.colour, [1.0 - a; 3], "opaque layers reflect what that side does not absorb");
            close(p.specularity, 0.0, 1e-9, "opaque layers are diffuse");
        }
        _ => check(false, "transparent layers are glass and opaque ones are not"),
    }
}
fn rect(o: P, u: P, v: P, w: Float, h: Float) -> Loop3D {
    let at = |a: Float, b: Float| Point3D::new(o[0] + a * u[0] + b * v[0], o[1] + a * u[1] + b * v[1], o[2] + a * u[2] + b * v[2]);
    let mut l = Loop3D::new();
    for (a, b) in [(0.0, 0.0), (w, 0.0), (w, h), (0.0, h)] {
        l.push(at(a, b)).unwrap();
    }
    l.close().unwrap();
    l
}
type P = [Float; 3];
/// the triangles of an element cover it, face as it does and carry its materials
fn covered(sc: &Scene, map: &[(SceneElement, usize)], e: SceneElement, i: usize, p: &Polygon3D, front: &Sub, back: &Sub, holes: usize) {
    let n = p.normal();
    let mut area = 0.0;
    let mut seen = 0;
    for (k, t) in sc.triangles.iter().enumerate() {
        if map[k] != (e, i) {
            continue;
        }
        seen += 1;
        let d = double_area(t);
        let along = d * n;
        le(0.0, along, 1e-6, "triangles face where their surface does");
        let off = d - n * along;
        close(off * off, 0.0, 1e-6, "triangles lie in the plane of their surface");
        area += along / 2.0;
        for m in [sc.normals[k].0, sc.normals[k].1, sc.normals[k].2] {
            close(m * n, 1.0, 1e-5, "normals of triangles are those of their surface");
        }
        looks(&sc.materials[sc.front_material_indexes[k]], front, true);
        looks(&sc.materials[sc.back_material_indexes[k]], back, false);
    }
    check(holes > 0 || seen == 2, "number of triangles of a rectangle");
    close(area, p.area(), 1e-5, "triangles of a surface add up to its area");
}
fn check_lengths(sc: &Scene, map: &[(SceneElement, usize)]) {
    let n = sc.triangles.len();
    check(map.len() == n && sc.normals.len() == n && sc.front_material_indexes.len() == n && sc.back_material_indexes.len() == n, "every triangle has normals, materials and an element it comes from");
    check(sc.lights.is_empty() && sc.distant_lights.is_empty(), "buildings do not emit light");
}
fn building_materials() {
    let mut m = Model::default();
    let n = 1 + choose("layers", 3);
    let a = sub("a", choose("first", 8));
    let b = if n == 1 { a } else { sub("b", choose("last", 8)) };
    let mid = Sub { front: Some(0.123), back: None, tau: None };
    add_sub(&mut m, "mid", &mid);
    add_sub(&mut m, "a", &a);
    if n > 1 {
        add_sub(&mut m, "b", &b);
    }
    let mut c = Construction::new("c".to_string());
    c.materials = [vec!["m_a"], vec!["m_a", "m_b"], vec!["m_a", "m_mid", "m_b"]][n - 1].iter().map(|x| x.to_string()).collect();
    m.add_construction(c);
    let mut other = Construction::new("other".to_string());
    other.materials.push("m_mid".to_string());
    m.add_construction(other);
    let p = Polygon3D::new(rect([0., 0., 0.], [1., 0., 0.], [0., 1., 0.], 3.0, 2.0)).unwrap();
    let q = Polygon3D::new(rect([0., 0., 5.], [0., 1., 0.], [1., 0., 0.], 3.0, 2.0)).unwrap();
    let o = || Boundary::Outdoor;
    m.add_surface(Surface::new("s0".to_string(), q.clone(), "other".to_string(), o(), o())).unwrap();
    m.add_surface(Surface::new("s1".to_string(), p.clone(), "c".to_string(), o(), o())).unwrap();
    m.add_fenestration(Fenestration::new("f0".to_string(), q.clone(), "c".to_string(), FenestrationType::Window, o(), o())).unwrap();
    let (sc, map) = SimpleModelReader::default().build_scene(&m, &Wavelengths::Solar).unwrap();
    check_lengths(&sc, &map);
    check(map.len() == 6, "every surface is in the scene");
    covered(&sc, &map, SceneElement::Surface, 0, &q, &mid, &mid, 0);
    covered(&sc, &map, SceneElement::Surface, 1, &p, &a, &b, 0);
    covered(&sc, &map, SceneElement::Fenestration, 0, &q, &a, &b, 0);
}
fn building_shapes() {
    let mut m = Model::default();
    let mid = Sub { front: Some(sym("front", 0.0, 1.0)), back: Some(sym("back", 0.0, 1.0)), tau: None };
    let glass = Sub { front: None, back: None, tau: Some(sym("tau", 0.05, 0.95)) };
    add_sub(&mut m, "mid", &mid);
    add_sub(&mut m, "glass", &glass);
    for (n, l) in [("wall", "m_mid"), ("pane", "m_glass")] {
        let mut c = Construction::new(n.to_string());
        c.materials.push(l.to_string());
        m.add_construction(c);
    }
    let (u, v): (P, P) = [([1., 0., 0.], [0., 0., 1.]), ([0., 1., 0.], [0., 0., 1.]), ([0.6, 0.8, 0.], [0., 0., 1.]), ([1., 0., 0.], [0., -0.6, 0.8]), ([1., 0., 0.], [0., -1., 0.])][choose("plane", 5)];
    let kind = choose("kind", 4);
    let (h, x) = match (kind, choose("vary", 2)) {
        (0, 0) => (sym("height", 2.5, 6.0), -1.5),
        (0, _) => (3.0, sym("offset", -5.0, 5.0)),
        (_, 0) => (3.0, 0.25),
        (_, _) => (5.0, -4.0),
    };
    let o = || Boundary::Outdoor;
    let wall = rect([x, 1., 2.], u, v, 4.0, h);
    let mut p = Polygon3D::new(wall).unwrap();
    let at = |a: Float, b: Float| [x + a * u[0] + b * v[0], 1. + a * u[1] + b * v[1], 2. + a * u[2] + b * v[2]];
    let hole = rect(at(1.0, 0.5), u, v, 2.0, 1.5);
    let window = Polygon3D::new(hole.clone()).unwrap();
    if kind > 0 {
        p.cut_hole(hole).unwrap();
    }
    let under = Polygon3D::new(rect([0., 0., -9.], [1., 0., 0.], [0., 1., 0.], 2.0, 1.0)).unwrap();
    m.add_surface(Surface::new("under".to_string(), under.clone(), "pane".to_string(), o(), o())).unwrap();
    m.add_surface(Surface::new("s".to_string(), p.clone(), "wall".to_string(), o(), o())).unwrap();
    if kind > 0 {
        let t = [FenestrationType::Window, FenestrationType::Opening, FenestrationType::Door][kind - 1];
        m.add_fenestration(Fenestration::new("f".to_string(), window.clone(), "pane".to_string(), t, o(), o())).unwrap();
    }
    let (sc, map) = SimpleModelReader::default().build_scene(&m, &Wavelengths::Solar).unwrap();
    check_lengths(&sc, &map);
    covered(&sc, &map, SceneElement::Surface, 0, &under, &glass, &glass, 0);
    covered(&sc, &map, SceneElement::Surface, 1, &p, &mid, &mid, kind.min(1));
    let n = map.iter().filter(|m| m.0 == SceneElement::Fenestration).count();
    if kind == 1 || kind == 3 {
        covered(&sc, &map, SceneElement::Fenestration, 0, &window, &glass, &glass, 0);
    } else {
        check(n == 0, "openings are not in the scene");
    }
    let again = Scene::from_simple_model(&m, Wavelengths::Solar).unwrap();
    check(again.triangles.len() == sc.triangles.len(), "the scene of a building");
    for (a, b) in again.triangles.iter().zip(&sc.triangles) {
        for k in 0..9 {
            close(a[k], b[k], 1e-9, "the scene of a building");
        }
    }
}
fn building_errors() {
    let mut m = Model::default();
    let s = Sub { front: Some(sym("a", 0.0, 1.0)), back: None, tau: None };
    add_sub(&mut m, "s", &s);
    m.add_substance(Gas::new("air".to_string()).wrap());
    m.add_material(Material::new("m_air".to_string(), "air".to_string(), 0.01));
    m.add_material(Material::new("m_lost".to_string(), "lost".to_string(), 0.01));
    let k = choose("layers", 6);
    let mut c = Construction::new("c".to_string());
    c.materials = [vec!["m_s", "m_air", "m_s"], vec!["m_air", "m_s"], vec!["m_s", "m_air"], vec!["m_air"], vec!["m_s", "m_lost"], vec!["what", "m_s"]][k].iter().map(|x| x.to_string()).collect();
    m.add_construction(c);
    let p = Polygon3D::new(rect([0., 0., 0.], [1., 0., 0.], [0., 1., 0.], 3.0, 2.0)).unwrap();
    let o = || Boundary::Outdoor;
    if choose("what", 2) == 0 {
        m.add_surface(Surface::new("s".to_string(), p, "c".to_string(), o(), o())).unwrap();
    } else {
        m.add_fenestration(Fenestration::new("s".to_string(), p, "c".to_string(), FenestrationType::Window, o(), o())).unwrap();
    }
    let r = Scene::from_simple_model(&m, Wavelengths::Solar);
    check(r.is_ok() == (k == 0), "outer layers of gas and unknown materials are errors");
    if let Ok(sc) = r {
        for k in 0..2 {
            looks(&sc.materials[sc.front_material_indexes[k]], &s, true);
            looks(&sc.materials[sc.back_material_indexes[k]], &s, false);
        }
    }
}

// ------------------------------------------------------------------ Radiance files
fn rad_materials() {
    let v: Vec<Float> = (0..5).map(|i| sym(&format!("v{i}"), 0.0, 1.0)).collect();
    let t = |n: usize| v[..n].iter().map(|x| text(*x)).collect::<Vec<_>>().join(" ");
    let k = choose("kind", 7);
    let (name, n) = [("plastic", 5), ("metal", 5), ("light", 3), ("mirror", 3), ("dielectric", 5), ("glass", 4), ("glass", 3)][k];
    // something else before and after
    let src = format!("void light l\n0\n0\n3 1 2 3\n\n  void {name} it\n 0 0 {n}\t{}\nit polygon p 0 0 9 0 0 0 1 0 0 0 1 0 \nvoid mirror mm 0\n0\n3 0.5 0.25 0.125\n", t(n));
    let sc = Scene::from_radiance_source(src.as_bytes()).unwrap();
    check(sc.materials.len() == 3, "every material of the file is in the scene");
    let c = [v[0], v[1], v[2]];
    match (&sc.materials[0], &sc.materials[2]) {
        (Mat::Light(l), Mat::Mirror(m)) => {
            channels(l.0, [1.0, 2.0, 3.0], "lights have the radiance of the file");
            channels(m.0, [0.5, 0.25, 0.125], "mirrors have the colour of the file");
        }
        _ => check(false, "materials are in the order of the file"),
    }
    match (&sc.materials[1], k) {
        (Mat::Diffuse(d), 0 | 1) => {
            lt(v[3], 1e-5, "only what is not specular is diffuse");
            channels(d.colour, c, "colours are those of the file");
        }
        (Mat::Plastic(p), 0) => {
            le(1e-5, v[3], 1e-12, "what is not specular is diffuse");
            channels(p.colour, c, "colours are those of the file");
            close(p.specularity, v[3], 1e-9, "specularity and roughness are those of the file");
            close(p.roughness, v[4], 1e-9, "specularity and roughness are those of the file");
        }
        (Mat::Metal(p), 1) => {
            le(1e-5, v[3], 1e-12, "what is not specular is diffuse");
            channels(p.colour, c, "colours are those of the file");
            close(p.specularity, v[3], 1e-9, "specularity and roughness are those of the file");
            close(p.roughness, v[4], 1e-9, "specularity and roughness are those of the file");
        }
        (Mat::Light(p), 2) => channels(p.0, c, "colours are those of the file"),
        (Mat::Mirror(p), 3) => channels(p.0, c, "colours are those of the file"),
        (Mat::Dielectric(p), 4) => {
            channels(p.colour, c, "colours are those of the file");
            close(p.refraction_index, v[3], 1e-9, "refraction indexes are those of the file");
        }
        (Mat::Glass(p), 5 | 6) => {
            channels(p.colour, c, "colours are those of the file");
            close(p.refraction_index, if k == 5 { v[3] } else { 1.52 }, 1e-9, "refraction indexes are those of the file");
        }
        _ => check(false, "materials are of the kind in the file"),
    }
    check(sc.triangles.len() == 1 && sc.front_material_indexes[0] == 1 && sc.back_material_indexes[0] == 1, "objects have the material they name");
    check(sc.lights.len() == if k == 2 { 1 } else { 0 } && sc.distant_lights.is_empty(), "objects of light are lights");
}
fn rad_objects() {
    let a = sym("a", -4.0, 4.0);
    let h = sym("h", 1.0, 5.0);
    let who = choose("who", 3);
    let name = ["grey", "lamp", "look"][who];
    let k = choose("shape", 3);
    let ta = text(a);
    let th = text(h);
    let shape = match k {
        0 => format!("{name} polygon p\n0\n0\n9 {ta} 0 0 2 0 0 2 5 {th}"),
        1 => format!("{name} polygon p\n0\n0\n12\n{ta} 1 0\n {ta} 5 0\n{ta} 5 {th}\n{ta} 1 {th}"),
        _ => format!("lamp source sun\n0\n0\n4 0.6 {ta} 0.8 {th}\n{name} polygon p 0 0 9 0 0 0 1 0 0 0 1 0"),
    };
    if k == 0 {
        assume(a < 1.0);
    }
    let src = format!("void plastic grey\n0\n0\n5 0.5 0.5 0.5 0 0\nvoid light lamp\n0\n0\n3 {th} 20 30\nvoid mirror look 0 0 3 1 1 1\n{shape}\n");
    let sc = Scene::from_radiance_source(src.as_bytes()).unwrap();
    let n = sc.triangles.len();
    check(n == if k == 1 { 2 } else { 1 }, "every object of the file is in the scene");
    check(sc.front_material_indexes.iter().chain(&sc.back_material_indexes).all(|m| *m == who), "objects have the material they name");
    check(sc.normals.len() == n && sc.front_material_indexes.len() == n && sc.back_material_indexes.len() == n, "objects have the material they name");
    check(sc.lights.len() == if who == 1 { n } else { 0 }, "objects of light are lights");
    check(sc.distant_lights.len() == if k == 2 { 1 } else { 0 }, "objects of light are lights");
    let mut d = Vector3D::new(0., 0., 0.);
    for t in &sc.triangles {
        d = d + double_area(t);
    }
    let want = match k {
        0 => Vector3D::new(0.0, -h * (2.0 - a), 5.0 * (2.0 - a)),
        1 => Vector3D::new(8.0 * h, 0.0, 0.0),
        _ => Vector3D::new(0.0, 0.0, 1.0),
    };
    for (x, y) in [(d.x, want.x), (d.y, want.y), (d.z, want.z)] {
        close(x, y, 1e-5, "polygons are where the file says");
    }
    if k == 2 {
        let o = &sc.distant_lights[0];
        check(o.front_material_index == 1 && o.back_material_index == 1, "objects have the material they name");
        match &o.primitive {
            Primitive::Source(s) => {
                let l2 = 1.0 + a * a;
                close(s.direction * s.direction, 1.0, 1e-6, "directions of sources are those of the file");
                for (x, y) in [(s.direction.x, 0.6), (s.direction.y, a), (s.direction.z, 0.8)] {
                    close(x * x * l2, y * y, 1e-5, "directions of sources are those of the file");
                    le(0.0, x * y, 1e-9, "directions of sources are those of the file");
                }
                close(s.angle, h * PI / 180.0, 1e-6, "angles of sources are in degrees");
            }
            _ => check(false, "sources are distant lights"),
        }
    }
}
fn rad_sphere() {
    let (x, y) = (3.0 as Float, -2.0 as Float);
    let r = [0.5, 3.0][choose("r", 2)] as Float;
    let lamp = choose("lamp", 2) == 1;
    let src = format!("void light l 0 0 3 1 1 1 void mirror m 0 0 3 1 1 1 {} sphere s 0 0 4 {} {} 2 {}\n", if lamp { "l" } else { "m" }, text(x), text(y), text(r));
    let sc = Scene::from_radiance_source(src.as_bytes()).unwrap();
    check(sc.lights.len() == lamp as usize, "objects of light are lights");
    if lamp {
        match &sc.lights[0].primitive {
            Primitive::Sphere(s) => {
                close(s.radius, r, 1e-9, "spheres are where the file says");
                let c = s.centre();
                close(c.x, x, 1e-9, "spheres are where the file says");
                close(c.y, y, 1e-9, "spheres are where the file says");
                close(c.z, 2.0, 1e-9, "spheres are where the file says");
            }
            _ => check(false, "objects of light are lights"),
        }
    }
    check(sc.front_material_indexes.iter().chain(&sc.back_material_indexes).all(|m| *m == !lamp as usize), "objects have the material they name");
    let c = Vector3D::new(x, y, 2.0);
    let n = sc.triangles.len();
    check(n > 500 && sc.normals.len() == n && sc.front_material_indexes.len() == n, "spheres are made of many triangles");
    let step = if thorough() { 7 } else { 101 };
    let (mut above, mut below) = (false, false);
    for i in (0..n).step_by(step) {
        let t = &sc.triangles[i];
        for (v, m) in corners(t).iter().zip([sc.normals[i].0, sc.normals[i].1, sc.normals[i].2]) {
            let d = *v - c;
            close(d * d, r * r, 1e-4, "vertices of spheres are on them");
            close(d * m, r, 1e-4, "normals of spheres point away from their centre");
            above |= d.z > 0.9 * r;
            below |= d.z < -0.9 * r;
        }
        le(0.0, double_area(t) * (corners(t)[0] - c), 1e-9, "triangles of spheres face away from their centre");
    }
    check(above && below, "spheres are whole");
    let mut volume = 0.0;
    for t in &sc.triangles {
        let [a, b, e] = corners(t);
        volume += (a - c) * (b - c).cross(e - c) / 6.0;
    }
    close(volume / (r * r * r), 4.0 * PI / 3.0, 0.01, "spheres are whole");
}

// ------------------------------------------------------------------ objects and lights
fn push() {
    let mut sc = Scene::new();
    let c = sym("c", 0.0, 10.0);
    let mats = [Mat::Diffuse(Diffuse::new(Spectrum::gray(0.5))), Mat::Light(Light(Spectrum::gray(c))), Mat::Mirror(Mirror(Spectrum::gray(0.5))), Mat::Glass(Glass { colour: Spectrum::gray(0.5), refraction_index: 1.5 }), Mat::Plastic(Plastic { colour: Spectrum::gray(0.5), specularity: 0.0, roughness: 0.0 })];
    for (i, m) in mats.into_iter().enumerate() {
        check(sc.push_material(m) == i, "materials are found where they were put");
    }
    let z = sym("z", -10.0, 10.0);
    let tri = || Triangle3D::new(Point3D::new(0., 0., z), Point3D::new(2., 0., z), Point3D::new(0., 3., z)).unwrap();
    // something already there
    sc.push_object(0, 4, Primitive::Triangle(tri()));
    let (f, b) = (choose("front", 5), choose("back", 5));
    let light = f == 1 || b == 1;
    let distant = choose("distant", 2) == 1;
    if distant {
        if light {
            sc.push_object(f, b, Primitive::Source(DistantSource3D::new(Vector3D::new(0., 0.6, 0.8), 0.1)));
        } else {
            return;
        }
    } else {
        sc.push_object(f, b, Primitive::Triangle(tri()));
    }
    let n = if distant { 1 } else { 2 };
    check(sc.triangles.len() == n && sc.normals.len() == n && sc.front_material_indexes.len() == n && sc.back_material_indexes.len() == n, "objects are in the scene");
    check(sc.front_material_indexes[0] == 0 && sc.back_material_indexes[0] == 4, "front and back materials are kept");
    if !distant {
        check(sc.front_material_indexes[1] == f && sc.back_material_indexes[1] == b, "front and back materials are kept");
        let want = [0., 0., z, 2., 0., z, 0., 3., z];
        for i in 0..9 {
            close(sc.triangles[1][i], want[i], 1e-9, "triangles stay where they were put");
        }
        close(sc.normals[1].0.z, 1.0, 1e-6, "triangles face where they did");
    }
    check(sc.lights.len() == (light && !distant) as usize && sc.distant_lights.len() == (light && distant) as usize && sc.count_all_lights() == light as usize, "what emits light from either side is a light");
    if let Some(o) = sc.lights.first().or(sc.distant_lights.first()) {
        check(o.front_material_index == f && o.back_material_index == b, "front and back materials are kept");
    }
}

// ------------------------------------------------------------------ sun and sky
fn sky() {
    // overhead, high, low, just up and down
    let k = choose("when", 6);
    let (lat, date) = [(23.45, (6, 21, 12.0)), (-13.0, (10, 28, 12.0)), (40.0, (3, 2, 9.5)), (-41.0, (7, 5, 15.0)), (52.0, (12, 21, 9.0)), (10.0, (4, 4, 2.0))][k];
    let lat = lat as Float;
    let date = Date { month: date.0, day: date.1, hour: date.2 };
    let (lon, mer) = (3.0 as Float, 0.0 as Float);
    let dn = sym("direct", 1.0, 900.0);
    let dh = [20.0, 150.0, 600.0][choose("diffuse", 3)] as Float;
    let mut sc = Scene::new();
    sc.add_perez_sky(date, lat, lon, mer, dh, dn);
    let site = Solar::new(lat * PI / 180.0, lon * PI / 180.0, mer * PI / 180.0);
    let t = Time::Standard(date.day_of_year());
    let s = match site.sun_position(t) {
        None => {
            check(sc.distant_lights.is_empty(), "there is no sun at night");
            close((sc.sky.as_ref().unwrap())(Vector3D::new(0., 0.6, 0.8)), 0.0, 1e-12, "the sky is dark at night");
            return;
        }
        Some(s) => s,
    };
    check(k < 5, "(of the check itself) night");
    check(sc.distant_lights.len() == 1 && sc.lights.is_empty() && sc.triangles.is_empty(), "there is one sun");
    let o = &sc.distant_lights[0];
    match &o.primitive {
        Primitive::Source(x) => {
            close(x.direction * s, 1.0, 1e-6, "the sun is where it should");
            close(x.angle, 0.533 * PI / 180.0, 1e-9, "the size of the sun");
        }
        _ => check(false, "the sun is a distant source"),
    }
    let z = if s.z > (3.0 * PI / 180.0).cos() { 3.0 * PI / 180.0 } else { s.z.acos() };
    let w = PerezSky::precipitable_water_content(11.0);
    let b = PerezSky::sky_brightness(dh, weather::solar::air_mass(z), site.normal_extraterrestrial_radiation(site.unwrap_solar_time(t)));
    let e = PerezSky::sky_clearness(dh, dn, z);
    let e = if e > 11.9 { 11.9 } else { e };
    let ratio = PerezSky::direct_illuminance_ratio(w, z, b, PerezSky::clearness_category(e));
    let half = (0.533 * PI / 180.0 / 2.0).tan();
    let want = dn * ratio / (half * half * PI) / 179.0;
    match (&sc.materials[o.front_material_index], &sc.materials[o.back_material_index]) {
        (Mat::Light(f), Mat::Light(g)) => {
            channels(Spectrum([f.0 .0[0] / 1e7, f.0 .0[1] / 1e7, f.0 .0[2] / 1e7]), [want / 1e7; 3], "the sun brings the direct normal radiation");
            channels(Spectrum([g.0 .0[0] / 1e7, g.0 .0[1] / 1e7, g.0 .0[2] / 1e7]), [want / 1e7; 3], "the sun brings the direct normal radiation");
        }
        _ => check(false, "the sun emits light"),
    }
}
pub fn cases() -> Vec<Case> {
    vec![
        case("R06", "building_materials", building_materials),
        case("R06", "building_shapes", building_shapes),
        case("R06", "building_errors", building_errors),
        case("R06", "rad_materials", rad_materials),
        case("R06", "rad_objects", rad_objects),
        case("R06", "rad_sphere", rad_sphere),
        case("R06", "push", push),
        case("R06", "sky", sky),
    ]
}
