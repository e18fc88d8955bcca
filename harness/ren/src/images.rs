use geometry::{Point3D, Ray3D, Vector3D};
use hx::*;
use matrix::Matrix;
use rendering::camera::{Camera, CameraSample, Film, Pinhole, View};
use rendering::colour_matrix::*;
use rendering::colourmap::Colourmap;
use rendering::image::ImageBuffer;
use rendering::{ColourMatrix, Spectrum};

pub fn scratch(n: &str) -> std::path::PathBuf {
    std::env::temp_dir().join(format!("verif_ren_{}_{}", std::process::id(), n))
}
pub fn spectrum(n: &str, lo: Float, hi: Float) -> Spectrum {
    Spectrum([sym(&format!("{n}r"), lo, hi), sym(&format!("{n}g"), lo, hi), sym(&format!("{n}b"), lo, hi)])
}
fn each(s: Spectrum, e: [Float; 3], l: &str) {
    for i in 0..3 {
        close(s.0[i], e[i], 1e-7, l);
    }
}

/// arithmetic of colours is channel by channel
fn colours() {
    let a = spectrum("a", -10.0, 10.0);
    let b = spectrum("b", 0.5, 10.0);
    let f = sym("f", 0.25, 4.0);
    let l = "colours combine channel by channel";
    let z = |g: &dyn Fn(Float, Float) -> Float| [g(a.0[0], b.0[0]), g(a.0[1], b.0[1]), g(a.0[2], b.0[2])];
    let w = |g: &dyn Fn(Float) -> Float| [g(a.0[0]), g(a.0[1]), g(a.0[2])];
    let v = |g: &dyn Fn(Float) -> Float| [g(b.0[0]), g(b.0[1]), g(b.0[2])];
    let mut m = a;
    match choose("op", 20) {
        0 => each(a + b, z(&|x, y| x + y), l),
        1 => each(a - b, z(&|x, y| x - y), l),
        2 => each(a * b, z(&|x, y| x * y), l),
        3 => each(a / b, z(&|x, y| x / y), l),
        4 => {
            m += b;
            each(m, z(&|x, y| x + y), l)
        }
        5 => {
            m -= b;
            each(m, z(&|x, y| x - y), l)
        }
        6 => {
            m *= b;
            each(m, z(&|x, y| x * y), l)
        }
        7 => {
            m /= b;
            each(m, z(&|x, y| x / y), l)
        }
        8 => each(a + f, w(&|x| x + f), l),
        9 => each(a - f, w(&|x| x - f), l),
        10 => each(a * f, w(&|x| x * f), l),
        11 => each(a / f, w(&|x| x / f), l),
        12 => {
            m += f;
            each(m, w(&|x| x + f), l)
        }
        13 => {
            m -= f;
            each(m, w(&|x| x - f), l)
        }
        14 => {
            m *= f;
            each(m, w(&|x| x * f), l)
        }
        15 => {
            m /= f;
            each(m, w(&|x| x / f), l)
        }
        16 => each(f + a, w(&|x| x + f), l),
        17 => each(f - a, w(&|x| f - x), l),
        18 => each(f * a, w(&|x| x * f), l),
        _ => each(f / b, v(&|x| f / x), l),
    }
}
fn brightness() {
    let a = spectrum("a", 0.125, 10.0);
    let r = a.0[0] * 0.265 + a.0[1] * 0.67 + a.0[2] * 0.065;
    match choose("what", 7) {
        0 => close(a.radiance(), r, 1e-7, "radiance weighs red, green and blue"),
        1 => close(a.luminance(), r * 179.0, 1e-5, "luminance is 179 lm/W times radiance"),
        2 => close(Spectrum::gray(a.0[0]).radiance(), a.0[0], 1e-7, "gray of v has radiance v"),
        3 => {
            let n = a.normalize();
            for i in 0..3 {
                close(n.0[i] * r, a.0[i], 1e-6, "normalising divides by the radiance");
            }
        }
        4 => {
            let m = a.max();
            check(m == a.0[0] || m == a.0[1] || m == a.0[2], "max is one of the channels");
            for i in 0..3 {
                le(a.0[i], m, 1e-12, "max is the largest channel");
            }
        }
        5 => {
            let k = choose("power", 4) as i32;
            each(a.powi(k), [pw(a.0[0], k), pw(a.0[1], k), pw(a.0[2], k)], "powers are channel by channel");
            let s = a.powf(0.5);
            each(s * s, a.0, "powers are channel by channel");
        }
        _ => {
            check(!a.is_black(), "only black is black");
            check(Spectrum::BLACK.is_black() && Spectrum::default().is_black(), "only black is black");
            let v = a.0[0];
            let s = match choose("channel", 3) {
                0 => [v, 0.0, 0.0],
                1 => [0.0, v, 0.0],
                _ => [0.0, 0.0, v],
            };
            check(!Spectrum(s).is_black(), "only black is black");
            each(Spectrum::ONE, [1.0; 3], "one is white");
            each(Spectrum::from(v), [v; 3], "a number stands for a gray");
        }
    }
}
fn pw(x: Float, k: i32) -> Float {
    let mut r: Float = 1.0;
    for _ in 0..k {
        r = r * x;
    }
    r
}
/// matrices of colours
fn matrices() {
    let (nr, nc) = [(1, 1), (1, 3), (3, 1), (2, 3), (3, 2)][choose("size", 5)];
    let mut cm = ColourMatrix::new(Spectrum::BLACK, nr, nc);
    let mut m = Matrix::new(0.0, nr, nc);
    let mut v = vec![];
    for r in 0..nr {
        for c in 0..nc {
            let x = spectrum(&format!("m{r}{c}"), 0.0, 100.0);
            cm.set(r, c, x).unwrap();
            m.set(r, c, x.0[1]).unwrap();
            v.push(x);
        }
    }
    match choose("what", 5) {
        0 => {
            let q = colour_matrix_to_radiance(&cm);
            let l = colour_matrix_to_luminance(&cm);
            check(q.size() == (nr, nc) && l.size() == (nr, nc), "brightness of a matrix keeps its size");
            for r in 0..nr {
                for c in 0..nc {
                    let x = v[r * nc + c];
                    let e = x.0[0] * 0.265 + x.0[1] * 0.67 + x.0[2] * 0.065;
                    close(q.get(r, c).unwrap(), e, 1e-6, "radiance of each element");
                    close(l.get(r, c).unwrap(), e * 179.0, 1e-4, "luminance of each element");
                }
            }
        }
        1 => {
            let a = average_matrix(&m);
            check(a.size() == (1, nc), "the average has one row");
            for c in 0..nc {
                let mut e: Float = 0.0;
                for r in 0..nr {
                    e = e + v[r * nc + c].0[1];
                }
                close(a.get(0, c).unwrap() * (nr as Float), e, 1e-6, "the average of each column");
            }
        }
        2 => {
            let p = scratch("m.txt");
            save_matrix(&m, &p).unwrap();
            let back = read_matrix(&p);
            let other = read_colour_matrix(&p);
            let _ = std::fs::remove_file(&p);
            check(other.is_err(), "a matrix of numbers is not a matrix of colours");
            let back = back.expect("a saved matrix is read back");
            check(back.size() == (nr, nc), "a matrix read back has its size");
            for r in 0..nr {
                for c in 0..nc {
                    close(back.get(r, c).unwrap(), v[r * nc + c].0[1], 1e-9, "a matrix read back has its values");
                }
            }
        }
        3 => {
            let p = scratch("c.txt");
            save_colour_matrix(&cm, &p).unwrap();
            let back = read_colour_matrix(&p);
            let other = read_matrix(&p);
            let _ = std::fs::remove_file(&p);
            check(other.is_err(), "a matrix of colours is not a matrix of numbers");
            let back = back.expect("a saved colour matrix is read back");
            check(back.size() == (nr, nc), "a colour matrix read back has its size");
            for r in 0..nr {
                for c in 0..nc {
                    let x = back.get(r, c).unwrap();
                    for i in 0..3 {
                        close(x.0[i], v[r * nc + c].0[i], 1e-5, "a colour matrix read back has its values");
                    }
                }
            }
        }
        _ => {
            // products of a colour matrix by numbers given as colours: the daylight coefficients at work
            let mut k = ColourMatrix::new(Spectrum::BLACK, nc, 1);
            let mut f = vec![];
            for c in 0..nc {
                let x = sym(&format!("k{c}"), 0.0, 4.0);
                f.push(x);
                k.set(c, 0, Spectrum::gray(x)).unwrap();
            }
            let p = &cm * &k;
            for r in 0..nr {
                for i in 0..3 {
                    let mut e: Float = 0.0;
                    for c in 0..nc {
                        e = e + v[r * nc + c].0[i] * f[c];
                    }
                    close(p.get(r, 0).unwrap().0[i], e, 1e-6, "coefficients times sky, channel by channel");
                }
            }
        }
    }
}

fn views(k: usize) -> (Vector3D, Vector3D) {
    match k {
        0 => (Vector3D::new(0., 1., 0.), Vector3D::new(0., 0., 1.)),
        1 => (Vector3D::new(3., 4., 0.), Vector3D::new(0., 0., 2.)),
        2 => (Vector3D::new(2., -1., 2.), Vector3D::new(0., 0., 1.)),
        3 => (Vector3D::new(0., 0., -1.), Vector3D::new(0., 1., 0.)),
        _ => (Vector3D::new(-1., -2., -2.), Vector3D::new(1., 0., 1.)),
    }
}
fn films(k: usize) -> (usize, usize) {
    [(1, 1), (4, 4), (4, 2), (2, 4), (5, 3), (3, 5)][k]
}
fn frame(d: Vector3D, up: Vector3D) -> (Vector3D, Vector3D, Vector3D) {
    let f = d.get_normalized();
    let r = d.cross(up).get_normalized();
    (f, r, r.cross(f))
}
/// every pixel sees the part of the world behind it
fn camera_rays() {
    let (d, up) = views(choose("view", 5));
    let (w, h) = films(choose("film", 6));
    let fov = sym("fov", 20.0, 120.0);
    let p = Point3D::new(sym("px", -10.0, 10.0), sym("py", -10.0, 10.0), sym("pz", -10.0, 10.0));
    let cam = Pinhole::new(View { view_point: p, view_direction: d, view_up: up, field_of_view: fov }, Film { resolution: (w, h) });
    check(cam.film_resolution() == (w, h), "the film has the resolution asked for");
    let (x, y) = (choose("x", w), choose("y", h));
    check(cam.pixel_index((x, y)) == y * w + x, "pixels are stored row by row");
    let (ray, _) = cam.gen_ray(&CameraSample { p_film: (x, y) });
    let (f, r, u) = frame(d, up);
    close(ray.origin.x, p.x, 1e-9, "rays start at the view point");
    close(ray.origin.y, p.y, 1e-9, "rays start at the view point");
    close(ray.origin.z, p.z, 1e-9, "rays start at the view point");
    let t = (fov.to_radians() / 2.0).tan();
    let ex = ((x as Float + 0.5) / w as Float * 2.0 - 1.0) * t;
    let ey = (1.0 - (y as Float + 0.5) / h as Float * 2.0) * (h as Float / w as Float) * t;
    // direction parallel to f + ex r + ey u, and of length one
    let (a, b, c) = (ray.direction * f, ray.direction * r, ray.direction * u);
    lt(0.0, a, "rays go forward");
    close(b, a * ex, 1e-6, "columns go from left to right across the field of view");
    close(c, a * ey, 1e-6, "rows go from top to bottom, pixels being square");
    close(a * a + b * b + c * c, 1.0, 1e-6, "directions have length one");
}
/// the pixel of a ray is the one whose part of the film it crosses
fn camera_pixel() {
    let (d, up) = views([0, 2, 4][choose("view", 3)]);
    let (w, h) = films(choose("film", 6));
    let fov = [60.0, 100.0][choose("fov", 2)] as Float;
    let p = Point3D::new(1.0, 2.0, 3.0);
    let cam = Pinhole::new(View { view_point: p, view_direction: d, view_up: up, field_of_view: fov }, Film { resolution: (w, h) });
    let (x, y) = (choose("x", w), choose("y", h));
    let t = (fov.to_radians() / 2.0).tan();
    let (f, r, u) = frame(d, up);
    let (mut i, mut j): (Float, Float) = (0.5, 0.5);
    let s = sym("s", 0.0625, 0.9375);
    if choose("along", 2) == 0 {
        i = s;
    } else {
        j = s;
    }
    let ex = ((x as Float + i) / w as Float * 2.0 - 1.0) * t;
    let ey = (1.0 - (y as Float + j) / h as Float * 2.0) * (h as Float / w as Float) * t;
    let ray = Ray3D { origin: p, direction: f + r * ex + u * ey };
    let (px, wt) = cam.pixel_from_ray(&ray);
    check(wt == 1.0, "rays through the film hit a pixel");
    check(px == (x, y), "the pixel of a ray is the one it crosses");
}
/// rays that do not cross the film have no pixel
fn camera_miss() {
    let (d, up) = views(choose("view", 5));
    let (w, h) = films(choose("film", 6));
    let fov = [60.0, 90.0][choose("fov", 2)] as Float;
    let p = Point3D::new(1.0, 2.0, 3.0);
    let cam = Pinhole::new(View { view_point: p, view_direction: d, view_up: up, field_of_view: fov }, Film { resolution: (w, h) });
    let t = (fov.to_radians() / 2.0).tan();
    let (f, r, u) = frame(d, up);
    let s = sym("s", -3.0, 3.0);
    let o = sym("o", 1.001, 3.0);
    let v = h as Float / w as Float;
    let dir = match choose("how", 5) {
        0 => f + r * (o * t) + u * (s * t),
        1 => f - r * (o * t) + u * (s * t),
        2 => f + r * (s * t) + u * (o * v * t),
        3 => f + r * (s * t) - u * (o * v * t),
        _ => r * s + u * o - f * 0.5,
    };
    let (_, wt) = cam.pixel_from_ray(&Ray3D { origin: p, direction: dir });
    check(wt == 0.0, "rays that do not cross the film have no weight");
}

/// RGBE files keep each colour within their precision
fn hdr() {
    let (w, h) = [(1, 1), (2, 1), (1, 2)][choose("size", 3)];
    let e = [-20, -7, -1, 0, 1, 6, 20][choose("exponent", 7)];
    let mut scale: Float = 1.0;
    for _ in 0..(e as i32).abs() {
        scale = if e > 0 { scale * 2.0 } else { scale / 2.0 };
    }
    // one channel is the largest, the others are smaller
    let base = [1.0001, 1.32, 1.98][choose("size of it", 3)] as Float;
    let big = sym("big", base, base + 0.015) * scale;
    let small = sym("small", 0.25, 0.262) * scale;
    let c = match choose("order", 4) {
        0 => [big, small, 0.0],
        1 => [0.0, big, small],
        2 => [small, 0.0, big],
        _ => [big, big, small],
    };
    let n = w * h;
    let at = choose("at", n);
    let mut img = ImageBuffer::new(w, h);
    check(img.pixels.len() == n, "a new image has all of its pixels");
    img[(at % w, at / w)] = Spectrum(c);
    let p = scratch("i.hdr");
    img.save_hdre(&p).unwrap();
    let back = ImageBuffer::from_file(&p);
    let _ = std::fs::remove_file(&p);
    let back = back.expect("a saved image is read back");
    check(back.width == w && back.height == h && back.pixels.len() == n, "an image read back has its size");
    for k in 0..n {
        let q = back[(k % w, k / w)];
        for i in 0..3 {
            let e = if k == at { c[i] } else { 0.0 };
            le(q.0[i], e, scale * 1e-9, "colours are not brighter after saving them");
            le(e - q.0[i], scale / 64.0, scale * 1e-4, "colours keep eight bits of their brightest channel");
        }
    }
}
/// images cut short are refused
fn hdr_cut() {
    let (w, h) = [(2, 1), (1, 2), (3, 2)][choose("size", 3)];
    let px = spectrum("c", 1.25, 1.2578125);
    let img = ImageBuffer::from_pixels(w, h, vec![px; w * h]);
    let p = scratch("cut.hdr");
    img.save_hdre(&p).unwrap();
    let all = std::fs::read(&p).unwrap();
    let cut = 1 + choose("cut", 4 * w * h);
    std::fs::write(&p, &all[..all.len() - cut]).unwrap();
    let back = ImageBuffer::from_file(&p);
    let _ = std::fs::remove_file(&p);
    check(back.is_err(), "an image that misses pixels is refused");
}
/// differences of images
fn image_diff() {
    let (w, h) = [(1, 1), (2, 1), (2, 2)][choose("size", 3)];
    let a: Vec<Spectrum> = (0..w * h).map(|i| spectrum(&format!("a{i}"), 0.0, 10.0)).collect();
    let b: Vec<Spectrum> = (0..w * h).map(|i| spectrum(&format!("b{i}"), 0.0, 10.0)).collect();
    let ia = ImageBuffer::from_pixels(w, h, a.clone());
    let ib = ImageBuffer::from_pixels(w, h, b.clone());
    let d = ia.diff(&ib).unwrap();
    check(d.width == w && d.height == h, "the difference has the size of the images");
    for i in 0..w * h {
        let e = (a[i].0[0] - b[i].0[0]) * 0.265 + (a[i].0[1] - b[i].0[1]) * 0.67 + (a[i].0[2] - b[i].0[2]) * 0.065;
        let q = d[(i % w, i / w)];
        for k in 0..3 {
            le(0.0, q.0[k], 1e-12, "differences are absolute");
            close(q.0[k] * q.0[k], e * e, 1e-6, "pixels differ by the difference of their radiance");
        }
    }
    let other = ImageBuffer::from_pixels(w * h + 1, 1, vec![Spectrum::ONE; w * h + 1]);
    check(ia.diff(&other).is_err(), "images of different sizes do not compare");
}
/// colour maps
fn colour_maps() {
    use rendering::colourmap as m;
    let (map, table): (Colourmap, &[[Float; 3]]) = match choose("map", 5) {
        0 => (Colourmap::Radiance, &m::radiance::RADIANCE_COLOURMAP),
        1 => (Colourmap::Inferno, &m::inferno::INFERNO_COLOURMAP),
        2 => (Colourmap::Magma, &m::magma::MAGMA_COLOURMAP),
        3 => (Colourmap::Plasma, &m::plasma::PLASMA_COLOURMAP),
        _ => (Colourmap::Viridis, &m::viridis::VIRIDIS_COLOURMAP),
    };
    let n = table.len() - 1;
    let min = sym("min", -10.0, 10.0);
    let span = [0.5, 255.0][choose("span", 2)] as Float;
    let i = [0, 1, n / 2, n - 1][choose("bin", 4)];
    match choose("where", 3) {
        0 => {
            let x = sym("x", -1000.0, -10.0);
            let c = map.map_linear(x, min, min + span);
            for k in 0..3 {
                close(c[k], table[0][k], 1e-9, "values below the range get the first colour");
            }
        }
        1 => {
            let x = sym("x", 300.0, 1000.0);
            let c = map.map_linear(x, min, min + span);
            for k in 0..3 {
                close(c[k], table[n][k], 1e-9, "values above the range get the last colour");
            }
        }
        _ => {
            let lam = sym("lam", 0.001, 0.999);
            let x = min + (i as Float + lam) * (span / n as Float);
            let c = map.map_linear(x, min, min + span);
            for k in 0..3 {
                close(c[k], table[i][k] + (table[i + 1][k] - table[i][k]) * lam, 1e-6, "colours are interpolated");
            }
        }
    }
}

pub fn cases() -> Vec<Case> {
    vec![
        case("R05", "colours", colours),
        case("R05", "brightness", brightness),
        case("R05", "matrices", matrices),
        case("R04", "camera_rays", camera_rays),
        case("R04", "camera_pixel", camera_pixel),
        case("R04", "camera_miss", camera_miss),
        case("R04", "hdr", hdr),
        case("R04", "hdr_cut", hdr_cut),
        case("R04", "image_diff", image_diff),
        case("R04", "colour_maps", colour_maps),
    ]
}
