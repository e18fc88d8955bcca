use crate::images::spectrum;
use crate::sampling::{frames, rng};
use geometry::intersection::{IntersectionInfo, SurfaceSide};
use geometry::{Point3D, Vector3D};
use hx::*;
use rendering::interaction::Interaction;
use rendering::material::bsdf_sample::BSDFSample;
use rendering::material::*;
use rendering::Spectrum;

const PI: Float = std::f64::consts::PI as Float;
const AT: [Float; 3] = [1.0, -2.0, 3.0];
struct Hit {
    e1: Vector3D,
    e2: Vector3D,
    n: Vector3D,
    i: Interaction,
}
/// a surface hit, with the frame of the surface and the side
fn hit(k: usize, front: bool) -> Hit {
    let (e1, e2, n) = frames(k);
    let p = Point3D::new(AT[0], AT[1], AT[2]);
    let mut g = IntersectionInfo::default();
    g.normal = n;
    g.dpdu = e1;
    g.dpdv = e2;
    g.p = p;
    g.side = if front { SurfaceSide::Front } else { SurfaceSide::Back };
    Hit { e1, e2, n, i: Interaction { point: p, wo: n, geometry_shading: g } }
}
impl Hit {
    /// a ray that arrives with this component along the surface (on a plane through the normal), and its cosine
    fn arrive(&self, s: Float) -> (Vector3D, Float) {
        let c = (1.0 - s * s).sqrt();
        (self.e1 * (s * 0.6) + self.e2 * (s * 0.8) - self.n * c, c)
    }
    fn local(&self, v: Vector3D) -> (Float, Float, Float) {
        (v * self.e1, v * self.e2, v * self.n)
    }
    fn moved(&self, side: Float) {
        let d = self.i.point - Point3D::new(AT[0], AT[1], AT[2]);
        lt(0.0, (d * self.n) * side, "light leaves from the side it goes to");
        le(d * d, 1e-4, 1e-9, "light leaves from where it arrived");
    }
}
fn weight(s: &BSDFSample, cos: Float, e: Spectrum, l: &str) {
    for i in 0..3 {
        close(s.spectrum.0[i] * cos, e.0[i] * s.pdf, 1e-5, l);
    }
}
fn reflected(h: &Hit, s: &BSDFSample, a: Float, c: Float) {
    let (x, y, z) = h.local(s.wi);
    let l = "mirrors reflect light at the angle at which it comes";
    close(x, a * 0.6, 1e-5, l);
    close(y, a * 0.8, 1e-5, l);
    close(z, c, 1e-5, l);
    check(s.is_reflection() && !s.is_transmission() && s.is_specular(), "reflections are flagged as such");
    h.moved(1.0);
}

fn mirror() {
    let mut h = hit(choose("frame", 5), choose("front", 2) == 0);
    let s = sym("s", -0.99, 0.99);
    let (d, c) = h.arrive(s);
    let colour = spectrum("c", 0.0, 1.0);
    let m = Material::Mirror(Mirror(colour));
    let mut eta = sym("eta", 1.0, 2.0);
    let eta0 = eta;
    let r = m.sample_bsdf(d, &mut h.i, &mut eta, &mut rng()).unwrap();
    reflected(&h, &r, s, c);
    weight(&r, c, colour, "a mirror returns the light times its colour");
    lt(0.0, r.pdf, "probabilities are positive");
    close(eta, eta0, 1e-9, "light changes medium only when it is transmitted");
}
fn diffuse() {
    let mut h = hit(choose("frame", 5), choose("front", 2) == 0);
    let s = sym("s", -0.99, 0.99);
    let (d, _) = h.arrive(s);
    let colour = spectrum("c", 0.0, 1.0);
    let spec = [0.0, 0.25][choose("specularity", 2)] as Float;
    let (m, first) = match choose("kind", 3) {
        0 => (Material::Diffuse(Diffuse::new(colour)), false),
        1 => (Material::Plastic(Plastic { colour, specularity: spec, roughness: 0.1 }), true),
        _ => (Material::Metal(Metal { colour, specularity: spec, roughness: 0.1 }), true),
    };
    // the first draw of plastics and metals chooses between the diffuse and the glossy part
    if first {
        assume_le(spec, drawn(0));
    }
    // not along the surface itself
    assume_le(drawn(if first { 1 } else { 0 }), 0.999);
    let mut eta = 1.0;
    let r = m.sample_bsdf(d, &mut h.i, &mut eta, &mut rng()).unwrap();
    let (x, y, z) = h.local(r.wi);
    close(x * x + y * y + z * z, 1.0, 1e-5, "directions have length one");
    lt(0.0, z, "opaque surfaces reflect to the side from which light comes");
    lt(0.0, r.pdf, "probabilities are positive");
    weight(&r, z, colour, "a diffuse surface returns the light times its colour");
    check(r.is_reflection() && !r.is_transmission() && !r.is_specular(), "reflections are flagged as such");
    h.moved(1.0);
    // and the density is the one that the material tells
    if !first {
        let (e1, e2, n) = (h.e1, h.e2, h.n);
        close(m.pdf(n, e1, e2, d * -1.0, r.wi, 1.0), r.pdf, 1e-5, "the density of a sample is the one of its direction");
    }
}
/// clear glass: what is not reflected is transmitted
fn clear_glass() {
    let mut h = hit(choose("frame", 2), choose("front", 2) == 0);
    let k = [(0.0, 1.0), (0.6, 0.8), (0.8, 0.6), (12.0 / 13.0, 5.0 / 13.0), (40.0 / 41.0, 9.0 / 41.0)][choose("angle", 5)];
    let (s, c) = (k.0 as Float, k.1 as Float);
    let d = h.e1 * (s * 0.6) + h.e2 * (s * 0.8) - h.n * c;
    let m = Material::Glass(Glass { colour: Spectrum::ONE, refraction_index: [1.2, 1.52, 2.0][choose("n", 3)] as Float });
    let mut eta = 1.0;
    let r = m.sample_bsdf(d, &mut h.i, &mut eta, &mut rng()).unwrap();
    lt(0.0, r.pdf, "probabilities are positive");
    le(r.pdf, 1.0, 1e-9, "probabilities are at most one");
    weight(&r, c, Spectrum::ONE, "clear glass reflects or transmits all of the light");
    glass_way(&h, &r, d, s, c);
    close(eta, 1.0, 1e-9, "light changes medium only when it is transmitted");
}
fn glass_way(h: &Hit, r: &BSDFSample, d: Vector3D, s: Float, c: Float) {
    if r.is_reflection() {
        reflected(h, r, s, c);
    } else {
        check(r.is_transmission() && r.is_specular(), "transmissions are flagged as such");
        let v = r.wi - d;
        close(v * v, 0.0, 1e-6, "light goes straight through glass");
        h.moved(-1.0);
    }
}
fn tinted_glass() {
    let mut h = hit(choose("frame", 2), choose("front", 2) == 0);
    let k = [(0.0, 1.0), (0.6, 0.8), (0.8, 0.6), (12.0 / 13.0, 5.0 / 13.0), (40.0 / 41.0, 9.0 / 41.0)][choose("angle", 5)];
    let (s, c) = (k.0 as Float, k.1 as Float);
    let d = h.e1 * (s * 0.6) + h.e2 * (s * 0.8) - h.n * c;
    let n = [1.2, 1.52, 2.0][choose("n", 3)] as Float;
    let g = sym("g", 0.0625, 1.0);
    let m = Material::Glass(Glass { colour: Spectrum::gray(g), refraction_index: n });
    let mut eta = 1.0;
    let r = m.sample_bsdf(d, &mut h.i, &mut eta, &mut rng()).unwrap();
    lt(0.0, r.pdf, "probabilities are positive");
    le(r.pdf, 1.0, 1e-9, "probabilities are at most one");
    for i in 0..3 {
        le(0.0, r.spectrum.0[i], 1e-9, "light is never negative");
        le(r.spectrum.0[i] * c, r.pdf, 1e-6, "glass never returns more light than it gets");
    }
    glass_way(&h, &r, d, s, c);
}
/// opaque and coloured glass: each channel on its own
fn glass_channels() {
    let mut h = hit(0, true);
    let d = h.n * -1.0;
    let n = [1.2, 1.52, 2.0][choose("n", 3)] as Float;
    // straight down, the path within the glass is one thickness: the transmissivity itself counts
    let c = spectrum("c", 0.0625, 1.0);
    let m = Material::Glass(Glass { colour: c, refraction_index: n });
    let mut eta = 1.0;
    let r = m.sample_bsdf(d, &mut h.i, &mut eta, &mut rng()).unwrap();
    let f0 = (1.0 - n) / (1.0 + n);
    let f = f0 * f0;
    let (mut tr, mut rf) = ([0.0 as Float; 3], [0.0 as Float; 3]);
    for i in 0..3 {
        let q = c.0[i];
        let den = 1.0 - f * f * q * q;
        tr[i] = (1.0 - f) * (1.0 - f) * q / den;
        rf[i] = f * (1.0 + (1.0 - 2.0 * f) * q * q) / den;
    }
    let e = if r.is_reflection() { rf } else { tr };
    for i in 0..3 {
        close(r.spectrum.0[i], e[i], 1e-5, "straight through glass, each channel as Fresnel and its transmissivity tell");
    }
    let (a, b) = (Spectrum(rf).radiance(), Spectrum(tr).radiance());
    let p = if r.is_reflection() { a } else { b };
    close(r.pdf * (a + b), p, 1e-5, "reflection and transmission are as likely as they are bright");
}

fn unit_pairs(k: usize) -> (Float, Float) {
    let p = [(0.0, 1.0), (0.28, 0.96), (0.6, 0.8), (0.8, 0.6), (12.0 / 13.0, 5.0 / 13.0), (40.0 / 41.0, 9.0 / 41.0)][k];
    (p.0 as Float, p.1 as Float)
}
/// into and out of a dielectric
fn dielectric() {
    let front = choose("front", 2) == 0;
    let mut h = hit(choose("frame", 2), front);
    let (s, c) = unit_pairs(choose("angle", 6));
    let d = h.e1 * (s * 0.6) + h.e2 * (s * 0.8) - h.n * c;
    let n = sym("n", 1.1, 2.5);
    let colour = spectrum("c", 0.125, 1.0);
    let m = Material::Dielectric(Dielectric { colour, refraction_index: n });
    let mut eta = if front { 1.0 } else { n };
    let (n1, n2) = if front { (1.0, n) } else { (n, 1.0) };
    // not at the critical angle itself
    let total = n1 * s > n2;
    if total {
        assume_le(n2 * 1.001, n1 * s);
    } else {
        assume_le(n1 * s, n2 * 0.999);
    }
    let r = m.sample_bsdf(d, &mut h.i, &mut eta, &mut rng()).unwrap();
    lt(0.0, r.pdf, "probabilities are positive");
    le(r.pdf, 1.0, 1e-6, "probabilities are at most one");
    if r.is_reflection() {
        reflected(&h, &r, s, c);
        weight(&r, c, Spectrum::ONE, "the surface of a dielectric reflects without colour");
        close(eta, n1, 1e-9, "light changes medium only when it is transmitted");
    } else {
        check(!total, "beyond the critical angle all light is reflected");
        check(r.is_transmission() && r.is_specular(), "transmissions are flagged as such");
        let (x, y, z) = h.local(r.wi);
        close(n2 * x, n1 * s * 0.6, 1e-5, "refraction follows Snell's law");
        close(n2 * y, n1 * s * 0.8, 1e-5, "refraction follows Snell's law");
        close(x * x + y * y + z * z, 1.0, 1e-5, "directions have length one");
        lt(z, 0.0, "transmitted light goes to the other side");
        h.moved(-1.0);
        close(eta, n2, 1e-9, "transmitted light is in the other medium");
        // all channels keep the proportions of the colour
        for i in 0..3 {
            close(r.spectrum.0[i] * colour.0[0], r.spectrum.0[0] * colour.0[i], 1e-4, "transmitted light takes the colour of the dielectric");
            lt(0.0, r.spectrum.0[i], "light is never negative");
        }
        let w = r.spectrum.0[0] * -z;
        close(w * w * n2, r.pdf * r.pdf * colour.0[0] * colour.0[0] * n1, 1e-4, "what goes in and comes out of a dielectric only takes its colour");
    }
}
fn fresnel() {
    let (n1, n2) = (sym("n1", 1.0, 2.5), sym("n2", 1.0, 2.5));
    let (c1, c2) = (sym("c1", 0.0625, 1.0), sym("c2", 0.0625, 1.0));
    let r = fresnel_reflectance(n1, c1, n2, c2);
    let te = fresnel_te(n1, c1, n2, c2);
    let tm = fresnel_tm(n1, c1, n2, c2);
    match choose("what", 4) {
        0 => {
            le(0.0, r, 1e-9, "reflectance is not negative");
            le(te, 1.0, 1e-9, "amplitudes are at most one");
            le(-1.0, te, 1e-9, "amplitudes are at most one");
            le(tm, 1.0, 1e-9, "amplitudes are at most one");
            le(-1.0, tm, 1e-9, "amplitudes are at most one");
        }
        1 => {
            close(te * (n1 * c1 + n2 * c2), n1 * c1 - n2 * c2, 1e-6, "the Fresnel equations");
            close(tm * (n1 * c2 + n2 * c1), n1 * c2 - n2 * c1, 1e-6, "the Fresnel equations");
            close(2.0 * r, te * te + tm * tm, 1e-6, "reflectance averages the polarisations");
        }
        2 => {
            close(fresnel_te(n2, c2, n1, c1), -te, 1e-6, "reflectance is the same from both sides");
            close(fresnel_tm(n2, c2, n1, c1), -tm, 1e-6, "reflectance is the same from both sides");
        }
        _ => {
            let q = fresnel_reflectance(n1, 1.0, n2, 1.0);
            close(q * (n1 + n2) * (n1 + n2), (n1 - n2) * (n1 - n2), 1e-5, "reflectance straight on");
        }
    }
}
fn snell() {
    let (e1, e2, n) = frames(choose("frame", 5));
    let (s, c) = unit_pairs(choose("angle", 6));
    let n1 = sym("n1", 1.0, 2.5);
    let m = sym("m", 1.0, 2.5);
    let side = [1.0, -1.0][choose("side", 2)] as Float;
    let v = e1 * (s * 0.6) + e2 * (s * 0.8) - n * (c * side);
    // a ray inside the material leaves it to the air
    let inside = choose("inside", 2) == 1;
    if !inside {
        let g = n1 - m;
        assume_le(0.001, g * g);
    }
    let (a, cos1, b, cos2) = cos_and_n(v, n1, n, if inside { n1 } else { m });
    close(a, n1, 1e-9, "the medium of the ray");
    close(b, if inside { 1.0 } else { m }, 1e-9, "the other medium");
    close(cos1, c, 1e-6, "the cosine of incidence");
    match cos2 {
        None => lt(b * b, n1 * n1 * s * s * 1.0000001, "total reflection only beyond the critical angle"),
        Some(k) => {
            le(0.0, k, 1e-9, "cosines are positive");
            close(b * b * (1.0 - k * k), n1 * n1 * s * s, 1e-5, "refraction follows Snell's law");
        }
    }
}
/// what materials evaluate
fn evaluated() {
    let h = hit(choose("frame", 5), true);
    let dir = |n: &str, z: Float| h.e1 * sym(&format!("{n}x"), -2.0, 2.0) + h.e2 * 0.5 + h.n * z;
    let (za, zb) = (sym("za", 0.125, 2.0), sym("zb", 0.125, 2.0));
    let (i, o) = match choose("sides", 4) {
        0 => (1.0, 1.0),
        1 => (1.0, -1.0),
        2 => (-1.0, 1.0),
        _ => (-1.0, -1.0),
    } as (Float, Float);
    let same = i * o > 0.0;
    let vin = dir("i", za * i);
    let vout = dir("o", zb * o);
    let colour = spectrum("c", 0.0, 1.0);
    let spec = [0.0, 0.25][choose("specularity", 2)] as Float;
    let k = choose("kind", 7);
    let m = match k {
        0 => Material::Diffuse(Diffuse::new(colour)),
        1 => Material::Plastic(Plastic { colour, specularity: spec, roughness: 0.1 }),
        2 => Material::Metal(Metal { colour, specularity: spec, roughness: 0.1 }),
        3 => Material::Mirror(Mirror(colour)),
        4 => Material::Glass(Glass { colour, refraction_index: 1.5 }),
        5 => Material::Dielectric(Dielectric { colour, refraction_index: 1.5 }),
        _ => Material::Light(Light(colour)),
    };
    let v = m.eval_bsdf(h.n, h.e1, h.e2, vin, vout, 1.0);
    let p = m.pdf(h.n, h.e1, h.e2, vin, vout, 1.0);
    check(m.emits_light() == (k == 6) && m.emits_direct_light() == (k == 6), "only lights emit light");
    check(m.specular_only() == (k >= 3 && k <= 5), "mirrors, glass and dielectrics are specular");
    if !same || k >= 3 {
        for i in 0..3 {
            close(v.0[i], 0.0, 1e-9, "nothing goes through an opaque surface, and specular ones need the exact direction");
        }
        close(p, 0.0, 1e-9, "nothing goes through an opaque surface, and specular ones need the exact direction");
    } else if k == 0 {
        for i in 0..3 {
            close(v.0[i] * PI, colour.0[i], 1e-6, "a diffuse surface reflects the same in every direction");
        }
        close(p * PI, zb, 1e-6, "the density of a diffuse surface is the cosine over pi");
    } else {
        for i in 0..3 {
            le(0.0, v.0[i], 1e-9, "light is never negative");
            if spec == 0.0 {
                close(v.0[i] * PI, colour.0[i], 1e-6, "without specularity a surface is diffuse");
            } else {
                le(colour.0[i] * 0.75, v.0[i] * PI, 1e-6, "the diffuse part is what is not specular");
            }
        }
        le(0.0, p, 1e-9, "densities are never negative");
    }
}
fn light_has_no_bsdf() {
    let mut h = hit(choose("frame", 5), true);
    let (d, _) = h.arrive(sym("s", -0.99, 0.99));
    let colour = spectrum("c", 0.0, 100.0);
    let m = Material::Light(Light(colour));
    let mut eta = 1.0;
    check(m.sample_bsdf(d, &mut h.i, &mut eta, &mut rng()).is_none(), "lights do not reflect");
    for i in 0..3 {
        close(m.colour().0[i], colour.0[i], 1e-9, "lights have their colour");
    }
}

pub fn cases() -> Vec<Case> {
    vec![
        case("R01", "mirror", mirror),
        case("R01", "diffuse", diffuse),
        case("R01", "clear_glass", clear_glass),
        case("R01", "tinted_glass", tinted_glass),
        case("R01", "glass_channels", glass_channels),
        case("R01", "dielectric", dielectric),
        case("R01", "fresnel", fresnel),
        case("R01", "snell", snell),
        case("R01", "evaluated", evaluated),
        case("R01", "light_has_no_bsdf", light_has_no_bsdf),
    ]
}
