//! f64 models of the scattering lobes, material generation, and C12-C15, C26.
use crate::engine::*;
use crate::gen::*;
use crate::m::*;
use crate::{discard, ensure, fail};
use pt::api::*;
use pt::verif::{Interaction, MicrofacetDistribution, Texture, BSDF, REFLECTION, SPECULAR, TRANSMISSION};
use std::sync::Arc;

pub type S3 = [f64; 3];

fn sp(s: S3) -> Spectrum {
    Spectrum::new(s[0] as f32, s[1] as f32, s[2] as f32)
}
pub fn s3(s: Spectrum) -> S3 {
    [s.r as f64, s.g as f64, s.b as f64]
}

// ---------------------------------------------------------------- model

#[derive(Clone, Copy, Debug)]
pub enum Fr {
    One,
    Diel(f64, f64),
    Cond(S3, S3),
}

/// exact Fresnel reflectance; cos > 0: from the first medium
pub fn fr_diel(cos: f64, ei: f64, et: f64) -> f64 {
    let (ei, et, c) = if cos > 0. { (ei, et, cos) } else { (et, ei, -cos) };
    let c = c.min(1.);
    let st2 = (ei / et).powi(2) * (1. - c * c);
    if st2 >= 1. {
        return 1.;
    }
    let ct = (1. - st2).sqrt();
    let a = (et * c - ei * ct) / (et * c + ei * ct);
    let b = (ei * c - et * ct) / (ei * c + et * ct);
    (a * a + b * b) / 2.
}

/// complex arithmetic: reflectance of a conductor with index n + ik against vacuum
pub fn fr_cond(cos: f64, n: f64, k: f64) -> f64 {
    let c = cos.abs().min(1.);
    let s2 = 1. - c * c;
    // w = sqrt((n + ik)^2 - s2)
    let (re, im) = (n * n - k * k - s2, 2. * n * k);
    let mag = (re * re + im * im).sqrt();
    let wr = ((mag + re) / 2.).max(0.).sqrt();
    let wi = ((mag - re) / 2.).max(0.).sqrt();
    // r_s = (c - w) / (c + w)
    let rs = ((c - wr).powi(2) + wi * wi) / ((c + wr).powi(2) + wi * wi);
    // r_p = (m^2 c - w) / (m^2 c + w), m^2 = (n+ik)^2
    let (mr, mi) = (n * n - k * k, 2. * n * k);
    let rp = ((mr * c - wr).powi(2) + (mi * c - wi).powi(2)) / ((mr * c + wr).powi(2) + (mi * c + wi).powi(2));
    (rs + rp) / 2.
}

impl Fr {
    pub fn eval(&self, cos: f64) -> S3 {
        match *self {
            Fr::One => [1.; 3],
            Fr::Diel(a, b) => [fr_diel(cos, a, b); 3],
            Fr::Cond(n, k) => [fr_cond(cos, n[0], k[0]), fr_cond(cos, n[1], k[1]), fr_cond(cos, n[2], k[2])],
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Lobe {
    Lambert(S3),
    Refl(S3, f64, f64, Fr),
    Trans(S3, f64, f64, f64), // alpha x, alpha y, eta below (above is 1)
    SRefl(S3, Fr),
    STrans(S3, f64),
}

pub fn ggx_d(h: V, ax: f64, ay: f64) -> f64 {
    let q = (h.0 / ax).powi(2) + (h.1 / ay).powi(2) + h.2 * h.2;
    1. / (PI * ax * ay * q * q)
}
pub fn ggx_lambda(w: V, ax: f64, ay: f64) -> f64 {
    let a2t2 = ((w.0 * ax).powi(2) + (w.1 * ay).powi(2)) / (w.2 * w.2);
    (-1. + (1. + a2t2).sqrt()) / 2.
}
fn face(h: V, up: bool) -> V {
    if (h.2 < 0.) == up {
        -h
    } else {
        h
    }
}

impl Lobe {
    pub fn specular(&self) -> bool {
        match self {
            Lobe::SRefl(..) | Lobe::STrans(..) => true,
            _ => false,
        }
    }
    pub fn trans(&self) -> bool {
        match self {
            Lobe::Trans(..) | Lobe::STrans(..) => true,
            _ => false,
        }
    }
    /// value for local unit directions
    pub fn f(&self, wo: V, wi: V) -> S3 {
        let z = [0.; 3];
        if wo.2 == 0. || wi.2 == 0. {
            return z;
        }
        let same = wo.2 * wi.2 > 0.;
        match *self {
            Lobe::Lambert(r) if same => [r[0] / PI, r[1] / PI, r[2] / PI],
            Lobe::Refl(r, ax, ay, fr) if same => {
                let h = face((wo + wi).norm(), true);
                let k = ggx_d(h, ax, ay) / (1. + ggx_lambda(wo, ax, ay) + ggx_lambda(wi, ax, ay)) / (4. * (wo.2 * wi.2).abs());
                let fr = fr.eval(wi.dot(h));
                [r[0] * k * fr[0], r[1] * k * fr[1], r[2] * k * fr[2]]
            }
            Lobe::Trans(t, ax, ay, eta) if !same => {
                let (no, ni) = if wo.2 > 0. { (1., eta) } else { (eta, 1.) };
                let h = face((wo * no + wi * ni).norm(), true);
                let (co, ci) = (wo.dot(h), wi.dot(h));
                if co * wo.2 <= 0. || ci * wi.2 <= 0. {
                    return z;
                }
                let f = fr_diel(co, 1., eta);
                let g = 1. / (1. + ggx_lambda(wo, ax, ay) + ggx_lambda(wi, ax, ay));
                // Walter et al. for radiance seen along wo: transported radiance scales by (no / ni)^2
                let k = (co * ci).abs() / (wo.2 * wi.2).abs() * ni * ni * (1. - f) * g * ggx_d(h, ax, ay) / (no * co + ni * ci).powi(2) * (no / ni).powi(2);
                [t[0] * k, t[1] * k, t[2] * k]
            }
            _ => z,
        }
    }
}

pub fn f_model(lobes: &[Lobe], wo: V, wi: V) -> S3 {
    let mut r = [0.; 3];
    for l in lobes {
        let v = l.f(wo, wi);
        for k in 0..3 {
            r[k] += v[k];
        }
    }
    r
}

/// Allowed difference between the f32 value and the model: conditioning with respect to direction errors
/// of `delta`, and the rounding inside the distribution for narrow lobes.
fn f_tol(lobes: &[Lobe], wo: V, wi: V, delta: f64) -> S3 {
    let base = f_model(lobes, wo, wi);
    let mut t = [0.; 3];
    for k in 0..6 {
        for s in &[-1., 1.] {
            let mut d = V(0., 0., 0.);
            match k % 3 {
                0 => d.0 = s * delta,
                1 => d.1 = s * delta,
                _ => d.2 = s * delta,
            }
            let f = if k < 3 { f_model(lobes, wo + d, wi) } else { f_model(lobes, wo, wi + d) };
            for c in 0..3 {
                t[c] += (f[c] - base[c]).abs();
            }
        }
    }
    for c in 0..3 {
        t[c] = t[c] * 3. + base[c] * 2e-5 + 1e-9;
    }
    for l in lobes {
        let (ax, ay, h, amp) = match *l {
            Lobe::Refl(_, ax, ay, _) => {
                let s = wo + wi;
                (ax, ay, s.norm(), 2. / s.len())
            }
            Lobe::Trans(_, ax, ay, eta) => {
                let (no, ni) = if wo.2 > 0. { (1., eta) } else { (eta, 1.) };
                let s = wo * no + wi * ni;
                (ax, ay, s.norm(), (no + ni) / s.len())
            }
            _ => continue,
        };
        let g = 1. / (ax.min(ay)).powi(2);
        let z = h.2.abs();
        let e = ((h.0 / ax).powi(2) + (h.1 / ay).powi(2)) / (z * z);
        let dz = delta * (1. + amp);
        let de = (4. * dz / (z * z)) * g + e * (3. * dz / z + 1e-6);
        let rel = 3. * (2. * de / (1. + e) + 4. * dz / z);
        let v = l.f(wo, wi);
        for c in 0..3 {
            t[c] += v[c] * rel.min(1e3);
            if rel > 0.5 {
                t[c] = std::f64::INFINITY;
            }
        }
    }
    t
}

// ---------------------------------------------------------------- proposals for integrals over directions

fn uni(r: &mut Rng) -> V {
    let z = 2. * r.f64() - 1.;
    let p = 2. * PI * r.f64();
    let s = (1. - z * z).max(0.).sqrt();
    V(s * p.cos(), s * p.sin(), z)
}
fn cosh(r: &mut Rng) -> V {
    let u = r.f64();
    let p = 2. * PI * r.f64();
    V(u.sqrt() * p.cos(), u.sqrt() * p.sin(), (1. - u).sqrt())
}
fn ggx_sample(r: &mut Rng, ax: f64, ay: f64) -> V {
    let u = r.f64();
    let p = 2. * PI * r.f64();
    let m = (u / (1. - u)).sqrt();
    V(ax * m * p.cos(), ay * m * p.sin(), 1.).norm()
}

/// Mixture of samplers that together cover all lobes seen from the fixed direction `w`.
pub struct Mix<'a> {
    lobes: &'a [Lobe],
    w: V,
}
impl<'a> Mix<'a> {
    pub fn new(lobes: &'a [Lobe], w: V) -> Mix<'a> {
        Mix { lobes, w }
    }
    fn n(&self) -> usize {
        3 + self.lobes.len()
    }
    pub fn sample(&self, r: &mut Rng) -> Option<V> {
        match r.below(self.n() as u64) as usize {
            0 => Some(uni(r)),
            1 => Some(cosh(r)),
            2 => Some(-cosh(r)),
            k => match self.lobes[k - 3] {
                Lobe::Refl(_, ax, ay, _) => {
                    let h = face(ggx_sample(r, ax, ay), self.w.2 > 0.);
                    Some(h * (2. * self.w.dot(h)) - self.w)
                }
                Lobe::Trans(_, ax, ay, eta) => {
                    let h = face(ggx_sample(r, ax, ay), self.w.2 > 0.);
                    let e = if self.w.2 > 0. { 1. / eta } else { eta };
                    let c = self.w.dot(h);
                    if c <= 0. {
                        return None;
                    }
                    let st2 = e * e * (1. - c * c);
                    if st2 >= 1. {
                        return None;
                    }
                    Some((h * (e * c - (1. - st2).sqrt()) - self.w * e).norm())
                }
                _ => Some(cosh(r)),
            },
        }
    }
    pub fn pdf(&self, wi: V) -> f64 {
        let up = if wi.2 > 0. { wi.2 / PI } else { 0. };
        let mut q = 1. / (4. * PI) + up + if wi.2 < 0. { -wi.2 / PI } else { 0. };
        for l in self.lobes {
            q += match *l {
                Lobe::Refl(_, ax, ay, _) => {
                    let h = (self.w + wi).norm();
                    ggx_d(h, ax, ay) * h.2.abs() / (4. * self.w.dot(h).abs())
                }
                Lobe::Trans(_, ax, ay, eta) => {
                    let (no, ni) = if self.w.2 > 0. { (1., eta) } else { (eta, 1.) };
                    let h = face((self.w * no + wi * ni).norm(), self.w.2 > 0.);
                    let (co, ci) = (self.w.dot(h), wi.dot(h));
                    if co <= 0. || ci >= 0. {
                        0.
                    } else {
                        ggx_d(h, ax, ay) * h.2.abs() * ni * ni * ci.abs() / (no * co + ni * ci).powi(2)
                    }
                }
                _ => up,
            };
        }
        q / self.n() as f64
    }
}

// ---------------------------------------------------------------- materials and frames

#[derive(Clone)]
pub struct MatCase {
    pub mat: Arc<dyn Material>,
    pub lobes: Vec<Lobe>,
    pub name: String,
    /// index below the surface, for transmitting materials
    pub eta: f64,
}

pub fn cs(s: S3) -> Arc<dyn Texture<Output = Spectrum>> {
    Arc::new(ConstantTexture::new(sp(s)))
}
pub fn cf(x: f64) -> Arc<dyn Texture<Output = f32>> {
    Arc::new(ConstantTexture::new(x as f32))
}

pub fn color(src: &mut Src, max: f64) -> S3 {
    let mut c = [0.; 3];
    match src.weighted(&[4, 2, 2]) {
        0 => {
            for x in c.iter_mut() {
                *x = src.range(0.02, 1.) * max;
            }
        }
        1 => c = [max; 3],
        _ => {
            for x in c.iter_mut() {
                *x = if src.bool() { src.range(0., 1.) * max } else { 0. };
            }
            if c == [0.; 3] {
                c[0] = max;
            }
        }
    }
    // the f32 values actually used
    [c[0] as f32 as f64, c[1] as f32 as f64, c[2] as f32 as f64]
}

fn rough(src: &mut Src, lo: f64) -> f64 {
    (match src.weighted(&[5, 1]) {
        0 => src.logrange(lo, 1.),
        _ => src.pick(&[1., 0.5, 0.1]),
    }) as f32 as f64
}

pub fn eta_gen(src: &mut Src) -> f64 {
    (match src.weighted(&[3, 2, 2]) {
        0 => src.range(1.1, 2.5),
        1 => src.range(0.4, 0.92),
        _ => src.pick(&[1.5, 1.33, 2., 0.75]),
    }) as f32 as f64
}

/// kinds: 0 diffuse, 1 metal, 2 plastic, 3 glass, 4 mirror; `smooth` forces zero roughness
pub fn gen_mat(src: &mut Src, kind: usize, smooth: bool, min_rough: f64) -> MatCase {
    let (mut ax, mut ay) = (0., 0.);
    if !smooth {
        ax = rough(src, min_rough);
        ay = if src.pct(60) { rough(src, min_rough) } else { ax };
    }
    mat_of(src, kind, ax, ay)
}

/// ... with given roughnesses
pub fn mat_of(src: &mut Src, kind: usize, ax: f64, ay: f64) -> MatCase {
    let f32r = |x: f64| x as f32 as f64;
    let smooth = ax == 0. && (ay == 0. || kind == 2);
    match kind {
        0 => {
            let r = color(src, 1.);
            MatCase { mat: Arc::new(LambertianReflectionMaterial::new(cs(r))), lobes: vec![Lobe::Lambert(r)], name: format!("diffuse {:?}", r), eta: 1. }
        }
        1 => {
            let r = color(src, 1.);
            let mut n = [0.; 3];
            let mut k = [0.; 3];
            for c in 0..3 {
                n[c] = f32r(src.logrange(0.1, 4.));
                k[c] = f32r(src.logrange(0.5, 6.));
            }
            let fr = Fr::Cond(n, k);
            MatCase {
                mat: Arc::new(MetalMaterial::new(cs(r), cs(n), cs(k), cf(ax), cf(ay))),
                lobes: vec![if smooth { Lobe::SRefl(r, fr) } else { Lobe::Refl(r, ax, ay, fr) }],
                name: format!("metal r={:?} eta={:?} k={:?} rough {}/{}", r, n, k, ax, ay),
                eta: 1.,
            }
        }
        2 => {
            let share = src.range(0.1, 0.9);
            let (d, s) = match src.weighted(&[3, 1, 1]) {
                0 => (color(src, share), color(src, 1. - share)),
                1 => (color(src, 1.), [0.; 3]),
                _ => ([0.; 3], color(src, 1.)),
            };
            let mut lobes = vec![];
            if d != [0.; 3] {
                lobes.push(Lobe::Lambert(d));
            }
            let fr = Fr::Diel(1., 1.5);
            if s != [0.; 3] {
                lobes.push(if smooth { Lobe::SRefl(s, fr) } else { Lobe::Refl(s, ax, ax, fr) });
            }
            MatCase { mat: Arc::new(PlasticMaterial::new(cs(d), cs(s), cf(ax))), lobes, name: format!("plastic kd={:?} ks={:?} rough {}", d, s, ax), eta: 1. }
        }
        3 => {
            let eta = eta_gen(src);
            let (r, t) = match src.weighted(&[4, 1, 1]) {
                0 => (color(src, 1.), color(src, 1.)),
                1 => (color(src, 1.), [0.; 3]),
                _ => ([0.; 3], color(src, 1.)),
            };
            let mut lobes = vec![];
            let fr = Fr::Diel(1., eta);
            if r != [0.; 3] {
                lobes.push(if smooth { Lobe::SRefl(r, fr) } else { Lobe::Refl(r, ax, ay, fr) });
            }
            if t != [0.; 3] {
                lobes.push(if smooth { Lobe::STrans(t, eta) } else { Lobe::Trans(t, ax, ay, eta) });
            }
            MatCase { mat: Arc::new(GlassMaterial::new(cs(r), cs(t), cf(eta), cf(ax), cf(ay))), lobes, name: format!("glass kr={:?} kt={:?} eta={} rough {}/{}", r, t, eta, ax, ay), eta }
        }
        _ => {
            let r = color(src, 1.);
            MatCase { mat: Arc::new(MirrorMaterial::new(cs(r))), lobes: vec![Lobe::SRefl(r, Fr::One)], name: format!("mirror {:?}", r), eta: 1. }
        }
    }
}

pub struct Frame {
    pub i: Interaction,
    s: V,
    t: V,
    n: V,
    pub gn: V,
    /// axis-aligned: conversions are exact
    exact: bool,
    tilted: bool,
}

impl Frame {
    pub fn local(&self, w: V) -> V {
        V(w.dot(self.s), w.dot(self.t), w.dot(self.n))
    }
    pub fn world(&self, w: V) -> V {
        self.s * w.0 + self.t * w.1 + self.n * w.2
    }
    /// side of a world direction, if geometric and shading side agree clearly
    pub fn side(&self, w: V) -> Option<bool> {
        let (a, b) = (w.dot(self.n), w.dot(self.gn));
        if a.abs() < 2e-6 || b.abs() < 2e-6 || (a > 0.) != (b > 0.) {
            None
        } else {
            Some(a > 0.)
        }
    }
    fn delta(&self) -> f64 {
        if self.exact {
            1.5e-7
        } else {
            4e-7
        }
    }
}

pub fn gen_frame(src: &mut Src, allow_tilt: bool) -> Frame {
    let kind = src.weighted(&[4, 3, if allow_tilt { 4 } else { 0 }]);
    let (s, t, n) = if kind == 0 { (V(1., 0., 0.), V(0., 1., 0.), V(0., 0., 1.)) } else { frame(unit_dir(src), src.range(0., 2. * PI)) };
    let gn = if kind == 2 {
        let a = src.range(0., 1.2);
        rotate(n, perp_at(n, src.range(0., 2. * PI)), a)
    } else {
        n
    };
    let len = src.pick(&[1., 0.2, 7.]);
    let mut i = Interaction::default();
    i.p = point(src, 5.).p();
    i.n = gn.n();
    i.sn = n.n();
    i.dpdu = (s * len).v();
    i.dpdv = (t * len).v();
    i.uv = Point2f::new(src.unit() as f32, src.unit() as f32);
    // what f32 made of it
    let n = i.sn.d().norm();
    let s = (i.dpdu.d() - n * i.dpdu.d().dot(n)).norm();
    let t = n.cross(s);
    Frame { s, t, n, gn: i.n.d().norm(), i, exact: kind == 0, tilted: kind == 2 }
}

fn perp_at(n: V, a: f64) -> V {
    let (s, t, _) = frame(n, 0.);
    s * a.cos() + t * a.sin()
}

/// local direction, all elevations down to grazing
fn ldir(src: &mut Src) -> V {
    let z = match src.weighted(&[5, 2, 1, 1]) {
        0 => src.range(0.02, 1.),
        1 => 1. - src.logrange(1e-7, 0.1),
        2 => src.logrange(1e-5, 0.1),
        _ => src.pick(&[1., 0.5, 0.70710678]),
    };
    let p = match src.weighted(&[4, 1]) {
        0 => src.range(0., 2. * PI),
        _ => src.int(0, 7) as f64 * PI / 4.,
    };
    let s = (1. - z * z).max(0.).sqrt();
    V(s * p.cos(), s * p.sin(), if src.pct(45) { -z } else { z })
}

/// direction aimed at the bright part of a lobe
fn lobe_dir(src: &mut Src, lobes: &[Lobe], wo: V) -> V {
    let mut r = Rng::new(src.seed());
    let m = Mix::new(lobes, wo);
    for _ in 0..8 {
        if let Some(w) = m.sample(&mut r) {
            if w.2.abs() > 1e-5 {
                return w;
            }
        }
    }
    V(0., 0., 1.)
}

fn rough_kind(src: &mut Src) -> usize {
    src.weighted(&[1, 3, 2, 5])
}

// ---------------------------------------------------------------- C14

fn c14_values(src: &mut Src, ctx: &mut Ctx) -> R {
    let kind = rough_kind(src);
    let mc = gen_mat(src, kind, false, 0.0015);
    let fr = gen_frame(src, true);
    let bsdf = mc.mat.compute_scattering(&fr.i);
    ctx.label(["diffuse", "metal", "plastic", "glass"][kind]);
    ctx.desc(|| mc.name.clone());
    for _ in 0..4 {
        let wo = ldir(src);
        let wi = if src.pct(70) { lobe_dir(src, &mc.lobes, wo) } else { ldir(src) };
        let (wow, wiw) = (fr.world(wo).norm().v(), fr.world(wi).norm().v());
        let (so, si) = match (fr.side(wow.d()), fr.side(wiw.d())) {
            (Some(a), Some(b)) => (a, b),
            _ => continue,
        };
        let (wo, wi) = (fr.local(wow.d()), fr.local(wiw.d()));
        let got = s3(bsdf.f(wow, wiw));
        let want = f_model(&mc.lobes, wo, wi);
        let tol = f_tol(&mc.lobes, wo, wi, fr.delta());
        if tol.iter().any(|x| !x.is_finite()) {
            ctx.label("ill-conditioned");
            continue;
        }
        ctx.cmp();
        if want.iter().any(|&x| x > 1e-6) {
            ctx.nontrivial();
            ctx.label(if so == si { "reflection" } else { "transmission" });
        }
        for c in 0..3 {
            ensure!(
                (got[c] - want[c]).abs() <= tol[c],
                "{}: value for local directions {:?} and {:?} ({}) is {} in channel {}, the model gives {} (+-{})",
                mc.name, wo, wi, if fr.tilted { "tilted frame" } else { "plain frame" }, got[c], c, want[c], tol[c]
            );
        }
    }
    Ok(())
}

fn c14_distribution(src: &mut Src, ctx: &mut Ctx) -> R {
    let ax = src.logrange(0.003, 1.) as f32;
    let ay = if src.bool() { ax } else { src.logrange(0.003, 1.) as f32 };
    let d = MicrofacetDistribution::new(ax, ay);
    let (a, b) = (ax as f64, ay as f64);
    ctx.desc(|| format!("distribution {} {}", ax, ay));
    ctx.nontrivial();
    // integral over projected area: uniform in the stretched disk coordinates
    let n = 24;
    let (mut sum, mut cnt) = (0., 0.);
    let jit = (src.unit(), src.unit());
    for i in 0..n {
        for j in 0..n {
            let s = (i as f64 + jit.0) / n as f64;
            let p = (j as f64 + jit.1) / n as f64 * 2. * PI;
            let m = (s / (1. - s)).sqrt();
            let h = V(a * m * p.cos(), b * m * p.sin(), 1.).norm();
            let mut hf = h.v();
            if src_flip(i + j) {
                hf = hf * -1.;
            }
            let z = h.2;
            // weight so that the model's integrand is constant
            let w = 2. * PI * a * b / (2. * (1. - s) * (1. - s)) * z.powi(4);
            let e = ((h.0 / a).powi(2) + (h.1 / b).powi(2)) / (z * z);
            let de = 1.6e-6 / (z * z) / a.min(b).powi(2) + e * (5e-7 / z + 1e-6);
            let tol = 3. * (2. * de / (1. + e) + 6e-7 / z) + 1e-5;
            if tol > 0.3 {
                continue;
            }
            let got = d.d(hf) as f64;
            ctx.cmp();
            let want = ggx_d(h, a, b);
            ensure!(close(got, want, tol, 1e-30), "distribution {}/{}: density of normal {:?} is {}, should be {}", ax, ay, h, got, want);
            sum += got * w;
            cnt += 1.;
        }
    }
    if cnt > 100. {
        let v = sum / cnt;
        ensure!((v - 1.).abs() < 0.05, "distribution {}/{} integrates to {} over projected area", ax, ay, v);
    }
    // shadowing
    for _ in 0..8 {
        let (w1, w2) = (ldir(src), ldir(src));
        let (f1, f2) = (w1.v(), w2.v());
        let (w1, w2) = (f1.d(), f2.d());
        let (l1, l2) = (ggx_lambda(w1, a, b), ggx_lambda(w2, a, b));
        let tol = 1e-3 + 4e-7 / w1.2.abs().min(w2.2.abs());
        ctx.cmp();
        ensure!(close(d.g1(f1) as f64, 1. / (1. + l1), tol, 1e-6), "masking {}/{} of {:?} is {}, should be {}", ax, ay, w1, d.g1(f1), 1. / (1. + l1));
        ensure!(close(d.g(f1, f2) as f64, 1. / (1. + l1 + l2), tol, 1e-6), "masking-shadowing {}/{} of {:?} {:?} is {}, should be {}", ax, ay, w1, w2, d.g(f1, f2), 1. / (1. + l1 + l2));
    }
    Ok(())
}
fn src_flip(k: usize) -> bool {
    k % 3 == 0
}

pub static C14: Prop = Prop {
    id: "C14",
    rule: "case: a material and frame with up to four direction pairs, at least one with a non-zero model value (values), or one distribution (distribution)",
    assumptions: &[
        "both roughnesses positive; refraction index of rough glass differs from one",
        "direction pairs whose side differs between geometric and shading normal are left to C13",
        "pairs whose f32 evaluation is ill-conditioned by more than one half are skipped and counted",
        "plastic coats are interfaces from air to index 1.5",
    ],
    subs: &[
        Sub { name: "values", quick: 7_200_000, thorough: 60_000_000, f: c14_values },
        Sub { name: "distribution", quick: 120_000, thorough: 1_000_000, f: c14_distribution },
    ],
};

// ---------------------------------------------------------------- C12

fn perturb_f(b: &BSDF, wo: V, wi: V, delta: f64) -> (S3, f64) {
    // spread of the code's own values under small direction errors
    let f0 = s3(b.f(wo.v(), wi.v()));
    let p0 = b.pdf(wo.v(), wi.v()) as f64;
    let (mut tf, mut tp) = ([0.; 3], 0.);
    for k in 0..6 {
        let s = if k % 2 == 0 { delta } else { -delta };
        let d = match k / 2 {
            0 => V(s, 0., 0.),
            1 => V(0., s, 0.),
            _ => V(0., 0., s),
        };
        let f = s3(b.f(wo.v(), (wi + d).v()));
        let p = b.pdf(wo.v(), (wi + d).v()) as f64;
        for c in 0..3 {
            tf[c] += (f[c] - f0[c]).abs();
        }
        tp += (p - p0).abs();
    }
    (tf, tp)
}

/// relative f32 error of densities and values of narrow lobes
fn narrow(lobes: &[Lobe]) -> f64 {
    let mut r = 2e-3;
    for l in lobes {
        r += match *l {
            Lobe::Refl(_, ax, ay, _) => 2e-6 / ax.min(ay).powi(2),
            Lobe::Trans(_, ax, ay, eta) => 2e-6 / ax.min(ay).powi(2) * (1. + (1. + eta) / (1. - eta).abs()),
            _ => 0.,
        };
    }
    r
}

fn any_kind(src: &mut Src) -> (usize, bool) {
    let kind = src.weighted(&[2, 3, 4, 5]);
    (kind, kind == 2 && src.pct(30))
}

fn usample(src: &mut Src) -> Point2f {
    let mut one = |src: &mut Src| match src.weighted(&[6, 1, 1, 1]) {
        0 => src.unit(),
        1 => src.pick(&[0., 0.5, 0.25, 0.75, 0.99999988]),
        2 => src.logrange(1e-7, 1e-2),
        _ => 1. - src.logrange(1.2e-7, 1e-2),
    };
    Point2f::new(one(src).min(0.99999988) as f32, one(src).min(0.99999988) as f32)
}

fn c12_consistent(src: &mut Src, ctx: &mut Ctx) -> R {
    let (kind, smooth) = any_kind(src);
    let mc = gen_mat(src, kind, smooth, 0.01);
    let fr = gen_frame(src, true);
    let bsdf = mc.mat.compute_scattering(&fr.i);
    ctx.label(["diffuse", "metal", "plastic", "glass"][kind]);
    ctx.desc(|| mc.name.clone());
    for _ in 0..4 {
        let wo = fr.world(ldir(src)).norm().v();
        let u = usample(src);
        let (wi, f, pdf, flag) = bsdf.sample_f(wo, u);
        ensure!(pdf >= 0. && pdf.is_finite() && !pdf.is_nan(), "{}: sampled density is {}", mc.name, pdf);
        if pdf == 0. {
            ctx.label("no sample");
            continue;
        }
        if flag & SPECULAR != 0 {
            ctx.label("specular");
            continue;
        }
        ctx.cmp();
        let wid = wi.d();
        ensure!((wid.len() - 1.).abs() < 1e-3, "{}: sampled direction {:?} is not of unit length (outgoing {:?}, sample {:?})", mc.name, wi, wo, u);
        let loc = fr.local(wid);
        if loc.2.abs() < 1e-4 || wid.dot(fr.gn).abs() < 1e-4 || wo.d().dot(fr.gn).abs() < 1e-4 {
            ctx.label("grazing");
            continue;
        }
        ctx.nontrivial();
        let lo = fr.local(wo.d());
        if (lo.2 > 0.) != (wo.d().dot(fr.gn) > 0.) || (loc.2 > 0.) != (wid.dot(fr.gn) > 0.) {
            ctx.label("side differs between geometric and shading normal");
        }
        let f2 = s3(bsdf.f(wo, wi));
        let p2 = bsdf.pdf(wo, wi) as f64;
        let rel = narrow(&mc.lobes);
        let (tf, tp) = perturb_f(&bsdf, wo.d(), wid, 1e-6);
        let f = s3(f);
        ensure!(
            (pdf as f64 - p2).abs() <= 10. * tp + rel * p2 + 1e-7,
            "{}: direction {:?} sampled from {:?} with {:?} comes with density {}, which is reported as {}", mc.name, loc, fr.local(wo.d()), u, pdf, p2
        );
        for c in 0..3 {
            ensure!(
                (f[c] - f2[c]).abs() <= 10. * tf[c] + rel * f2[c] + 1e-7,
                "{}: direction {:?} sampled from {:?} with {:?} comes with value {:?}, which is reported as {:?} ({})",
                mc.name, loc, fr.local(wo.d()), u, f, f2, if fr.tilted { "tilted frame" } else { "plain frame" }
            );
        }
    }
    Ok(())
}

fn c12_density(src: &mut Src, ctx: &mut Ctx) -> R {
    let (kind, smooth) = any_kind(src);
    let mc = gen_mat(src, kind, smooth, 0.04);
    let fr = gen_frame(src, true);
    let bsdf = mc.mat.compute_scattering(&fr.i);
    let mut wo = ldir(src);
    if wo.2.abs() < 0.02 {
        wo = V(wo.0, wo.1, 0.05 * wo.2.signum()).norm();
    }
    let wow = fr.world(wo).norm().v();
    let wo = fr.local(wow.d());
    ctx.label(["diffuse", "metal", "plastic", "glass"][kind]);
    ctx.desc(|| format!("{} from {:?}", mc.name, wo));
    let seed = src.seed();
    let draw = |r: &mut Rng| -> Option<V> {
        let (wi, _, pdf, flag) = bsdf.sample_f(wow, Point2f::new(r.f32(), r.f32()));
        if pdf == 0. || flag & SPECULAR != 0 {
            None
        } else {
            Some(fr.local(wi.d()))
        }
    };
    // pilot: axis and polar quantiles
    let mut r = Rng::new(seed);
    let pilot: Vec<V> = (0..400).filter_map(|_| draw(&mut r)).collect();
    if pilot.len() < 20 {
        ctx.label("hardly any samples");
        discard!();
    }
    let mut mean = V(0., 0., 0.);
    for p in &pilot {
        mean = mean + *p;
    }
    let mean = if mean.len() > 1e-6 { mean.norm() } else { V(0., 0., 1.) };
    let (bx, by, bz) = frame(mean, 0.3);
    const NP: usize = 6;
    const NA: usize = 6;
    let mut cosines: Vec<f64> = pilot.iter().map(|p| p.dot(bz)).collect();
    cosines.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let cuts: Vec<f64> = (1..NP).map(|k| cosines[k * cosines.len() / NP]).collect();
    let bin = |w: V| -> usize {
        let c = w.dot(bz);
        let a = cuts.iter().filter(|&&x| c > x).count();
        let ph = (w.dot(by).atan2(w.dot(bx)) / (2. * PI) + 1.).fract();
        a * NA + ((ph * NA as f64) as usize).min(NA - 1)
    };
    let nb = NP * NA;
    let mix = Mix::new(&mc.lobes, wo);
    // observed counts against integrals of the reported density, in units of standard errors
    let test = |n: usize, seed: u64| -> (f64, String) {
        let mut r = Rng::new(seed);
        let mut obs = vec![0f64; nb + 1];
        for _ in 0..n {
            if let Some(w) = draw(&mut r) {
                obs[bin(w)] += 1.;
                obs[nb] += 1.;
            }
        }
        let (mut m, mut m2) = (vec![0f64; nb + 1], vec![0f64; nb + 1]);
        for _ in 0..n {
            if let Some(w) = mix.sample(&mut r) {
                let q = mix.pdf(w);
                let wf = fr.world(w).norm().v();
                let x = bsdf.pdf(wow, wf) as f64 / q;
                let b = bin(w);
                for k in &[b, nb] {
                    m[*k] += x;
                    m2[*k] += x * x;
                }
            }
        }
        let nf = n as f64;
        let mut worst = (0., String::new());
        for k in 0..=nb {
            let e = m[k] / nf;
            let o = obs[k] / nf;
            let vo = (o.max(e) * (1. - o.max(e).min(1.))).max(1. / nf) / nf;
            let ve = (m2[k] / nf - e * e).max(0.) / nf;
            // systematic f32 tolerance
            let sys = 2e-3 * e + 2. / nf;
            let z = ((o - e).abs() - sys).max(0.) / (vo + ve).sqrt();
            if z > worst.0 {
                let what = if k == nb { "all directions together".to_string() } else { format!("direction cell {}", k) };
                worst = (z, format!("{}: {:.5} of the samples, but the reported density integrates to {:.5}", what, o, e));
            }
            if k == nb {
                let z = (e - 1. - 2e-3) / ve.sqrt().max(1e-9);
                if z > worst.0 {
                    worst = (z, format!("the density integrates to {:.5}", e));
                }
            }
        }
        worst
    };
    ctx.cmp();
    ctx.nontrivial();
    let n = if ctx.thorough { 60_000 } else { 15_000 };
    if test(n, mix_seed(seed, 1)).0 > 5. {
        ctx.label("second look");
        let (z, m) = test(n * 12, mix_seed(seed, 2));
        if z > 7. {
            let (z2, m2) = test(n * 12, mix_seed(seed, 3));
            let _ = m;
            ensure!(z2 <= 7., "{} seen from {:?}: {} ({:.1} standard errors)", mc.name, wo, m2, z.min(z2));
        }
    }
    Ok(())
}
fn mix_seed(s: u64, k: u64) -> u64 {
    mix(&[s, k])
}

pub static C12: Prop = Prop {
    id: "C12",
    rule: "case: a material, frame and outgoing directions with at least one non-specular sample away from grazing (consistent), or one density experiment with at least 5% valid samples (density)",
    assumptions: &[
        "roughness at least 0.01 (consistent) or 0.04 (density)",
        "statistical alarms need three experiments: beyond 5, then twice beyond 7 standard errors of a 12 times larger run",
    ],
    subs: &[
        Sub { name: "consistent", quick: 1_500_000, thorough: 30_000_000, f: c12_consistent },
        Sub { name: "density", quick: 12_000, thorough: 96_000, f: c12_density },
    ],
};

// ---------------------------------------------------------------- C13

fn c13_points(src: &mut Src, ctx: &mut Ctx) -> R {
    let kind = rough_kind(src);
    let mc = gen_mat(src, kind, false, 0.002);
    let fr = gen_frame(src, true);
    let bsdf = mc.mat.compute_scattering(&fr.i);
    ctx.label(["diffuse", "metal", "plastic", "glass"][kind]);
    ctx.desc(|| mc.name.clone());
    let extreme = |src: &mut Src, w: V| -> V {
        if src.pct(15) {
            let z = src.pick(&[0., 1e-3, 1e-5, 1e-7, 1e-9, 1e-11]) * w.2.signum();
            let k = (w.0 * w.0 + w.1 * w.1).sqrt();
            if k == 0. {
                return w;
            }
            V(w.0 / k, w.1 / k, z).norm()
        } else {
            w
        }
    };
    for _ in 0..4 {
        let mut wo = ldir(src);
        wo = extreme(src, wo);
        let wi = match src.weighted(&[4, 3, 1, 1]) {
            0 => lobe_dir(src, &mc.lobes, if wo.2 == 0. { V(0., 0., 1.) } else { wo }),
            1 => {
                let w = ldir(src);
                extreme(src, w)
            }
            2 => -wo,
            _ => V(-wo.0, -wo.1, wo.2),
        };
        let (wow, wiw) = (fr.world(wo).v(), fr.world(wi).v());
        let f = bsdf.f(wow, wiw);
        let p = bsdf.pdf(wow, wiw);
        ctx.cmp();
        ctx.nontrivial();
        let ok = |x: f32| x >= 0. && x < std::f32::INFINITY;
        ensure!(ok(f.r) && ok(f.g) && ok(f.b), "{}: value for local directions {:?} and {:?} is {:?}", mc.name, wo, wi, f);
        ensure!(ok(p), "{}: density for local directions {:?} and {:?} is {}", mc.name, wo, wi, p);
        // reciprocity
        let (so, si) = match (fr.side(wow.d()), fr.side(wiw.d())) {
            (Some(a), Some(b)) => (a, b),
            _ => continue,
        };
        let g = s3(bsdf.f(wiw, wow));
        let f = s3(f);
        let k = if so == si {
            1.
        } else if so {
            1. / (mc.eta * mc.eta)
        } else {
            mc.eta * mc.eta
        };
        let (t1, _) = perturb_f(&bsdf, wow.d(), wiw.d(), 1e-6);
        let (t2, _) = perturb_f(&bsdf, wiw.d(), wow.d(), 1e-6);
        ctx.label(if so == si { "reciprocity" } else { "reciprocity across" });
        for c in 0..3 {
            let tol = 10. * (t1[c] + k * t2[c]) + narrow(&mc.lobes) * f[c].max(k * g[c]) + 1e-7;
            ensure!(
                (f[c] - k * g[c]).abs() <= tol,
                "{}: swapping local directions {:?} and {:?} changes the value from {} to {} (expected factor {})", mc.name, wo, wi, f[c], g[c], 1. / k
            );
        }
        // sampled quantities
        let u = usample(src);
        let (_, f, p, _) = bsdf.sample_f(wow, u);
        ensure!(ok(p) && ok(f.r) && ok(f.g) && ok(f.b), "{}: sampling from {:?} with {:?} gives value {:?} and density {}", mc.name, wo, u, f, p);
    }
    Ok(())
}

fn c13_energy(src: &mut Src, ctx: &mut Ctx) -> R {
    let kind = src.weighted(&[1, 2, 3, 5]);
    let mc = gen_mat(src, kind, false, 0.03);
    let fr = gen_frame(src, false);
    let bsdf = mc.mat.compute_scattering(&fr.i);
    let mut wi = ldir(src);
    if wi.2.abs() < 0.01 {
        wi = V(wi.0, wi.1, 0.01 * wi.2.signum()).norm();
    }
    let wiw = fr.world(wi).norm().v();
    let wi = fr.local(wiw.d());
    ctx.label(["diffuse", "metal", "plastic", "glass"][kind]);
    ctx.desc(|| format!("{} lit from {:?}", mc.name, wi));
    let seed = src.seed();
    let mx = Mix::new(&mc.lobes, wi);
    let est = |n: usize, seed: u64| -> ([f64; 3], [f64; 3]) {
        let mut r = Rng::new(seed);
        let mut st = [Stat::default(), Stat::default(), Stat::default()];
        for _ in 0..n {
            let mut x = [0.; 3];
            if let Some(w) = mx.sample(&mut r) {
                if w.2.abs() > 1e-6 {
                    let q = mx.pdf(w);
                    let f = s3(bsdf.f(fr.world(w).norm().v(), wiw));
                    for c in 0..3 {
                        x[c] = f[c] * w.2.abs() / q;
                    }
                }
            }
            for c in 0..3 {
                st[c].add(x[c]);
            }
        }
        ([st[0].mean, st[1].mean, st[2].mean], [st[0].se(), st[1].se(), st[2].se()])
    };
    ctx.cmp();
    ctx.nontrivial();
    let over = |(m, s): ([f64; 3], [f64; 3]), z: f64| (0..3).any(|c| m[c] > 1.001 + z * s[c]);
    let n = if ctx.thorough { 40_000 } else { 8_000 };
    if over(est(n, mix_seed(seed, 1)), 3.) {
        ctx.label("second look");
        let e = est(n * 20, mix_seed(seed, 2));
        if over(e, 7.) {
            let e = est(n * 20, mix_seed(seed, 3));
            ensure!(!over(e, 7.), "{} lit from {:?} scatters {:?} of the arriving light (+-{:?})", mc.name, wi, e.0, e.1);
        }
    }
    Ok(())
}

pub static C13: Prop = Prop {
    id: "C13",
    rule: "case: a material and frame with four direction pairs checked (points), or one energy experiment (energy)",
    assumptions: &[
        "roughness at least 0.002 (points) or 0.03 (energy); refraction index of rough glass differs from one",
        "the diffuse and glossy colours of plastic sum to at most one",
        "statistical alarms need three experiments, two of them beyond 7 standard errors",
    ],
    subs: &[
        Sub { name: "points", quick: 3_600_000, thorough: 30_000_000, f: c13_points },
        Sub { name: "energy", quick: 36_000, thorough: 288_000, f: c13_energy },
    ],
};

// ---------------------------------------------------------------- C15

fn c15_smooth(src: &mut Src, ctx: &mut Ctx) -> R {
    let kind = src.weighted(&[0, 2, 2, 5, 1]);
    let mut mc = gen_mat(src, kind, true, 0.1);
    if kind == 3 && src.pct(40) {
        // lossless glass
        let eta = eta_gen(src);
        mc = MatCase {
            mat: Arc::new(GlassMaterial::new(cs([1.; 3]), cs([1.; 3]), cf(eta), cf(0.), cf(0.))),
            lobes: vec![Lobe::SRefl([1.; 3], Fr::Diel(1., eta)), Lobe::STrans([1.; 3], eta)],
            name: format!("clear glass eta={}", eta),
            eta,
        };
    }
    let fr = gen_frame(src, true);
    let bsdf = mc.mat.compute_scattering(&fr.i);
    ctx.label(["diffuse", "metal", "plastic", "glass", "mirror"][kind]);
    ctx.desc(|| mc.name.clone());
    let n = mc.lobes.len();
    for _ in 0..2 {
        let mut wo = ldir(src);
        if kind == 3 && src.pct(30) {
            // near the critical angle, from the denser side
            let s = if mc.eta > 1. { 1. / mc.eta } else { mc.eta } + src.pick(&[-1., 1.]) * src.logrange(1e-4, 0.1);
            if s < 0.999 && s > 0. {
                let p = src.range(0., 2. * PI);
                wo = V(s * p.cos(), s * p.sin(), (1. - s * s).sqrt() * if mc.eta > 1. { -1. } else { 1. });
                ctx.label("near the critical angle");
            }
        }
        if wo.2.abs() < 1e-4 {
            continue;
        }
        let wow = fr.world(wo).norm().v();
        let wo = fr.local(wow.d());
        let mut total = [0.; 3];
        let mut complete = true;
        for (k, l) in mc.lobes.iter().enumerate() {
            // any point of this lobe's share of the unit interval
            let u = Point2f::new(((k as f64 + 0.02 + 0.96 * src.unit()) / n as f64) as f32, src.unit() as f32);
            let (wiw, f, pdf, flag) = bsdf.sample_f(wow, u);
            let (f, wi) = (s3(f), fr.local(wiw.d()));
            ctx.cmp();
            let dlt = fr.delta();
            // bounds of the Fresnel term under errors of the cosine
            let frb = |e: &dyn Fn(f64) -> S3, c: f64| -> (S3, S3) {
                let (mut lo, mut hi) = (e(c), e(c));
                for d in &[-4. * dlt, 4. * dlt, -dlt, dlt] {
                    let v = e(c + d);
                    for i in 0..3 {
                        lo[i] = lo[i].min(v[i]);
                        hi[i] = hi[i].max(v[i]);
                    }
                }
                (lo, hi)
            };
            match *l {
                Lobe::Lambert(_) => {
                    // the diffuse part of a coat: covered by C12 and C14
                    ensure!(pdf == 0. || flag & SPECULAR == 0, "{}: lobe {} should be the diffuse one", mc.name, k);
                    complete = false;
                }
                Lobe::SRefl(r, fre) => {
                    ctx.nontrivial();
                    ensure!(flag & SPECULAR != 0 && flag & REFLECTION != 0, "{}: lobe {} should be the mirror one (flags {})", mc.name, k, flag);
                    ensure!(close(pdf as f64, 1. / n as f64, 1e-6, 0.), "{}: lobe {} of {} is chosen with probability {}", mc.name, k, n, pdf);
                    let want = V(-wo.0, -wo.1, wo.2);
                    ensure!((wi - want).len() < 4. * dlt + 1e-6, "{}: {:?} is mirrored into {:?}", mc.name, wo, wi);
                    let (lo, hi) = frb(&|c| fre.eval(c), wo.2);
                    for c in 0..3 {
                        let got = f[c] * wi.2.abs();
                        total[c] += got / r[c].max(1e-30);
                        let e = 2e-5 + 4. * dlt / wo.2.abs();
                        ensure!(
                            got >= r[c] * lo[c] * (1. - e) - 2e-6 && got <= r[c] * hi[c] * (1. + e) + 2e-6,
                            "{}: {:?} is mirrored with weight {} in channel {}, should be {} to {}", mc.name, wo, got, c, r[c] * lo[c], r[c] * hi[c]
                        );
                    }
                }
                Lobe::STrans(t, eta) => {
                    let (eo, ei) = if wo.2 > 0. { (1., eta) } else { (eta, 1.) };
                    let s2 = (eo / ei).powi(2) * (1. - wo.2 * wo.2);
                    let slack = 8. * dlt * (eo / ei).powi(2);
                    if s2 >= 1. + slack {
                        ctx.label("total reflection");
                        ctx.nontrivial();
                        ensure!(pdf == 0. || f == [0.; 3], "{}: {:?} is beyond the critical angle but is transmitted with value {:?}", mc.name, wo, f);
                        continue;
                    }
                    if s2 > 1. - slack {
                        ctx.label("critical");
                        complete = false;
                        continue;
                    }
                    ctx.nontrivial();
                    ctx.label("refraction");
                    ensure!(flag & SPECULAR != 0 && flag & TRANSMISSION != 0, "{}: lobe {} should be the refracted one (flags {}, density {})", mc.name, k, flag, pdf);
                    ensure!(close(pdf as f64, 1. / n as f64, 1e-6, 0.), "{}: lobe {} of {} is chosen with probability {}", mc.name, k, n, pdf);
                    let ct = (1. - s2).sqrt();
                    let want = V(-wo.0 * eo / ei, -wo.1 * eo / ei, -ct * wo.2.signum());
                    let derr = 4. * dlt * (1. + eo / ei) + slack / ct + 1e-6;
                    ensure!((wi - want).len() < derr, "{}: {:?} is refracted into {:?}, should be {:?}", mc.name, wo, wi, want);
                    let k2 = (eo / ei).powi(2);
                    let (lo, hi) = frb(&|c| [1. - fr_diel(c, 1., eta); 3], wo.2);
                    // the code may evaluate the Fresnel term on either side
                    let (lo2, hi2) = frb(&|c| [1. - fr_diel(c, 1., eta); 3], want.2);
                    for c in 0..3 {
                        let got = f[c] * wi.2.abs();
                        total[c] += got / k2 / t[c].max(1e-30);
                        let e = 2e-5 + 4. * dlt / wo.2.abs() + derr / ct;
                        ensure!(
                            got >= t[c] * k2 * lo[c].min(lo2[c]) * (1. - e) - 2e-6 && got <= t[c] * k2 * hi[c].max(hi2[c]) * (1. + e) + 2e-6,
                            "{}: {:?} is refracted with weight {} in channel {}, should be {} to {}", mc.name, wo, got, c, t[c] * k2 * lo[c], t[c] * k2 * hi[c]
                        );
                    }
                    if (1. - s2) < 1e-3 {
                        complete = false;
                    }
                }
                _ => unreachable!(),
            }
            // specular lobes are invisible to evaluation
            if l.specular() {
                let diffuse: S3 = f_model(&mc.lobes, wo, wi);
                let v = s3(bsdf.f(wow, wiw));
                ensure!(fr.side(wow.d()).is_none() || fr.side(wiw.d()).is_none() || (0..3).all(|c| close(v[c], diffuse[c], 1e-4, 1e-6)), "{}: value in the specular direction {:?} is {:?}", mc.name, wi, v);
            }
        }
        if kind == 3 && n == 2 && complete && mc.lobes.iter().all(|l| match l { Lobe::SRefl(c, _) | Lobe::STrans(c, _) => c.iter().all(|&x| x > 0.), _ => false }) {
            ctx.label("lossless balance");
            for c in 0..3 {
                ensure!((total[c] - 1.).abs() < 1e-3 + 1e-5 / wo.2.abs(), "{}: reflected and transmitted power from {:?} add up to {}", mc.name, wo, total[c]);
            }
        }
    }
    Ok(())
}

pub static C15: Prop = Prop {
    id: "C15",
    rule: "case: a smooth material and frame where at least one specular lobe was compared with the exact law",
    assumptions: &["incident cosine at least 1e-4", "directions within rounding of the critical angle are skipped and counted", "plastic coats are interfaces from air to index 1.5"],
    subs: &[Sub { name: "smooth", quick: 10_000_000, thorough: 100_000_000, f: c15_smooth }],
};

// ---------------------------------------------------------------- C26

/// Texture whose value depends on the hit in a way that tells textures apart.
struct HitF {
    a: f32,
    b: f32,
    c: f32,
}
impl Texture for HitF {
    type Output = f32;
    fn evaluate(&self, i: &Interaction) -> f32 {
        self.a + self.b * i.uv.x + self.c * i.p.y
    }
}
struct HitS {
    v: [HitF; 3],
}
impl Texture for HitS {
    type Output = Spectrum;
    fn evaluate(&self, i: &Interaction) -> Spectrum {
        Spectrum::new(self.v[0].evaluate(i), self.v[1].evaluate(i), self.v[2].evaluate(i))
    }
}

/// returns the texture and its value at the interaction
fn tex_f(src: &mut Src, i: &Interaction, v: f64) -> (Arc<dyn Texture<Output = f32>>, f64) {
    match src.weighted(&[2, 3, 2]) {
        0 => (cf(v), v as f32 as f64),
        1 => {
            let (b, c) = (src.range(-1., 1.) as f32, src.range(-1., 1.) as f32);
            let mut t = HitF { a: 0., b, c };
            t.a = v as f32 - t.evaluate(i);
            let x = t.evaluate(i) as f64;
            // keep exact zeros
            if v == 0. && x != 0. {
                return (cf(0.), 0.);
            }
            (Arc::new(t), x)
        }
        _ => {
            // checkerboard cell at the hit holds v, the other something else
            let (su, sv) = (src.range(1., 20.) as f32, src.range(1., 20.) as f32);
            let even = ((i.uv.x * su).floor() as i64 + (i.uv.y * sv).floor() as i64) % 2 == 0;
            let o = 0.37f32;
            let (a, b) = if even { (v as f32, o) } else { (o, v as f32) };
            (Arc::new(CheckerboardTexture::new(UVMapping2D::new(su, sv, 0., 0.), a, b)), v as f32 as f64)
        }
    }
}
fn tex_s(src: &mut Src, i: &Interaction, v: S3) -> (Arc<dyn Texture<Output = Spectrum>>, S3) {
    match src.weighted(&[2, 3, 2]) {
        0 => (cs(v), s3(sp(v))),
        1 if v.iter().all(|&x| x != 0.) => {
            let mut mk = |k: usize| {
                let (b, c) = (src.range(-1., 1.) as f32, src.range(-1., 1.) as f32);
                let mut t = HitF { a: 0., b, c };
                t.a = v[k] as f32 - t.evaluate(i);
                t
            };
            let t = HitS { v: [mk(0), mk(1), mk(2)] };
            let x = s3(t.evaluate(i));
            (Arc::new(t), x)
        }
        1 => (cs(v), s3(sp(v))),
        _ => {
            let (su, sv) = (src.range(1., 20.) as f32, src.range(1., 20.) as f32);
            let even = ((i.uv.x * su).floor() as i64 + (i.uv.y * sv).floor() as i64) % 2 == 0;
            let o = Spectrum::new(0.21, 0.53, 0.34);
            let (a, b) = if even { (sp(v), o) } else { (o, sp(v)) };
            (Arc::new(CheckerboardTexture::new(UVMapping2D::new(su, sv, 0., 0.), a, b)), s3(sp(v)))
        }
    }
}

fn wild_color(src: &mut Src) -> S3 {
    let mut c = [0.; 3];
    match src.weighted(&[4, 2, 2]) {
        0 => {
            for x in c.iter_mut() {
                *x = src.range(0.02, 1.);
            }
        }
        1 => {
            for x in c.iter_mut() {
                *x = match src.weighted(&[2, 1, 2, 1]) {
                    0 => src.range(0.02, 1.),
                    1 => src.range(1., 3.),
                    2 => -src.range(0.01, 2.),
                    _ => 0.,
                };
            }
        }
        _ => {
            if src.bool() {
                for x in c.iter_mut() {
                    *x = -src.range(0.01, 2.);
                }
            }
        }
    }
    c
}
fn clamp0(c: S3) -> S3 {
    [c[0].max(0.), c[1].max(0.), c[2].max(0.)]
}

fn c26_assembly(src: &mut Src, ctx: &mut Ctx) -> R {
    let fr = gen_frame(src, false);
    let i = &fr.i;
    let kind = src.weighted(&[1, 4, 3, 5, 1]);
    let smooth = src.pct(25);
    let (ra, rb) = if smooth {
        (0., 0.)
    } else {
        match src.weighted(&[6, 2, 1]) {
            0 => {
                let a = src.logrange(0.05, 1.);
                (a, if src.pct(75) { src.logrange(0.05, 1.) } else { a })
            }
            // narrow
            1 => (src.logrange(0.002, 1.), src.logrange(0.002, 0.05)),
            // smooth along one direction only
            _ => {
                let a = src.logrange(0.002, 1.);
                if src.bool() { (a, 0.) } else { (0., a) }
            }
        }
    };
    // the least roughness that rough surfaces have
    let least = |a: f64| a.max(1e-3f32 as f64);
    let black = |c: S3| c == [0.; 3];
    let mut lobes = vec![];
    // lobes that may be present although they are black
    let mut optional = 0;
    let mat: Arc<dyn Material>;
    let name;
    match kind {
        0 => {
            let (t, v) = { let c = wild_color(src); tex_s(src, i, c) };
            let v = clamp0(v);
            if !black(v) {
                lobes.push(Lobe::Lambert(v));
            }
            mat = Arc::new(LambertianReflectionMaterial::new(t));
            name = format!("diffuse {:?}", v);
        }
        1 => {
            let (t, v) = { let c = wild_color(src); tex_s(src, i, c) };
            let mut pos = |src: &mut Src, lo: f64, hi: f64| [src.logrange(lo, hi), src.logrange(lo, hi), src.logrange(lo, hi)];
            let (tn, n) = { let c = pos(src, 0.15, 4.); tex_s(src, i, c) };
            let (tk, k) = { let c = pos(src, 0.6, 6.); tex_s(src, i, c) };
            let (tu, u) = tex_f(src, i, ra);
            let (tv, w) = tex_f(src, i, rb);
            let v = clamp0(v);
            let f = Fr::Cond(n, k);
            if black(v) {
                optional = 1;
            } else {
                lobes.push(if u == 0. && w == 0. { Lobe::SRefl(v, f) } else { Lobe::Refl(v, least(u), least(w), f) });
            }
            mat = Arc::new(MetalMaterial::new(t, tn, tk, tu, tv));
            name = format!("metal r={:?} eta={:?} k={:?} rough {}/{}", v, n, k, u, w);
        }
        2 => {
            let (td, d) = { let c = wild_color(src); tex_s(src, i, c) };
            let (ts, s) = { let c = wild_color(src); tex_s(src, i, c) };
            let (tu, u) = tex_f(src, i, ra);
            let (d, s) = (clamp0(d), clamp0(s));
            if !black(d) {
                lobes.push(Lobe::Lambert(d));
            }
            if !black(s) {
                let f = Fr::Diel(1., 1.5);
                lobes.push(if u == 0. { Lobe::SRefl(s, f) } else { Lobe::Refl(s, least(u), least(u), f) });
            }
            mat = Arc::new(PlasticMaterial::new(td, ts, tu));
            name = format!("plastic kd={:?} ks={:?} rough {}", d, s, u);
        }
        3 => {
            let (tr, r) = { let c = wild_color(src); tex_s(src, i, c) };
            let (tt, t) = { let c = wild_color(src); tex_s(src, i, c) };
            let e = eta_gen(src);
            let (te, eta) = tex_f(src, i, e);
            let (tu, u) = tex_f(src, i, ra);
            let (tv, w) = tex_f(src, i, rb);
            let (r, t) = (clamp0(r), clamp0(t));
            let sm = u == 0. && w == 0.;
            if !black(r) {
                let f = Fr::Diel(1., eta);
                lobes.push(if sm { Lobe::SRefl(r, f) } else { Lobe::Refl(r, least(u), least(w), f) });
            }
            if !black(t) {
                lobes.push(if sm { Lobe::STrans(t, eta) } else { Lobe::Trans(t, least(u), least(w), eta) });
            }
            mat = Arc::new(GlassMaterial::new(tr, tt, te, tu, tv));
            name = format!("glass kr={:?} kt={:?} eta={} rough {}/{}", r, t, eta, u, w);
        }
        _ => {
            let (t, v) = { let c = wild_color(src); tex_s(src, i, c) };
            let v = clamp0(v);
            if !black(v) {
                lobes.push(Lobe::SRefl(v, Fr::One));
            }
            mat = Arc::new(MirrorMaterial::new(t));
            name = format!("mirror {:?}", v);
        }
    }
    ctx.label(["diffuse", "metal", "plastic", "glass", "mirror"][kind]);
    ctx.label(&format!("{} lobes", lobes.len()));
    ctx.desc(|| name.clone());
    ctx.nontrivial();
    // through a shape that carries the material, too
    let bsdf = if src.bool() {
        mat.compute_scattering(i)
    } else {
        let t: Arc<dyn Shape> = Arc::new(Triangle::new([V(0., 0., 0.).p(), V(1., 0., 0.).p(), V(0., 1., 0.).p()], None, false, mat.clone()));
        let mut j = i.clone();
        j.shape = Some(t);
        j.compute_scattering()
    };
    // number and kinds of lobes: one sample in each share
    let n = lobes.len();
    let wo = V(0.3, -0.2, if src.bool() { 0.6 } else { -0.6 }).norm();
    let wow = fr.world(wo).norm().v();
    let wo = fr.local(wow.d());
    if n == 0 {
        for k in 0..4 {
            let (wi, f, pdf, _) = bsdf.sample_f(wow, Point2f::new(0.1 + 0.25 * k as f32, src.unit() as f32));
            ctx.cmp();
            ensure!(pdf == 0. || (f.is_black() && optional > 0) || s3(f) == [0.; 3], "{} has no lobe, but {:?} is sampled with value {:?}", name, wi, f);
        }
    }
    let mut diff = [0.; 3];
    for (k, l) in lobes.iter().enumerate() {
        let u = Point2f::new(((k as f64 + 0.05 + 0.9 * src.unit()) / n as f64) as f32, src.unit() as f32);
        let (wiw, f, pdf, flag) = bsdf.sample_f(wow, u);
        ctx.cmp();
        if pdf == 0. {
            ctx.label("no sample");
            continue;
        }
        ensure!((flag & SPECULAR != 0) == l.specular(), "{}: lobe {} of {} is {}specular (flags {})", name, k, n, if l.specular() { "not " } else { "" }, flag);
        ensure!((flag & TRANSMISSION != 0) == l.trans(), "{}: lobe {} of {} should {}transmit (flags {})", name, k, n, if l.trans() { "" } else { "not " }, flag);
        if l.specular() {
            ensure!(close(pdf as f64, 1. / n as f64, 1e-6, 0.), "{}: lobe {} is chosen with probability {} instead of 1/{}", name, k, pdf, n);
            let wi = fr.local(wiw.d());
            let (mut want, _) = match *l {
                Lobe::SRefl(c, fre) => {
                    let e = fre.eval(wo.2);
                    ([c[0] * e[0], c[1] * e[1], c[2] * e[2]], 0)
                }
                Lobe::STrans(c, eta) => {
                    let e = 1. - fr_diel(wo.2, 1., eta);
                    let k2 = if wo.2 > 0. { 1. / (eta * eta) } else { eta * eta };
                    ([c[0] * e * k2, c[1] * e * k2, c[2] * e * k2], 0)
                }
                _ => unreachable!(),
            };
            let f = s3(f);
            let sens = if let Lobe::STrans(_, eta) = *l {
                let k2 = if wo.2 > 0. { 1. / (eta * eta) } else { eta * eta };
                1. - k2 * (1. - wo.2 * wo.2)
            } else if let Lobe::SRefl(_, Fr::Diel(a, b)) = *l {
                let k2 = if wo.2 > 0. { (a / b) * (a / b) } else { (b / a) * (b / a) };
                1. - k2 * (1. - wo.2 * wo.2)
            } else {
                1.
            };
            if sens.abs() < 1e-2 {
                continue;
            }
            for c in 0..3 {
                let got = f[c] * wi.2.abs();
                want[c] = want[c].max(0.);
                ensure!(close(got, want[c], 2e-3, 1e-5), "{}: lobe {} scatters with weight {} in channel {}, should be {}", name, k, got, c, want[c]);
            }
        } else {
            diff = f_model(&lobes, wo, fr.local(wiw.d()));
        }
    }
    let _ = diff;
    // values of the rough part
    for _ in 0..4 {
        let wo = ldir(src);
        let wi = if src.pct(75) { lobe_dir(src, &lobes, wo) } else { ldir(src) };
        let (wow, wiw) = (fr.world(wo).norm().v(), fr.world(wi).norm().v());
        if fr.side(wow.d()).is_none() || fr.side(wiw.d()).is_none() {
            continue;
        }
        let (wo, wi) = (fr.local(wow.d()), fr.local(wiw.d()));
        let got = s3(bsdf.f(wow, wiw));
        let want = f_model(&lobes, wo, wi);
        let tol = f_tol(&lobes, wo, wi, fr.delta());
        if tol.iter().any(|x| !x.is_finite()) {
            continue;
        }
        ctx.cmp();
        for c in 0..3 {
            ensure!(
                (got[c] - want[c]).abs() <= tol[c],
                "{}: value for local directions {:?} and {:?} is {} in channel {}, its parameters call for {} (+-{})", name, wo, wi, got[c], c, want[c], tol[c]
            );
        }
    }
    Ok(())
}

pub static C26: Prop = Prop {
    id: "C26",
    rule: "case: one material built from generated textures, its lobes counted by stratified sampling and its values compared",
    assumptions: &[
        "lobe order (diffuse or reflection first) as documented by the crate's materials; rough surfaces have a roughness of at least 0.001 along both directions",
        "a metal with black reflectance may carry a black lobe",
    ],
    subs: &[Sub { name: "assembly", quick: 7_200_000, thorough: 60_000_000, f: c26_assembly }],
};
