//! Rendering helpers: deterministic sampler, ray camera, worlds, image statistics.
use crate::engine::*;
use crate::film::{linear, parse_ppm, cell, Flt, Image};
use crate::gen::*;
use crate::m::*;
use crate::optics::*;
use crate::fail;
use pt::api::*;
use pt::verif::{Camera, CameraSample, Container, Point2i, Ray, Sampler, Scene, Simple};
use std::sync::Arc;

// ------------------------------------------------------------ sampler and camera

/// Independent random numbers, a fixed stream per pixel and sample.
#[derive(Clone)]
pub struct SeqSampler {
    seed: u64,
    spp: u32,
    k: u32,
    pixel: (i32, i32),
    rng: Rng,
    /// film position inside the pixel: centre, or random
    pub jitter: bool,
}
impl SeqSampler {
    pub fn new(seed: u64, spp: u32, jitter: bool) -> SeqSampler {
        SeqSampler { seed, spp, k: 0, pixel: (0, 0), rng: Rng::new(0), jitter }
    }
    fn reseed(&mut self) {
        self.rng = Rng::new(mix(&[self.seed, self.pixel.0 as u32 as u64, self.pixel.1 as u32 as u64, self.k as u64]));
    }
}
impl Sampler for SeqSampler {
    fn start_pixel(&mut self, p: Point2i) {
        self.pixel = (p.x, p.y);
        self.k = 0;
        self.reseed();
    }
    fn start_next_sample(&mut self) -> bool {
        self.k += 1;
        self.reseed();
        self.k < self.spp
    }
    fn get_1d(&mut self) -> f32 {
        self.rng.f32()
    }
    fn get_2d(&mut self) -> Point2f {
        Point2f::new(self.rng.f32(), self.rng.f32())
    }
    fn get_camera_sample(&mut self, p: Point2i) -> CameraSample {
        let u = self.get_2d();
        let (x, y) = if self.jitter { (p.x as f64 + u.x as f64, p.y as f64 + u.y as f64) } else { (p.x as f64 + 0.5, p.y as f64 + 0.5) };
        CameraSample { p_film: Point2f::new(x as f32, y as f32) }
    }
}

/// Sends every film position along one ray of a list, by pixel column and row.
#[derive(Clone)]
pub struct RayCam {
    pub rays: Arc<Vec<(V, V)>>,
    pub w: usize,
}
impl RayCam {
    pub fn one(o: V, d: V) -> RayCam {
        RayCam { rays: Arc::new(vec![(o, d)]), w: 1 }
    }
}
impl Camera for RayCam {
    fn generate_ray(&self, s: &CameraSample) -> Ray {
        let k = (s.p_film.y.floor().max(0.) as usize * self.w + s.p_film.x.floor().max(0.) as usize) % self.rays.len();
        let (o, d) = self.rays[k];
        ray(o.p(), d.v(), f32::INFINITY)
    }
}

/// Renders into the current directory and reads the image back.
pub fn render<C, Cam, S>(scene: Scene<C>, sampler: S, cam: Cam, film: Film, threads: u8) -> Result<Image, Fail>
where
    C: 'static + Container,
    Cam: 'static + Camera,
    S: 'static + Sampler,
{
    let (w, h) = (film.resolution.x, film.resolution.y);
    let _ = std::fs::remove_file("output.ppm");
    Integrator::new(scene, sampler, cam, film).render(threads);
    let data = match std::fs::read("output.ppm") {
        Ok(d) => d,
        Err(e) => fail!("no image was written: {}", e),
    };
    match parse_ppm(&data) {
        Ok(i) => {
            if (i.w, i.h) != (w as usize, h as usize) {
                fail!("film is {}x{}, image is {}x{}", w, h, i.w, i.h);
            }
            Ok(i)
        }
        Err(e) => fail!("image of a {}x{} film: {}", w, h, e),
    }
}

// ------------------------------------------------------------ worlds

#[derive(Clone)]
pub struct Obj {
    pub sh: Sh,
    pub mat: MatCase,
    pub le: Option<S3>,
}

#[derive(Clone, Default)]
pub struct World {
    pub objs: Vec<Obj>,
    pub dist: Vec<(S3, V)>,
}

pub fn black() -> MatCase {
    MatCase { mat: Arc::new(LambertianReflectionMaterial::new(cs([0.; 3]))), lobes: vec![], name: "black".into(), eta: 1. }
}
pub fn diffuse(r: S3) -> MatCase {
    MatCase { mat: Arc::new(LambertianReflectionMaterial::new(cs(r))), lobes: vec![Lobe::Lambert(r)], name: format!("diffuse {:?}", r), eta: 1. }
}
pub fn mirror(r: S3) -> MatCase {
    MatCase { mat: Arc::new(MirrorMaterial::new(cs(r))), lobes: vec![Lobe::SRefl(r, Fr::One)], name: format!("mirror {:?}", r), eta: 1. }
}
pub fn clear_glass(eta: f64) -> MatCase {
    let eta = eta as f32 as f64;
    MatCase {
        mat: Arc::new(GlassMaterial::new(cs([1.; 3]), cs([1.; 3]), cf(eta), cf(0.), cf(0.))),
        lobes: vec![Lobe::SRefl([1.; 3], Fr::Diel(1., eta)), Lobe::STrans([1.; 3], eta)],
        name: format!("clear glass {}", eta),
        eta,
    }
}

pub fn spec3(l: S3) -> Spectrum {
    Spectrum::new(l[0] as f32, l[1] as f32, l[2] as f32)
}
pub fn mul3(a: S3, b: S3) -> S3 {
    [a[0] * b[0], a[1] * b[1], a[2] * b[2]]
}
pub fn add3(a: S3, b: S3) -> S3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn scale3(a: S3, k: f64) -> S3 {
    [a[0] * k, a[1] * k, a[2] * k]
}
pub fn max3(a: S3) -> f64 {
    a[0].max(a[1]).max(a[2])
}

pub struct Near {
    pub k: usize,
    pub t: f64,
    pub p: V,
    /// oriented normal: outside of spheres, front of triangles
    pub n: V,
}

impl World {
    /// scene with emission scaled by k
    pub fn builder(&self, k: S3) -> Builder {
        let mut b = Builder::new();
        for (l, d) in &self.dist {
            b.add_light(DistantLight::new(spec3(mul3(*l, k)), d.v()));
        }
        for o in &self.objs {
            match (&o.sh, o.le) {
                (Sh::T(t), Some(l)) => b.add_area_light(AreaLight::new(spec3(mul3(l, k)), t.build(o.mat.mat.clone()))),
                _ => crate::geom::add_sh_mat(&mut b, &o.sh, o.mat.mat.clone()),
            }
        }
        b
    }
    pub fn kd(&self, k: S3) -> Scene<KdTree> {
        self.builder(k).construct(|x| KdTree::new(x, None))
    }
    pub fn simple(&self, k: S3) -> Scene<Simple> {
        self.builder(k).construct(|x| Simple::new(x))
    }
    pub fn name(&self) -> String {
        let v: Vec<String> = self.objs.iter().map(|o| format!("{:?} {}{}", o.sh, o.mat.name, o.le.map(|l| format!(" emits {:?}", l)).unwrap_or_default())).collect();
        let d: Vec<String> = self.dist.iter().map(|o| format!("distant {:?} from {:?}", o.0, o.1)).collect();
        format!("[{}] [{}]", v.join("; "), d.join("; "))
    }
    /// Nearest hit in f64; `from`: object the ray starts on. Err: too close to call.
    pub fn nearest(&self, o: V, d: V, from: Option<usize>, scale: f64) -> Result<Option<Near>, ()> {
        let eps = 1e-4 * scale;
        let mut best: Option<Near> = None;
        let mut amb: Vec<f64> = vec![];
        for (k, ob) in self.objs.iter().enumerate() {
            match &ob.sh {
                Sh::T(t) => {
                    if from == Some(k) {
                        continue;
                    }
                    match tri_oracle(&t.d(), o, d, 1e30, 256.) {
                        Hit::Miss => {}
                        Hit::Ambiguous => amb.push(0.),
                        Hit::At(s, _, b) => {
                            if s < eps || b.iter().any(|x| *x < 1e-4) {
                                amb.push(s);
                            } else if best.as_ref().map_or(true, |x| s < x.t) {
                                if let Some(x) = &best {
                                    if x.t - s < eps {
                                        amb.push(s);
                                    }
                                }
                                best = Some(Near { k, t: s, p: o + d * s, n: crate::light::emit_normal(t) });
                            } else if s - best.as_ref().unwrap().t < eps {
                                amb.push(s);
                            }
                        }
                    }
                }
                Sh::S(c, r) => {
                    let (c, r) = (c.d(), *r as f64);
                    match sphere_oracle(c, r, o, d) {
                        None => {
                            let oc = o - c;
                            let dist = (oc - d * oc.dot(d)).len();
                            if dist < r * 1.0001 {
                                amb.push(0.);
                            }
                        }
                        Some((t0, t1, c2)) => {
                            if c2 < 1e-3 && t1 > -eps {
                                amb.push(0.);
                                continue;
                            }
                            for s in &[t0, t1] {
                                let s = *s;
                                if s.abs() < eps {
                                    if from != Some(k) {
                                        amb.push(0.);
                                    }
                                    continue;
                                }
                                if s < 0. {
                                    continue;
                                }
                                if best.as_ref().map_or(true, |x| s < x.t) {
                                    if let Some(x) = &best {
                                        if x.t - s < eps {
                                            amb.push(s);
                                        }
                                    }
                                    let p = o + d * s;
                                    best = Some(Near { k, t: s, p, n: (p - c).norm() });
                                } else if s - best.as_ref().unwrap().t < eps {
                                    amb.push(s);
                                }
                                break;
                            }
                        }
                    }
                }
            }
        }
        let lim = best.as_ref().map_or(f64::INFINITY, |b| b.t + eps);
        if amb.iter().any(|&a| a < lim) {
            return Err(());
        }
        Ok(best)
    }
}

/// Ways on from a specular surface: (direction, weight), and the number of lobes to choose from.
pub fn specular_ways(lobes: &[Lobe], n: V, d: V) -> Vec<(V, S3)> {
    let cos = -d.dot(n);
    let mut out = vec![];
    for l in lobes {
        match l {
            Lobe::SRefl(r, fr) => {
                let w = d + n * (2. * cos);
                out.push((w, mul3(*r, fr.eval(cos))));
            }
            Lobe::STrans(t, eta) => {
                let (ei, et, m) = if cos > 0. { (1., *eta, n) } else { (*eta, 1., -n) };
                let c = cos.abs();
                let s2 = (ei / et) * (ei / et) * (1. - c * c);
                if s2 >= 1. {
                    continue;
                }
                let w = d * (ei / et) + m * (ei / et * c - (1. - s2).sqrt());
                let f = fr_diel(cos, 1., *eta);
                out.push((w, scale3(*t, (1. - f) * (ei / et) * (ei / et))));
            }
            _ => {}
        }
    }
    out
}

/// Exact radiance along a ray when everything is black or specular. Returns radiance and the bound of what was cut off.
pub fn specular_radiance(w: &World, o: V, d: V, from: Option<usize>, depth: u32, weight: f64, scale: f64, budget: &mut u32, chain: &mut u32) -> Result<(S3, f64), ()> {
    if *budget == 0 {
        return Err(());
    }
    *budget -= 1;
    let h = match w.nearest(o, d, from, scale)? {
        None => return Ok(([0.; 3], 0.)),
        Some(h) => h,
    };
    let ob = &w.objs[h.k];
    let cos = -d.dot(h.n);
    let mut l = [0.; 3];
    if cos.abs() < 2e-3 {
        return Err(());
    }
    if let Some(le) = ob.le {
        if cos > 0. {
            l = le;
            *chain = (*chain).max(depth);
        }
    }
    let mut cut = 0.;
    for (wi, k) in specular_ways(&ob.mat.lobes, h.n, d) {
        let m = max3(k);
        if m == 0. {
            continue;
        }
        if weight * m < 1e-4 || depth >= 60 {
            cut += m;
            continue;
        }
        // near the critical angle the weight is too sensitive
        if wi.dot(h.n).abs() < 0.02 {
            return Err(());
        }
        let (x, c) = specular_radiance(w, h.p, wi.norm(), Some(h.k), depth + 1, weight * m, scale, budget, chain)?;
        l = add3(l, mul3(k, x));
        cut += m * c;
    }
    Ok((l, cut))
}

// ------------------------------------------------------------ statistics of images

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Smpl {
    Seq,
    Halton,
    Random,
}

pub const BW: u32 = 16;

/// All pixels see the same ray; the pixels are independent blocks.
pub fn block_image(w: &World, k: S3, o: V, d: V, s: Smpl, seed: u64, spp: u32, kd: bool) -> Result<Image, Fail> {
    let film = Flt::Box(0.5).film(BW, BW);
    let cam = RayCam::one(o, d);
    macro_rules! go {
        ($sc:expr) => {
            match s {
                Smpl::Seq => render($sc, SeqSampler::new(seed, spp, false), cam, film, 1),
                Smpl::Halton => {
                    let h = HaltonSampler::new(spp, film.sample_bbox());
                    render($sc, h, cam, film, 1)
                }
                Smpl::Random => render($sc, RandomSampler::new(spp), cam, film, 1),
            }
        };
    }
    if kd {
        go!(w.kd(k))
    } else {
        go!(w.simple(k))
    }
}

pub struct Est {
    pub mean: S3,
    pub se: S3,
    pub sat: bool,
}

pub fn stats(img: &Image) -> Est {
    let mut st = [Stat::default(), Stat::default(), Stat::default()];
    let mut sat = false;
    for p in &img.px {
        for c in 0..3 {
            sat |= p[c] == 255;
            st[c].add(linear(p[c]));
        }
    }
    Est { mean: [st[0].mean, st[1].mean, st[2].mean], se: [st[0].se(), st[1].se(), st[2].se()], sat }
}

/// half the distance between neighbouring levels at a linear value
pub fn half_step(v: f64) -> f64 {
    let c = crate::film::level(v).round().max(1.).min(254.) as u32;
    let (lo, hi) = cell(c);
    0.5 * (hi - lo)
}

/// Does the average of the rendered pixels meet the expectation (already scaled to a printable range)?
/// Returns None if no decision is possible, or the deviation message.
pub fn decide<F: FnMut(u64, u32) -> Result<Image, Fail>>(ctx: &mut Ctx, mut run: F, e: S3, slack: S3, seed: u64, spp0: u32, max_spp: u32) -> Result<Option<Result<(), String>>, Fail> {
    let mut spp = spp0;
    let mut est;
    loop {
        est = stats(&run(mix(&[seed, 1]), spp)?);
        let noisy = (0..3).any(|c| est.se[c] > 0.008 * e[c]);
        if (est.sat || noisy) && spp * 4 <= max_spp {
            spp *= 4;
            continue;
        }
        break;
    }
    if est.sat && e.iter().all(|x| *x < 0.9) {
        // saturated although the expectation is far from it: heavy tails; unless everything is too bright
        let low = (0..3).all(|c| est.mean[c] <= e[c] + slack[c] + half_step(e[c]) + 5. * est.se[c]);
        if low {
            ctx.label("saturated");
            return Ok(None);
        }
    }
    let off = |x: &Est, z: f64| (0..3).any(|c| (x.mean[c] - e[c]).abs() > slack[c] + half_step(e[c]) * 1.05 + z * x.se[c] + 1e-6);
    ctx.cmp();
    if !off(&est, 4.5) {
        return Ok(Some(Ok(())));
    }
    ctx.label("second look");
    let spp = (spp * 8).min(max_spp * 8);
    for k in 2..4 {
        est = stats(&run(mix(&[seed, k]), spp)?);
        // saturation only lowers the mean
        let sat_low = est.sat && (0..3).all(|c| est.mean[c] <= e[c] + slack[c] + half_step(e[c]) + 7. * est.se[c]);
        if sat_low || !off(&est, 7.) {
            return Ok(Some(Ok(())));
        }
    }
    Ok(Some(Err(format!("{:.5?} (+-{:.5?}, {} samples per block), expected {:.5?} (+-{:.5?})", est.mean, est.se, spp, e, slack))))
}

pub fn sampler_kind(src: &mut Src) -> Smpl {
    match src.weighted(&[6, 2, 1]) {
        0 => Smpl::Seq,
        1 => Smpl::Halton,
        _ => Smpl::Random,
    }
}
