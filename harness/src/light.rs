//! C16: light sampling.
use crate::engine::*;
use crate::gen::*;
use crate::geom::{add_sh, crosses};
use crate::m::*;
use crate::optics::{color, s3};
use crate::{discard, ensure, fail};
use pt::api::*;
use pt::verif::Interaction;

pub struct LightCase {
    pub t: Tri,
    pub l: [f64; 3],
    pub size: f64,
}

pub fn spec(l: [f64; 3]) -> Spectrum {
    Spectrum::new(l[0] as f32, l[1] as f32, l[2] as f32)
}

fn light_case(src: &mut Src) -> LightCase {
    let size = src.logrange(1e-2, 1e2);
    let c = { let k = size * src.pick(&[0., 1., 10.]); point(src, k) };
    let mut t = tri_at(src, c, size);
    t.rev = src.bool();
    if src.pct(15) {
        // vertex normals on either side, tilted a little
        let g = t.gn().norm() * src.pick(&[1., -1.]);
        let f = |src: &mut Src| (g + unit_dir(src) * 0.3).norm().n();
        t.vn = Some([f(src), f(src), f(src)]);
    }
    let s = src.logrange(0.01, 100.);
    let mut l = color(src, 1.);
    for x in l.iter_mut() {
        *x = (*x * s) as f32 as f64;
    }
    LightCase { t, l, size }
}

/// outward normal of the light: the side that emits
pub fn emit_normal(t: &Tri) -> V {
    let mut n = t.gn().norm();
    if let Some(vn) = &t.vn {
        if n.dot(vn[0].d()) < 0. {
            n = -n;
        }
    }
    if t.rev {
        n = -n;
    }
    n
}

fn receiver(src: &mut Src, lc: &LightCase) -> Interaction {
    let d = src.logrange(0.05, 50.) * lc.t.edge();
    let u = (src.unit(), src.unit());
    let base = if u.0 + u.1 > 1. { lc.t.bary(1. - u.0, 1. - u.1) } else { lc.t.bary(u.0, u.1) };
    let p = base + unit_dir(src) * d;
    let n = unit_dir(src);
    let e = src.pick(&[0., 1e-7, 1e-6]) * p.maxabs();
    Interaction { p: p.p(), p_err: V(e, e, e).v(), n: n.n(), sn: n.n(), wo: n.v(), ..Default::default() }
}

/// barycentrics of the point where the ray from p meets the plane; None if it is behind or parallel
fn plane_hit(t: &Tri, p: V, d: V) -> Option<(f64, [f64; 3])> {
    let v = t.d();
    let n = t.gn();
    let dn = d.dot(n);
    if dn == 0. {
        return None;
    }
    let k = (v[0] - p).dot(n) / dn;
    if !(k > 0.) {
        return None;
    }
    let y = p + d * k;
    let nn = n.dot(n);
    let b0 = (v[1] - y).cross(v[2] - y).dot(n) / nn;
    let b1 = (v[2] - y).cross(v[0] - y).dot(n) / nn;
    Some((k, [b0, b1, 1. - b0 - b1]))
}

fn density(t: &Tri, k: f64, d: V) -> f64 {
    k * k / (d.dot(t.gn().norm()).abs() * t.area())
}

fn c16_area(src: &mut Src, ctx: &mut Ctx) -> R {
    let lc = light_case(src);
    let light = AreaLight::new(spec(lc.l), lc.t.build(nomat()));
    let n = emit_normal(&lc.t);
    ensure!(!Light::is_delta(&light), "an area light claims to be a point or direction");
    ctx.label(if lc.t.vn.is_some() { "vertex normals" } else { "flat" });
    for _ in 0..4 {
        let i = receiver(src, &lc);
        let p = i.p.d();
        for _ in 0..3 {
            let u = Point2f::new((src.unit() * 0.99999) as f32, (src.unit() * 0.99999) as f32);
            let (wi, l, pdf, _) = light.sample_li(&i, u);
            let w = wi.d();
            ensure!((w.len() - 1.).abs() < 1e-5, "direction {:?} to a point on the light has length {}", w, w.len());
            let cos = w.dot(n);
            let ext = lc.t.d().iter().map(|v| (*v - p).len()).fold(0., f64::max);
            if cos.abs() < 5e-3 {
                ctx.label("edge on");
                ensure!(pdf >= 0. && pdf < std::f32::INFINITY, "density {} for a light seen edge on", pdf);
                continue;
            }
            let mag = lc.t.v.iter().map(|v| v.d().maxabs()).fold(p.maxabs(), f64::max);
            // error of the point relative to its distance and to the triangle
            let e = 64. * U * (mag + ext) + i.p_err.d().maxabs() * 2.;
            if (lc.t.v[0].d() - p).dot(n).abs() < 8. * e {
                ctx.label("in the light's plane");
                continue;
            }
            let be = e / (cos.abs() * lc.t.edge() * lc.t.quality()) * 2. + 1e-6;
            if be > 0.02 {
                ctx.label("ill-conditioned");
                continue;
            }
            let (k, b) = match plane_hit(&lc.t, p, w) {
                Some(x) => x,
                None => fail!("direction {:?} from {:?} leads away from the light {:?}", w, p, lc.t),
            };
            ctx.cmp();
            ctx.nontrivial();
            ctx.desc(|| format!("light {:?}, receiver {:?}, u {:?}: direction {:?} density {} radiance {:?}", lc.t.v, p, u, w, pdf, l));
            let m = b.iter().cloned().fold(1., f64::min);
            ensure!(m > -be, "direction {:?} from {:?} misses the light {:?}: barycentrics {:?}", w, p, lc.t.v, b);
            // radiance
            let want = if cos < 0. { lc.l } else { [0.; 3] };
            ctx.label(if cos < 0. { "emitting side" } else { "dark side" });
            ensure!(s3(l) == want, "radiance from {:?} in direction {:?} of light {:?} with emitting normal {:?} is {:?}, expected {:?}", p, w, lc.t, n, l, want);
            // density
            let q = density(&lc.t, k, w);
            let rel = 8. * e / (k * cos.abs()) + 8. * U / cos.abs() + 1e-5;
            if pdf == 0. && m < be {
                ctx.label("at the rim");
            } else if rel > 0.1 {
                ctx.label("density ill-conditioned");
            } else {
                ensure!((pdf as f64 - q).abs() <= rel * q, "density of direction {:?} from {:?} to light {:?} is {}, expected {} per solid angle", w, p, lc.t.v, pdf, q);
            }
            let p2 = light.pdf_li(&i, wi);
            ensure!(p2 == pdf || m < be || (p2 as f64 - pdf as f64).abs() <= 1e-5 * pdf as f64, "density of the sampled direction is {} with the sample but {} when asked for", pdf, p2);
        }
        // arbitrary directions
        for _ in 0..3 {
            let w = match src.below(2) {
                0 => unit_dir(src),
                _ => {
                    let a = src.range(-0.3, 1.3);
                    let b = src.range(-0.3, 1.3);
                    (lc.t.bary(a, b) - p).norm()
                }
            };
            let wi = w.v();
            let w = wi.d();
            let got = light.pdf_li(&i, wi) as f64;
            let cos = w.dot(n);
            let ext = lc.t.d().iter().map(|v| (*v - p).len()).fold(0., f64::max);
            let mag = lc.t.v.iter().map(|v| v.d().maxabs()).fold(p.maxabs(), f64::max);
            let e = 64. * U * (mag + ext) + i.p_err.d().maxabs() * 2.;
            ensure!(got >= 0. && got < f64::INFINITY, "density {} of direction {:?}", got, w);
            if cos.abs() < 5e-3 {
                continue;
            }
            let be = e / (cos.abs() * lc.t.edge() * lc.t.quality()) * 2. + 1e-6;
            if (lc.t.v[0].d() - p).dot(n).abs() < 8. * e {
                ctx.label("in the light's plane");
                continue;
            }
            let hit = plane_hit(&lc.t, p, w);
            let (want, k) = match hit {
                Some((k, b)) => {
                    let m = b.iter().cloned().fold(1., f64::min);
                    if m.abs() < be || k * cos.abs() < 4. * e {
                        ctx.label("rim or touching");
                        continue;
                    }
                    (if m > 0. { density(&lc.t, k, w) } else { 0. }, k)
                }
                None => (0., 1.),
            };
            ctx.cmp();
            ctx.nontrivial();
            ctx.label(if want > 0. { "direction towards" } else { "direction past" });
            let rel = 8. * e / (k * cos.abs()) + 8. * U / cos.abs() + 1e-5;
            if rel > 0.1 && want > 0. {
                ctx.label("density ill-conditioned");
            } else if want == 0. {
                ensure!(got == 0., "direction {:?} from {:?} misses the light {:?} but has density {}", w, p, lc.t.v, got);
            } else {
                ensure!((got - want).abs() <= rel * want, "density of direction {:?} from {:?} to light {:?} is {}, expected {}", w, p, lc.t.v, got, want);
            }
        }
    }
    Ok(())
}

/// Points are spread uniformly: a regular grid of sample points fills equal parts equally.
fn c16_uniform(src: &mut Src, ctx: &mut Ctx) -> R {
    let lc = light_case(src);
    if lc.t.quality() < 0.05 {
        discard!();
    }
    let light = AreaLight::new(spec(lc.l), lc.t.build(nomat()));
    let n = lc.t.gn().norm();
    let side = src.pick(&[1., -1.]);
    let u = (src.unit(), src.unit());
    let p = lc.t.bary(u.0, u.1) + n * (side * lc.t.edge() * src.logrange(0.2, 3.));
    let i = Interaction { p: p.p(), n: n.n(), sn: n.n(), wo: n.v(), ..Default::default() };
    let p = i.p.d();
    const N: usize = 64;
    const G: usize = 4;
    let mut cells = [[0u32; 2 * G]; G];
    let mut total = 0;
    let mut inv = 0f64;
    let j = (src.unit(), src.unit());
    for a in 0..N {
        for b in 0..N {
            let u = Point2f::new(((a as f64 + j.0) / N as f64) as f32, ((b as f64 + j.1) / N as f64) as f32);
            let (wi, _, pdf, _) = light.sample_li(&i, u);
            if let Some((k, bc)) = plane_hit(&lc.t, p, wi.d()) {
                // cell of the regular subdivision into G^2 congruent triangles
                let (x, y) = (bc[1].max(0.) * G as f64, bc[2].max(0.) * G as f64);
                let (ix, iy) = ((x as usize).min(G - 1), (y as usize).min(G - 1));
                let up = x.fract() + y.fract() > 1.;
                if ix + iy < G {
                    cells[ix][2 * iy + up as usize] += 1;
                }
                total += 1;
                if pdf > 0. {
                    inv += density(&lc.t, k, wi.d()) / pdf as f64;
                }
            }
        }
    }
    ctx.cmp();
    ctx.nontrivial();
    ctx.desc(|| format!("light {:?} from {:?}: cells {:?}", lc.t.v, p, cells));
    ensure!(total as usize == N * N, "{} of {} sampled directions from {:?} do not meet the plane of the light {:?}", N * N - total as usize, N * N, p, lc.t.v);
    ensure!((inv / (N * N) as f64 - 1.).abs() < 0.02, "sampled densities are off by a factor {} from {:?} to {:?}", inv / (N * N) as f64, p, lc.t.v);
    let want = (N * N / (G * G)) as f64;
    for ix in 0..G {
        for iy in 0..G - ix {
            for up in 0..2 {
                if up == 1 && ix + iy == G - 1 {
                    continue;
                }
                let c = cells[ix][2 * iy + up] as f64;
                ensure!((c - want).abs() < 0.3 * want, "one of {} equal parts of the light {:?} receives {} of {} sample points", G * G, lc.t.v, c, N * N);
            }
        }
    }
    Ok(())
}

fn c16_distant(src: &mut Src, ctx: &mut Ctx) -> R {
    let ext = src.pick(&[10., 1., 1000., 0.05]);
    let off = { let k = ext * src.pick(&[0., 0., 3.]); point(src, k) };
    let dirv = { let k = src.logrange(0.1, 10.); dir(src) * k };
    let l = color(src, 10.);
    let mut b = Builder::new();
    b.add_light(DistantLight::new(spec(l), dirv.v()));
    let w = dirv.v().d().norm();
    // shapes, some of them far away along the light's direction
    let mut shapes = vec![];
    let n = src.usize(1, 6);
    let mut boxes: Vec<(V, V)> = vec![];
    for k in 0..n {
        let c = off + match src.below(3) {
            0 => point(src, ext),
            1 => w * (ext * src.range(-1., 3.)),
            _ => {
                let q = point(src, ext);
                q + w * (ext * src.range(0., 5.))
            }
        };
        let sz = ext * src.pick(&[0.2, 0.5, 1.]);
        let s = shape_at(src, c, sz);
        let lit = src.pct(25);
        match (&s, lit) {
            (Sh::T(t), true) => {
                b.add_area_light(AreaLight::new(Spectrum::from(1.), t.build(nomat())));
                ctx.label("area light in the way");
            }
            _ => add_sh(&mut b, &s),
        }
        let bb = s.arc().bbox();
        boxes.push((bb.min.d(), bb.max.d()));
        let _ = k;
        shapes.push(s);
    }
    let simple = src.bool();
    let scene_k;
    let scene_s;
    enum Sc<'a> {
        K(&'a pt::verif::Scene<KdTree>),
        S(&'a pt::verif::Scene<pt::verif::Simple>),
    }
    let sc = if simple {
        scene_s = b.construct(|x| pt::verif::Simple::new(x));
        Sc::S(&scene_s)
    } else {
        scene_k = b.construct(|x| KdTree::new(x, None));
        Sc::K(&scene_k)
    };
    let light = match &sc {
        Sc::K(s) => s.lights()[0].clone(),
        Sc::S(s) => s.lights()[0].clone(),
    };
    ensure!(light.is_delta(), "a distant light claims to have an extent");
    let lo = boxes.iter().fold(boxes[0].0, |a, b| V(a.0.min((b.0).0), a.1.min((b.0).1), a.2.min((b.0).2)));
    let hi = boxes.iter().fold(boxes[0].1, |a, b| V(a.0.max((b.1).0), a.1.max((b.1).1), a.2.max((b.1).2)));
    let diam = (hi - lo).len();
    for _ in 0..12 {
        // receivers on shapes, or anywhere inside the scene
        let target = {
            let k = src.usize(0, shapes.len() - 1);
            shapes[k].surf(src)
        };
        let p = match src.below(4) {
            0 => target,
            1 => V(src.range(lo.0, hi.0), src.range(lo.1, hi.1), src.range(lo.2, hi.2)),
            // on the ray through a shape, on the far side from the light, still inside the scene's extent
            _ => {
                let mut q = target;
                for _ in 0..8 {
                    let c = target - w * (diam * src.range(0., 1.));
                    if c.0 >= lo.0 && c.1 >= lo.1 && c.2 >= lo.2 && c.0 <= hi.0 && c.1 <= hi.1 && c.2 <= hi.2 {
                        q = c;
                        break;
                    }
                }
                q
            }
        };
        let nn = unit_dir(src);
        let i = Interaction { p: p.p(), n: nn.n(), sn: nn.n(), wo: nn.v(), ..Default::default() };
        let p = i.p.d();
        let u = Point2f::new(src.unit() as f32 * 0.999, src.unit() as f32 * 0.999);
        let (wi, li, pdf, vis) = light.sample_li(&i, u);
        ensure!((wi.d() - w).len() < 1e-6, "direction to the distant light is {:?}, expected {:?}", wi, w);
        ensure!(s3(li) == s3(spec(l)), "radiance {:?} of a distant light with {:?}", li, l);
        ensure!(pdf == 1., "density {} of the only direction of a distant light", pdf);
        ensure!(light.pdf_li(&i, wi) == 0. && light.pdf_li(&i, unit_dir(src).v()) == 0., "a distant light has a density for directions sampled otherwise");
        // shadow test against every shape all the way out of the scene
        let mut blocked = false;
        let mut amb = false;
        for s in &shapes {
            match crosses(s, p, w * (4. * diam)) {
                Some(true) => blocked = true,
                Some(false) => {}
                None => amb = true,
            }
        }
        if amb {
            // hits within 1e-3 of either end, or at rims
            ctx.label("ambiguous");
            if !blocked {
                continue;
            }
        }
        if blocked {
            // far enough from the receiver to be robust, and within the reach of the documented shadow ray
            let mut sure = false;
            for s in &shapes {
                if let Some(true) = crosses(s, p, w * (diam * 0.9985)) {
                    sure = true;
                }
            }
            if !sure {
                continue;
            }
        }
        ctx.cmp();
        ctx.nontrivial();
        ctx.label(if blocked { "blocked" } else { "lit" });
        ctx.desc(|| format!("{} shapes, light along {:?}, receiver {:?} blocked={}", shapes.len(), w, p, blocked));
        let got = match &sc {
            Sc::K(s) => vis.unoccluded(s),
            Sc::S(s) => vis.unoccluded(s),
        };
        ensure!(got == !blocked, "light from direction {:?} at {:?}: reported unoccluded={}, expected {} among {:?}", w, p, got, !blocked, shapes);
    }
    Ok(())
}

/// The shadow test of an area light finds a blocker anywhere strictly between, and nothing else.
fn c16_shadow(src: &mut Src, ctx: &mut Ctx) -> R {
    let lc = light_case(src);
    if lc.t.quality() < 0.05 {
        discard!();
    }
    let n = emit_normal(&lc.t);
    let at = {
        let u = (src.unit(), src.unit());
        if u.0 + u.1 > 1. { lc.t.bary(1. - u.0, 1. - u.1) } else { lc.t.bary(u.0, u.1) }
    };
    let d = src.logrange(0.3, 30.) * lc.t.edge();
    let mut away = unit_dir(src);
    if away.dot(n).abs() < 0.1 {
        away = n * away.dot(n).signum();
    }
    let p = at + away * d;
    // a surface point of either orientation
    let nn = { let q = unit_dir(src); if q.dot(away).abs() < 0.05 { away } else { q } };
    let i = Interaction { p: p.p(), n: nn.n(), sn: nn.n(), wo: nn.v(), ..Default::default() };
    let p = i.p.d();
    let light = AreaLight::new(spec(lc.l), lc.t.build(nomat()));
    let u = Point2f::new(src.unit() as f32 * 0.999, src.unit() as f32 * 0.999);
    let (wi, li, pdf, vis) = light.sample_li(&i, u);
    if !(pdf > 0.) || s3(li) == [0.; 3] {
        ctx.label("dark side");
        return Ok(());
    }
    let w = wi.d();
    let (k, b) = match plane_hit(&lc.t, p, w) {
        Some(x) => x,
        None => return Ok(()),
    };
    if w.dot(n).abs() < 0.05 || b.iter().any(|x| *x < 1e-3) {
        discard!();
    }
    // one possible blocker
    let mag = lc.t.v.iter().map(|v| v.d().maxabs()).fold(p.maxabs(), f64::max);
    let (kind, s) = match src.weighted(&[2, 3, 3, 2, 1, 1]) {
        0 => (0, 0.),
        1 => (1, src.range(0.01, 0.99)),
        2 => (1, 1. - src.logrange(5e-4, 1e-2)),
        3 => (1, src.logrange(5e-4, 1e-2)),
        4 => (2, 1. + src.logrange(1e-3, 1.)),
        _ => (2, -src.logrange(1e-3, 1.)),
    };
    if k * 5e-4 < 64. * U * mag {
        discard!();
    }
    let miss = kind == 1 && src.pct(25);
    let mut b = Builder::new();
    if src.bool() {
        // the sampled light itself is part of the scene
        b.add_area_light(AreaLight::new(spec(lc.l), lc.t.build(nomat())));
    }
    let mut what = format!("no blocker");
    if kind > 0 {
        let (e, f, g) = frame(w, src.range(0., 6.28));
        let z = k * src.logrange(1e-3, 0.3);
        let (e, f) = (e + g * src.range(-0.1, 0.1).min((s - 1f64).abs() * 0.1), f);
        let off = if miss { (e + f) * (4. * z) } else { V(0., 0., 0.) };
        let c = p + w * (k * s) + off;
        let mut t = Tri::new(c + e * z, c - e * z * 0.5 + f * z * 0.8, c - e * z * 0.5 - f * z * 0.8);
        t.rev = src.bool();
        let lit = src.pct(20);
        what = format!("triangle {:?}, {} {} of the way{}", t.v, if miss { "beside the ray at" } else { "across the ray at" }, s, if lit { ", itself a light" } else { "" });
        // tilted: must stay clear of both ends
        let (lo, hi) = t.d().iter().map(|v| (*v - p).dot(w) / k).fold((f64::INFINITY, -f64::INFINITY), |a, x| (a.0.min(x), a.1.max(x)));
        if kind == 2 && lo < 1. + 5e-4 && hi > -5e-4 {
            discard!();
        }
        if lit {
            b.add_area_light(AreaLight::new(Spectrum::from(1.), t.build(nomat())));
        } else {
            add_sh(&mut b, &Sh::T(t));
        }
    }
    let blocked = kind == 1 && !miss;
    let got = if src.bool() {
        let sc = b.construct(|x| pt::verif::Simple::new(x));
        vis.unoccluded(&sc)
    } else {
        let sc = b.construct(|x| KdTree::new(x, None));
        vis.unoccluded(&sc)
    };
    ctx.cmp();
    ctx.nontrivial();
    ctx.label(if blocked { if s > 0.99 { "blocked close to the light" } else if s < 0.01 { "blocked close to the point" } else { "blocked" } } else if kind == 2 { "shape beyond" } else { "free" });
    ctx.desc(|| format!("light {:?} from {:?}: {}", lc.t.v, p, what));
    ensure!(got == !blocked, "light {:?} towards {:?} with {}: reported unoccluded={}", lc.t.v, p, what, got);
    Ok(())
}

pub static C16: Prop = Prop {
    id: "C16",
    rule: "case: a light with receivers, at least one of them with a decided comparison away from rims and edge-on views (area), a light and receiver with 4096 samples (uniform), a scene around a distant light with a decided shadow test (distant)",
    assumptions: &[
        "receivers seeing the light at less than 0.3 degrees, and points within rounding of the light's rim, are not compared",
        "shadow tests of distant lights reach twice the radius of the scene, less one per mille",
        "a blocker within half a per mille of either end of the way to the light is not compared",
    ],
    subs: &[
        Sub { name: "area", quick: 2_400_000, thorough: 30_000_000, f: c16_area },
        Sub { name: "uniform", quick: 16_000, thorough: 200_000, f: c16_uniform },
        Sub { name: "shadow", quick: 1_600_000, thorough: 20_000_000, f: c16_shadow },
        Sub { name: "distant", quick: 800_000, thorough: 10_000_000, f: c16_distant },
    ],
};
