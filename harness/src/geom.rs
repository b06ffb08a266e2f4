//! C01-C07, C31: shapes, containers, frames, spawned rays, boxes.
use crate::engine::*;
use crate::gen::*;
use crate::m::*;
use crate::{discard, ensure, fail};
use pt::api::*;
use pt::verif::{BBox3f, Container, Interaction, Ray, Simple};
use std::sync::Arc;

pub fn brute(arcs: &[Arc<dyn Shape>], r: &Ray) -> Option<(usize, f32)> {
    let mut best: Option<(usize, f32)> = None;
    for (i, s) in arcs.iter().enumerate() {
        if let Some((_, t)) = s.intersect(r) {
            if best.map_or(true, |b| t < b.1) {
                best = Some((i, t));
            }
        }
    }
    best
}

/// Is it certain (in exact arithmetic, with a rounding margin) that the ray hits the shape at t?
pub fn robust_hit(s: &Sh, r: &Ray, t: f64) -> bool {
    let (o, d) = (r.origin.d(), r.direction.d());
    match s {
        Sh::T(tr) => match tri_oracle(&tr.d(), o, d, r.t_max as f64, 24.) {
            Hit::At(_, _, _) => true,
            _ => false,
        },
        Sh::S(c, rad) => {
            let c = c.d();
            let rad = *rad as f64;
            match sphere_oracle(c, rad, o, d) {
                None => false,
                Some((t0, t1, cos2)) => {
                    let e = 64. * U * (o.maxabs() + c.maxabs() + rad) / (d.len() * cos2.max(1e-12).sqrt()) + 1e-6 * t.abs();
                    if cos2 < 1e-4 {
                        return false;
                    }
                    // touching the corner of its own bounding box region counts as marginal
                    let p = o + d * t - c;
                    if (0..3).any(|k| (rad - p.get(k).abs()) < 64. * U * (c.maxabs() + rad)) {
                        return false;
                    }
                    let tm = r.t_max as f64;
                    let ok = |x: f64| x > e && x < tm - e - 1e-6 * x.abs();
                    // both roots well away from the decision boundaries
                    let clear = |x: f64| (x.abs() > e) && ((x - tm).abs() > e);
                    clear(t0) && clear(t1) && (ok(t0) || ok(t1))
                }
            }
        }
    }
}

fn find(arcs: &[Arc<dyn Shape>], s: &Arc<dyn Shape>) -> Option<usize> {
    let p = Arc::as_ptr(s) as *const ();
    arcs.iter().position(|a| Arc::as_ptr(a) as *const () == p)
}

struct World {
    shs: Vec<Sh>,
    arcs: Vec<Arc<dyn Shape>>,
    ext: f64,
    name: &'static str,
}

fn world(src: &mut Src, max_n: usize) -> World {
    let s = shape_set(src, max_n);
    world_of(s)
}
fn world_of((shs, ext, name): (Vec<Sh>, f64, &'static str)) -> World {
    let arcs = shs
        .iter()
        .map(|s| {
            if let (Sh::T(t), true) = (s, false) {
                let _ = t;
            }
            s.arc()
        })
        .collect();
    World { shs, arcs, ext, name }
}

fn check_nearest(w: &World, c: &dyn Container, r: &Ray, ctx: &mut Ctx, cname: &str) -> R {
    let reference = brute(&w.arcs, r);
    let got = c.intersect(r);
    ctx.cmp();
    match (reference, got) {
        (None, None) => {
            ctx.label("miss");
        }
        (None, Some(i)) => {
            fail!("{}: reports a hit at {:?} but no shape is hit; {} shapes={} ({})", cname, i.p, ray_str(r), w.shs.len(), w.name);
        }
        (Some((k, t)), None) => {
            if robust_hit(&w.shs[k], r, t as f64) {
                fail!("{}: misses shape {} ({:?}) hit at t={:e}; {} shapes={} ({})", cname, k, w.shs[k], t, ray_str(r), w.shs.len(), w.name);
            }
            ctx.label("ambiguous-miss");
        }
        (Some((k, t)), Some(i)) => {
            let s = match i.shape {
                Some(ref s) => s.clone(),
                None => fail!("{}: hit without shape", cname),
            };
            let j = match find(&w.arcs, &s) {
                Some(j) => j,
                None => fail!("{}: hit names a shape that is not in the scene", cname),
            };
            let (ij, tj) = match w.arcs[j].intersect(r) {
                Some(x) => x,
                None => fail!("{}: hit names shape {} ({:?}) that the ray does not hit; {}", cname, j, w.shs[j], ray_str(r)),
            };
            let d = (ij.p.d() - i.p.d()).maxabs();
            ensure!(
                d <= 1e-5 * (i.p.d().maxabs() + w.ext * 1e-2),
                "{}: hit point {:?} is not the point {:?} where the ray hits shape {}; {}",
                cname, i.p, ij.p, j, ray_str(r)
            );
            ensure!(tj <= r.t_max * (1. + 1e-6), "{}: hit beyond the ray's limit: t={:e}; {}", cname, tj, ray_str(r));
            if (tj as f64) > t as f64 * (1. + 4e-6) {
                if robust_hit(&w.shs[k], r, t as f64) {
                    fail!(
                        "{}: reports shape {} at t={:e} but shape {} ({:?}) is nearer at t={:e}; {} shapes={} ({})",
                        cname, j, tj, k, w.shs[k], t, ray_str(r), w.shs.len(), w.name
                    );
                }
                ctx.label("ambiguous-nearest");
            } else {
                ctx.label("hit");
                let crossed = w.arcs.iter().take(300).filter(|a| a.intersect_p(r)).count();
                if crossed > 1 {
                    ctx.label("hit-of-several");
                    if w.shs.len() > 8 {
                        ctx.nontrivial();
                    }
                }
            }
        }
    }
    Ok(())
}

fn c01_kd(src: &mut Src, ctx: &mut Ctx) -> R {
    let w = world(src, if ctx.thorough { 2500 } else { 700 });
    let depth = if src.pct(25) { Some(src.int(0, 14) as u32) } else { None };
    ctx.label(w.name);
    let kd = KdTree::new(w.arcs.clone().into_boxed_slice(), depth);
    let n = 40;
    for _ in 0..n {
        let r = scene_ray(src, &w.shs, w.ext);
        ctx.desc(|| format!("{} {} shapes depth={:?} {}", w.name, w.shs.len(), depth, ray_str(&r)));
        check_nearest(&w, &kd, &r, ctx, "k-d tree")?;
    }
    // the container's box contains all shapes
    let b = kd.bbox();
    for a in &w.arcs {
        let sb = a.bbox();
        ensure!(b.union(&sb).min == b.min && b.union(&sb).max == b.max, "tree box {:?}..{:?} does not contain shape box {:?}..{:?}", b.min, b.max, sb.min, sb.max);
    }
    Ok(())
}

/// Scenes of many thousand shapes.
fn c01_large(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.logrange(1000., 70_000.) as usize;
    let mut b = Src::random(src.seed());
    let w = world_of(shape_set_of(&mut b, n));
    ctx.label(w.name);
    let kd = KdTree::new(w.arcs.clone().into_boxed_slice(), None);
    for _ in 0..30 {
        let r = scene_ray(&mut b, &w.shs, w.ext);
        ctx.desc(|| format!("{} {} shapes {}", w.name, w.shs.len(), ray_str(&r)));
        check_nearest(&w, &kd, &r, ctx, "k-d tree")?;
        ensure!(kd.intersect_p(&r) == kd.intersect(&r).is_some(), "k-d tree of {} shapes ({}): any hit and nearest hit disagree; {}", n, w.name, ray_str(&r));
    }
    let bb = kd.bbox();
    for a in &w.arcs {
        let sb = a.bbox();
        ensure!(bb.union(&sb).min == bb.min && bb.union(&sb).max == bb.max, "tree box {:?}..{:?} does not contain shape box {:?}..{:?}", bb.min, bb.max, sb.min, sb.max);
    }
    Ok(())
}

fn c01_flat(src: &mut Src, ctx: &mut Ctx) -> R {
    let w = world(src, 60);
    let simple = Simple::new(w.arcs.clone().into_boxed_slice());
    for _ in 0..12 {
        let r = scene_ray(src, &w.shs, w.ext);
        check_nearest(&w, &simple, &r, ctx, "flat list")?;
    }
    Ok(())
}

/// rays re-queried with limits around hits, sequences over one tree (order must not matter)
fn c01_limits(src: &mut Src, ctx: &mut Ctx) -> R {
    let w = world(src, 300);
    let kd = KdTree::new(w.arcs.clone().into_boxed_slice(), None);
    for _ in 0..8 {
        let mut r = scene_ray(src, &w.shs, w.ext);
        r.t_max = f32::INFINITY;
        // walk along the ray by raising the limit over all crossings
        let mut ts: Vec<f32> = w.arcs.iter().filter_map(|a| a.intersect(&r).map(|x| x.1)).collect();
        ts.sort_by(|a, b| a.partial_cmp(b).unwrap());
        if ts.is_empty() {
            continue;
        }
        let k = src.below(ts.len() as u64) as usize;
        for f in &[0.5f32, 0.999, 1.001, 2.] {
            r.t_max = ts[k] * f;
            ctx.label("limit");
            check_nearest(&w, &kd, &r, ctx, "k-d tree")?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C02

fn c02_containers(src: &mut Src, ctx: &mut Ctx) -> R {
    let w = world(src, 500);
    let depth = if src.pct(20) { Some(src.int(0, 10) as u32) } else { None };
    let kd = KdTree::new(w.arcs.clone().into_boxed_slice(), depth);
    let simple = if w.shs.len() < 80 { Some(Simple::new(w.arcs.clone().into_boxed_slice())) } else { None };
    for _ in 0..30 {
        let mut r = scene_ray(src, &w.shs, w.ext);
        let reference = brute(&w.arcs, &r);
        let robust = reference.map_or(true, |(k, t)| robust_hit(&w.shs[k], &r, t as f64));
        let mut cs: Vec<(&str, &dyn Container)> = vec![("k-d tree", &kd)];
        if let Some(ref s) = simple {
            cs.push(("flat list", s));
        }
        for (name, c) in cs {
            let a = c.intersect_p(&r);
            let b = c.intersect(&r).is_some();
            ctx.cmp();
            if a != b {
                // only a disagreement about marginal hits is excused
                let any_robust = w.arcs.iter().enumerate().any(|(k, s)| s.intersect(&r).map_or(false, |(_, t)| robust_hit(&w.shs[k], &r, t as f64)));
                if any_robust || reference.is_none() {
                    fail!("{}: occlusion query says {} but nearest-hit query says {}; {} shapes={} ({})", name, a, b, ray_str(&r), w.shs.len(), w.name);
                }
                ctx.label("ambiguous");
            } else if a != reference.is_some() && robust {
                fail!("{}: both queries say {} but shape-by-shape test says {}; {}", name, a, reference.is_some(), ray_str(&r));
            }
            if a {
                ctx.label("occluded");
                if w.shs.len() > 8 {
                    ctx.nontrivial();
                }
            } else {
                ctx.label("clear");
            }
            // limit just before / after the nearest hit
            if let Some((_, t)) = reference {
                if robust && t > 0. {
                    let keep = r.t_max;
                    r.t_max = t * (1. - 1e-3);
                    let (a0, b0) = (c.intersect_p(&r), c.intersect(&r).is_some());
                    let rb = w.arcs.iter().any(|s| s.intersect_p(&r));
                    r.t_max = (t * (1. + 1e-3)).min(keep);
                    let (a1, b1) = (c.intersect_p(&r), c.intersect(&r).is_some());
                    let rb1 = brute(&w.arcs, &r);
                    let rob1 = rb1.map_or(false, |(k, t)| robust_hit(&w.shs[k], &r, t as f64));
                    r.t_max = keep;
                    ctx.cmp();
                    ensure!(!a0 && !b0 && !rb, "{}: hit reported ({}, {}, {}) although the limit lies before the nearest hit t={:e}; {}", name, a0, b0, rb, t, ray_str(&r));
                    if rob1 {
                        ensure!(a1 && b1, "{}: no hit reported ({}, {}) although the limit lies behind the hit t={:e}; {}", name, a1, b1, t, ray_str(&r));
                    }
                }
            }
        }
    }
    Ok(())
}

fn c02_shapes(src: &mut Src, ctx: &mut Ctx) -> R {
    let s = src.pick(&[1., 100., 0.01]);
    let c = { let k = s * src.pick(&[0., 1., 30.]); point(src, k) };
    let sh = if src.below(3) < 2 { Sh::T(tri_at(src, c, s)) } else { Sh::S(c.p(), s as f32) };
    let plain = sh.arc();
    let light: Arc<dyn Shape> = match &sh {
        Sh::T(t) => Arc::new(AreaLight::new(Spectrum::from(1.), t.build(nomat()))),
        Sh::S(c, r) => Arc::new(AreaLight::new(Spectrum::from(1.), Sphere::new(*c, *r, nomat()))),
    };
    for _ in 0..40 {
        let mut r = one_shape_ray(src, &sh, c, s);
        let h = plain.intersect(&r);
        if let Some((_, t)) = h {
            if src.pct(50) {
                r.t_max = t * src.pick(&[0.9f32, 0.999, 1.001, 1.1, 0.5]);
            }
        }
        let h = plain.intersect(&r);
        let hp = plain.intersect_p(&r);
        ctx.cmp();
        if hp != h.is_some() {
            let robust = match (&sh, &h) {
                (_, Some((_, t))) => robust_hit(&sh, &r, *t as f64),
                (Sh::T(t), None) => !matches!(tri_oracle(&t.d(), r.origin.d(), r.direction.d(), r.t_max as f64, 24.), Hit::Ambiguous),
                (Sh::S(c, rad), None) => sphere_clear(c.d(), *rad as f64, &r),
            };
            ensure!(!robust, "shape {:?}: occlusion query says {} but nearest-hit query says {}; {}", sh, hp, h.is_some(), ray_str(&r));
            ctx.label("ambiguous");
        }
        ctx.label(if hp { "hit" } else { "miss" });
        if hp {
            ctx.nontrivial();
        }
        // area light geometry is the geometry of its shape
        let lh = light.intersect(&r);
        ensure!(lh.is_some() == h.is_some() && light.intersect_p(&r) == hp, "area light and its bare shape disagree on a ray: {:?} {}", sh, ray_str(&r));
        if let (Some((a, ta)), Some((b, tb))) = (lh, h) {
            ensure!(ta == tb && a.p == b.p && a.n == b.n, "area light reports another hit than its bare shape: {:?} {}", sh, ray_str(&r));
        }
    }
    Ok(())
}

fn sphere_clear(c: V, r: f64, ra: &Ray) -> bool {
    let (o, d) = (ra.origin.d(), ra.direction.d());
    let oc = o - c;
    let a = d.dot(d);
    let b = d.dot(oc);
    let cc = oc.dot(oc) - r * r;
    let disc = (b * b - a * cc) / (a * r * r);
    let scale = (o.maxabs() + c.maxabs() + r) / r;
    if disc < -(64. * U * scale * scale) - 1e-6 {
        return true;
    }
    if disc < 1e-4 + 64. * U * scale * scale {
        return false;
    }
    let q = (b * b - a * cc).sqrt();
    let e = 64. * U * (o.maxabs() + c.maxabs() + r) / (d.len() * disc.sqrt());
    let (t0, t1) = ((-b - q) / a, (-b + q) / a);
    let tm = ra.t_max as f64;
    for t in &[t0, t1] {
        let e = e + 1e-6 * t.abs();
        if t.abs() < e || (t - tm).abs() < e {
            return false;
        }
    }
    true
}

/// A ray for testing a single shape of size s at c.
fn one_shape_ray(src: &mut Src, sh: &Sh, c: V, s: f64) -> Ray {
    let k = src.weighted(&[5, 2, 2, 1]);
    let target = match k {
        0 => sh.surf(src),
        1 => sh.surf(src) + unit_dir(src) * (s * src.logrange(1e-3, 0.5)),
        2 => c + unit_dir(src) * (s * src.range(0., 2.)),
        _ => match sh {
            Sh::T(t) => {
                let j = src.below(3) as usize;
                let u = src.unit();
                t.d()[j] * (1. - u) + t.d()[(j + 1) % 3] * u
            }
            _ => c,
        },
    };
    let (o, d) = match src.weighted(&[4, 3, 2]) {
        0 => {
            let o = c + unit_dir(src) * (s * src.pick(&[3., 1.5, 20., 0.3, 1.]));
            (o, target - o)
        }
        1 => {
            let d = dir(src);
            (target - d * (s * src.range(0.1, 5.)), d)
        }
        _ => {
            // unaligned
            (c + point(src, 2. * s), dir(src))
        }
    };
    let d = if d.len() < 1e-9 * s { V(0., 0., 1.) } else { d };
    let l = match src.weighted(&[3, 1, 1, 1]) {
        0 => 1. / d.len(),
        1 => 1.,
        2 => src.logrange(1e-3, 1e3) / d.len(),
        _ => -1. * src.logrange(1., 3.) / d.len(),
    };
    let d = d * l;
    let tmax = match src.weighted(&[5, 3]) {
        0 => f32::INFINITY,
        _ => (((target - o).len() / d.len()) * src.pick(&[0.5, 0.99, 1.01, 2., 0.999, 1.5])) as f32,
    };
    ray(o.p(), d.v(), tmax)
}

// ------------------------------------------------------------------ C03

fn c03_tri(src: &mut Src, ctx: &mut Ctx) -> R {
    let s = src.logrange(1e-3, 1e3);
    let off = src.pick(&[0., 1., 1., 10., 100.]);
    let c = point(src, s * off);
    let t = tri_at(src, c, s);
    let sh = Sh::T(t.clone());
    let tri = t.build(nomat());
    let td = t.d();
    for _ in 0..60 {
        let r = one_shape_ray(src, &sh, c, s);
        let (o, d) = (r.origin.d(), r.direction.d());
        ctx.desc(|| format!("{:?} {}", t.v, ray_str(&r)));
        let got = tri.intersect(&r);
        let gotp = tri.intersect_p(&r);
        ctx.cmp();
        match tri_oracle(&td, o, d, r.t_max as f64, 12.) {
            Hit::Ambiguous => ctx.label("ambiguous"),
            Hit::Miss => {
                ctx.label("miss");
                if let Some((i, tt)) = got {
                    fail!("triangle {:?} reported hit at t={:e} p={:?} but the segment misses it; {}", t.v, tt, i.p, ray_str(&r));
                }
                ensure!(!gotp, "triangle {:?} reported as blocking but the segment misses it; {}", t.v, ray_str(&r));
            }
            Hit::At(tt, terr, b) => {
                ctx.label("hit");
                ctx.nontrivial();
                ctx.label(&format!("dominant-{}{}", {
                    let a = [d.0.abs(), d.1.abs(), d.2.abs()];
                    if a[0] >= a[1] && a[0] >= a[2] { 'x' } else if a[1] >= a[2] { 'y' } else { 'z' }
                }, if d.dot(t.gn()) > 0. { "-back" } else { "-front" }));
                ensure!(gotp, "occlusion query misses triangle {:?} crossed at t={:e}; {}", t.v, tt, ray_str(&r));
                let (i, g) = match got {
                    Some(x) => x,
                    None => fail!("triangle {:?} crossed at t={:e} (barycentrics {:?}) but no hit reported; {}", t.v, tt, b, ray_str(&r)),
                };
                let g = g as f64;
                ensure!((g - tt).abs() <= terr + 1e-6 * tt, "triangle {:?}: t={:e} reported, true {:e} (tolerance {:e}); {}", t.v, g, tt, terr, ray_str(&r));
                let p = i.p.d();
                let truep = td[0] * b[0] + td[1] * b[1] + td[2] * b[2];
                // in-plane position error: barycentric rounding
                let perr = terr * d.len() * 4. + 64. * U * (p.maxabs() + o.maxabs() + t.edge());
                ensure!((p - truep).len() <= perr + bary_err(&td, o, d) * t.edge(), "triangle {:?}: hit point {:?} reported, true {:?}; {}", t.v, i.p, truep, ray_str(&r));
                let nn = t.gn().norm();
                let mag = td.iter().map(|x| x.maxabs()).fold(0., f64::max);
                let off_plane = (p - td[0]).dot(nn).abs();
                ensure!(off_plane <= 16. * U * mag, "triangle {:?}: hit point {:?} is {:e} off the triangle's plane; {}", t.v, i.p, off_plane, ray_str(&r));
                let wo = i.wo.d();
                ensure!((wo + d).len() <= 1e-6 * d.len(), "outgoing direction {:?} is not the reversed ray direction {:?}", i.wo, r.direction);
                if !r.t_max.is_infinite() {
                    ctx.label("hit-limited");
                }
            }
        }
    }
    Ok(())
}

/// absolute uncertainty of barycentric coordinates computed in f32
fn bary_err(v: &[V; 3], o: V, d: V) -> f64 {
    let dn = d.norm();
    let r = [v[0] - o, v[1] - o, v[2] - o];
    let big = r.iter().map(|x| x.maxabs()).fold(0., f64::max);
    let rp = r.iter().map(|x| (*x - dn * x.dot(dn)).len()).fold(0., f64::max);
    let det = dn.dot((v[1] - v[0]).cross(v[2] - v[0])).abs();
    96. * U * big * (rp + U * big) / det
}

fn c03_measures(src: &mut Src, ctx: &mut Ctx) -> R {
    let s = src.logrange(1e-3, 1e3);
    let c = { let k = s * src.pick(&[0., 1., 10.]); point(src, k) };
    let t = tri_at(src, c, s);
    let tri = t.build(nomat());
    let d = t.d();
    let mag = d.iter().map(|x| x.maxabs()).fold(0., f64::max);
    ctx.cmp();
    ctx.nontrivial();
    ctx.desc(|| format!("{:?}", t.v));
    let a = tri.area() as f64;
    ensure!((a - t.area()).abs() <= 8. * U * (t.edge() * t.edge()) + 4. * U * t.area(), "area of {:?} is {:e}, reported {:e}", t.v, t.area(), a);
    let b = tri.bbox();
    for k in 0..3 {
        let lo = d.iter().map(|x| x.get(k)).fold(f64::INFINITY, f64::min);
        let hi = d.iter().map(|x| x.get(k)).fold(-f64::INFINITY, f64::max);
        ensure!((b.min[k] as f64 - lo).abs() <= 2. * U * mag && (b.max[k] as f64 - hi).abs() <= 2. * U * mag, "bounding box {:?}..{:?} of triangle {:?}", b.min, b.max, t.v);
    }
    Ok(())
}

// ------------------------------------------------------------------ C04

fn c04_sphere(src: &mut Src, ctx: &mut Ctx) -> R {
    let s = src.logrange(1e-3, 1e3);
    let off = src.pick(&[0., 1., 10., 100.]);
    let c = point(src, s * off).p();
    let rad = s as f32;
    let sp = Sphere::new(c, rad, nomat());
    let (cd, rd) = (c.d(), rad as f64);
    for _ in 0..60 {
        let r = sphere_ray(src, cd, rd);
        let (o, d) = (r.origin.d(), r.direction.d());
        ctx.desc(|| format!("centre {:?} radius {:e} {}", c, rad, ray_str(&r)));
        let got = sp.intersect(&r);
        let gotp = sp.intersect_p(&r);
        ctx.cmp();
        if !sphere_clear(cd, rd, &r) {
            ctx.label("ambiguous");
            if let Some((i, _)) = &got {
                on_sphere(i, cd, rd, &r)?;
            }
            continue;
        }
        let want = match sphere_oracle(cd, rd, o, d) {
            None => None,
            Some((t0, t1, c2)) => {
                let tm = r.t_max as f64;
                if t0 > 0. && t0 < tm {
                    Some((t0, c2, "outside"))
                } else if t0 <= 0. && t1 > 0. && t1 < tm {
                    Some((t1, c2, "inside"))
                } else if t0 > 0. && t1 < tm {
                    Some((t1, c2, "?"))
                } else {
                    None
                }
            }
        };
        match (want, got) {
            (None, None) => {
                ctx.label("miss");
                ensure!(!gotp, "sphere c={:?} r={:e}: occlusion reported for a missing ray; {}", c, rad, ray_str(&r));
            }
            (None, Some((i, t))) => fail!("sphere c={:?} r={:e}: hit reported at t={:e} p={:?} but the segment misses; {}", c, rad, t, i.p, ray_str(&r)),
            (Some((t, _, w)), None) => fail!("sphere c={:?} r={:e}: no hit reported, but the segment meets it at t={:e} from {}; {}", c, rad, t, w, ray_str(&r)),
            (Some((t, c2, w)), Some((i, g))) => {
                ctx.label(w);
                ctx.nontrivial();
                ensure!(gotp, "sphere c={:?} r={:e}: occlusion query misses a hit at t={:e}; {}", c, rad, t, ray_str(&r));
                let g = g as f64;
                let terr = 16. * U * (o.maxabs() + cd.maxabs() + rd) / (d.len() * c2.sqrt()) + 4. * U * t;
                ensure!((g - t).abs() <= terr, "sphere c={:?} r={:e}: t={:e} reported, true {:e} (tolerance {:e}); {}", c, rad, g, t, terr, ray_str(&r));
                on_sphere(&i, cd, rd, &r)?;
                let pos = o + d * t;
                let perr = terr * d.len() * 2. + 16. * U * (o.maxabs() + cd.maxabs() + rd + t * d.len());
                ensure!((i.p.d() - pos).len() <= perr, "sphere c={:?} r={:e}: hit point {:?}, ray position {:?}; {}", c, rad, i.p, pos, ray_str(&r));
                ensure!((i.wo.d() + d).len() <= 1e-6 * d.len(), "outgoing direction {:?} is not the reversed ray direction {:?}", i.wo, r.direction);
                if r.t_max.is_finite() {
                    ctx.label("limited");
                }
            }
        }
    }
    Ok(())
}

fn on_sphere(i: &Interaction, c: V, r: f64, ra: &Ray) -> R {
    let dist = (i.p.d() - c).len();
    ensure!((dist - r).abs() <= 16. * U * (r + c.maxabs()), "hit point {:?} is at distance {:e} from the centre of a sphere of radius {:e}; {}", i.p, dist, r, ray_str(ra));
    Ok(())
}

fn sphere_ray(src: &mut Src, c: V, r: f64) -> Ray {
    let o = match src.weighted(&[4, 3, 1, 1]) {
        0 => c + unit_dir(src) * (r * src.range(1.05, 10.)),
        1 => c + unit_dir(src) * (r * src.range(0., 0.95)),
        2 => c + unit_dir(src) * r,
        _ => c + point(src, 3. * r),
    };
    let target = match src.weighted(&[5, 2]) {
        0 => c + unit_dir(src) * (r * src.range(0., 1.)),
        _ => c + unit_dir(src) * (r * src.range(0.9, 3.)),
    };
    let d = match src.weighted(&[5, 2, 2]) {
        0 => target - o,
        1 => dir(src),
        _ => o - target,
    };
    let d = if d.len() < 1e-6 * r { V(0., 0., 1.) } else { d };
    let l = match src.weighted(&[3, 2, 2]) {
        0 => 1. / d.len(),
        1 => 1.,
        _ => src.logrange(1e-3, 1e3) / d.len(),
    };
    let d = d * l;
    let tmax = match src.weighted(&[4, 3]) {
        0 => f32::INFINITY,
        _ => {
            let near = ((o - c).len() - r).abs().max(0.01 * r);
            let far = (o - c).len() + r;
            ((src.pick(&[near, far, 0.5 * (near + far)]) * src.range(0.5, 1.5)) / d.len()) as f32
        }
    };
    ray(o.p(), d.v(), tmax)
}

/// Rays that start on the surface (exactly, or up to rounding): the root at the
/// origin may or may not be reported, but the far side of the sphere may not be
/// lost, and a ray that leaves may not hit anything further on.
fn c04_surface(src: &mut Src, ctx: &mut Ctx) -> R {
    for _ in 0..20 {
        let k = src.weighted(&[4, 3, 3]);
        let (c, rad, o): (V, f64, V) = match k {
            0 => {
                // exactly representable: centre on a dyadic grid, radius a power of two times a small integer
                let q = 2f64.powi(src.int(-8, 8) as i32);
                let c = V(src.int(-20, 20) as f64, src.int(-20, 20) as f64, src.int(-20, 20) as f64) * q;
                let (r, v) = src.pick(&[(5., V(3., 4., 0.)), (3., V(1., 2., 2.)), (7., V(2., 3., 6.)), (9., V(1., 4., 8.)), (1., V(1., 0., 0.)), (2., V(0., 2., 0.)), (13., V(5., 0., 12.)), (6., V(0., 0., 6.))]);
                let mut w = [v.0, v.1, v.2];
                w.rotate_left(src.below(3) as usize);
                for x in w.iter_mut() {
                    if src.pct(50) {
                        *x = -*x;
                    }
                }
                (c, r * q, c + V(w[0], w[1], w[2]) * q)
            }
            1 => {
                // centre at the origin, any f32 radius, origin on an axis
                let r = src.logrange(1e-3, 1e3) as f32 as f64;
                let s = if src.pct(50) { r } else { -r };
                let mut w = [s, 0., 0.];
                w.rotate_left(src.below(3) as usize);
                (V(0., 0., 0.), r, V(w[0], w[1], w[2]))
            }
            _ => {
                let r = src.logrange(1e-3, 1e3) as f32 as f64;
                let c = { let k = r * src.pick(&[0., 1., 10.]); point(src, k) }.p().d();
                let o = (c + unit_dir(src) * r).p().d();
                (c, r, o)
            }
        };
        let n = (o - c).norm();
        let d = {
            let d = if src.pct(30) { let mut w = [1., 0., 0.]; w.rotate_left(src.below(3) as usize); V(w[0], w[1], w[2]) * (if src.pct(50) { 1. } else { -1. }) } else { unit_dir(src) };
            if src.pct(20) { n * (if src.pct(70) { -1. } else { 1. }) } else { d }
        };
        let cos = d.dot(n);
        if cos.abs() < 0.05 {
            ctx.label("grazing");
            continue;
        }
        let l = src.pick(&[1., 1., 0.5, 3., 1e-2, 1e2]);
        let far = -2. * rad * cos / l; // approximately
        let tmax = match src.weighted(&[3, 2]) {
            0 => f32::INFINITY,
            _ => (far.abs() * src.pick(&[0.5, 0.9, 1.1, 2.])) as f32,
        };
        let r = ray(o.p(), (d * l).v(), tmax);
        let sp = Sphere::new(c.p(), rad as f32, nomat());
        let (got, gotp) = (sp.intersect(&r), sp.intersect_p(&r));
        ctx.cmp();
        ctx.nontrivial();
        ctx.label(["exact", "exact-axis", "rounded"][k]);
        ctx.desc(|| format!("centre {:?} radius {:e}, ray starting on the surface {}", c, rad, ray_str(&r)));
        let scale = c.maxabs() + rad;
        let tol = (64. * U * scale / cos.abs()) / l + 64. * U * far.abs();
        let near = |t: f64| t.abs() <= tol;
        ensure!(got.is_some() == gotp, "sphere c={:?} r={:e}: intersect says {}, intersect_p says {}, for a ray starting on the surface; {}", c, rad, got.is_some(), gotp, ray_str(&r));
        if cos > 0. {
            ctx.label("leaving");
            if let Some((i, t)) = got {
                ensure!(near(t as f64), "sphere c={:?} r={:e}: a ray leaving its surface hits it again at t={:e} p={:?}; {}", c, rad, t, i.p, ray_str(&r));
            }
        } else {
            ctx.label("entering");
            let inside = (r.t_max as f64) > far + tol;
            match got {
                None => ensure!(!inside, "sphere c={:?} r={:e}: a ray entering from its surface finds nothing, the far side is at t={:e}; {}", c, rad, far, ray_str(&r)),
                Some((i, t)) => {
                    on_sphere(&i, c, rad, &r)?;
                    let t = t as f64;
                    ensure!(near(t) || (t - far).abs() <= tol && inside, "sphere c={:?} r={:e}: a ray entering from its surface reports t={:e}, the far side is at t={:e}; {}", c, rad, t, far, ray_str(&r));
                }
            }
        }
    }
    Ok(())
}

fn c04_measures(src: &mut Src, ctx: &mut Ctx) -> R {
    let s = src.logrange(1e-3, 1e3);
    let c = { let k = s * src.pick(&[0., 1., 10., 100.]); point(src, k) }.p();
    let rad = s as f32;
    let sp = Sphere::new(c, rad, nomat());
    let a = sp.area() as f64;
    let want = 4. * PI * (rad as f64) * (rad as f64);
    ctx.cmp();
    ctx.nontrivial();
    ctx.desc(|| format!("centre {:?} radius {:e}", c, rad));
    ensure!((a - want).abs() <= 8. * U * want, "area of sphere of radius {:e} is {:e}, reported {:e}", rad, want, a);
    let b = sp.bbox();
    for k in 0..3 {
        let tol = 2. * U * (c.d().maxabs() + rad as f64);
        ensure!(
            (b.min[k] as f64 - (c[k] as f64 - rad as f64)).abs() <= tol && (b.max[k] as f64 - (c[k] as f64 + rad as f64)).abs() <= tol,
            "bounding box {:?}..{:?} of sphere c={:?} r={:e}", b.min, b.max, c, rad
        );
    }
    Ok(())
}

// ------------------------------------------------------------------ C05

fn mesh_world(src: &mut Src) -> (Mesh, f64, V) {
    let s = src.pick(&[1., 100., 0.01]);
    let c = { let k = s * src.pick(&[0., 1., 10.]); point(src, k) };
    let m = closed_mesh(src, c, s, false);
    // an inside point: on the way from the centre to the surface
    let tris = m.tris();
    let k = src.below(tris.len() as u64) as usize;
    let (mut a, mut b) = (src.unit(), src.unit());
    if a + b > 1. {
        a = 1. - a;
        b = 1. - b;
    }
    let q = tris[k].bary(a, b);
    let f = src.pick(&[0., 0.3, 0.6, 0.8]);
    let o = m.center + (q - m.center) * f;
    (m, s, o)
}

fn c05_dir(src: &mut Src, m: &Mesh, o: V, ctx: &mut Ctx) -> V {
    let k = src.weighted(&[3, 3, 2, 2]);
    match k {
        0 => {
            ctx.label("aim-vertex");
            let j = src.below(m.v.len() as u64) as usize;
            m.v[j].p().d() - o.p().d()
        }
        1 => {
            ctx.label("aim-edge");
            let f = m.f[src.below(m.f.len() as u64) as usize];
            let e = src.below(3) as usize;
            let u = src.pick(&[0.5, 0.25, 0.1, 0.7]) + src.range(0., 0.2);
            let (a, b) = (m.v[f[e]].p().d(), m.v[f[(e + 1) % 3]].p().d());
            a * (1. - u) + b * u - o.p().d()
        }
        2 => {
            ctx.label("aim-any");
            dir(src)
        }
        _ => {
            ctx.label("aim-axis");
            let k = src.below(6);
            let s = if k & 1 == 0 { 1. } else { -1. };
            match k / 2 {
                0 => V(s, 0., 0.),
                1 => V(0., s, 0.),
                _ => V(0., 0., s),
            }
        }
    }
}

fn c05_mesh(src: &mut Src, ctx: &mut Ctx) -> R {
    let (m, s, o) = mesh_world(src);
    let tris = m.tris();
    ctx.label(m.kind);
    let arcs: Vec<Arc<dyn Shape>> = tris.iter().map(|t| Arc::new(t.build(nomat())) as Arc<dyn Shape>).collect();
    let kd = KdTree::new(arcs.clone().into_boxed_slice(), None);
    ctx.nontrivial();
    for _ in 0..40 {
        let d = c05_dir(src, &m, o, ctx);
        if d.len() < 0.01 * s {
            ctx.label("too-close");
            continue;
        }
        let d = if src.bool() { d } else { d.norm() };
        let r = ray(o.p(), d.v(), f32::INFINITY);
        ctx.desc(|| format!("{} {} faces {}", m.kind, m.f.len(), ray_str(&r)));
        ctx.cmp();
        let a = arcs.iter().any(|x| x.intersect(&r).is_some());
        let b = arcs.iter().any(|x| x.intersect_p(&r));
        ensure!(a && b, "ray from inside a closed mesh ({} {} faces) leaves without a hit (nearest {}, any {}); {}", m.kind, m.f.len(), a, b, ray_str(&r));
        let (ka, kb) = (kd.intersect(&r).is_some(), kd.intersect_p(&r));
        ensure!(ka && kb, "ray from inside a closed mesh ({} {} faces) leaves the k-d tree without a hit (nearest {}, any {}); {}", m.kind, m.f.len(), ka, kb, ray_str(&r));
        // from outside through the inside point
        let far = o + unit_dir(src) * (s * src.range(3., 10.));
        let r = ray(far.p(), (o - far).v(), f32::INFINITY);
        ctx.cmp();
        let a = arcs.iter().any(|x| x.intersect(&r).is_some());
        ensure!(a && kd.intersect(&r).is_some() && kd.intersect_p(&r), "ray through a closed mesh ({} {} faces) is not hit; {}", m.kind, m.f.len(), ray_str(&r));
    }
    Ok(())
}

/// Rays from inside that run almost in the plane of one of the faces.
fn c05_edge_on(src: &mut Src, ctx: &mut Ctx) -> R {
    let (mut m, s, _) = mesh_world(src);
    if m.kind == "box" {
        discard!();
    }
    // rough: planes of faces cut through the inside
    for k in 0..m.v.len() {
        let f = src.range(0.6, 1.);
        m.v[k] = m.center + (m.v[k] - m.center) * f;
    }
    let tris = m.tris();
    let arcs: Vec<Arc<dyn Shape>> = tris.iter().map(|t| Arc::new(t.build(nomat())) as Arc<dyn Shape>).collect();
    let kd = KdTree::new(arcs.clone().into_boxed_slice(), None);
    let fl: Vec<[V; 3]> = tris.iter().map(|t| t.d()).collect();
    // how far the surface is from the centre: the mesh is a star around it
    let surface = |d: V| -> f64 {
        let mut best = 0.;
        for v in &fl {
            let (e1, e2) = (v[1] - v[0], v[2] - v[0]);
            let q = d.cross(e2);
            let det = e1.dot(q);
            let c = m.center - v[0];
            let a = c.dot(q) / det;
            let r = c.cross(e1);
            let b = d.dot(r) / det;
            let t = e2.dot(r) / det;
            if a >= -1e-9 && b >= -1e-9 && a + b <= 1. + 1e-9 && t > best {
                best = t;
            }
        }
        best
    };
    let mut any = false;
    for _ in 0..30 {
        let v = fl[src.below(fl.len() as u64) as usize];
        let (e1, e2) = (v[1] - v[0], v[2] - v[0]);
        let ph = src.range(0., 6.28);
        let w = (e1.norm() * ph.cos() + e2.norm() * ph.sin()).norm();
        let (a, b) = { let (a, b) = (src.unit(), src.unit()); if a + b > 1. { (1. - a, 1. - b) } else { (a, b) } };
        let p = v[0] + e1 * a + e2 * b;
        let n = e1.cross(e2).norm();
        let lift = n * (s * src.pick(&[0., 0., 0., 1e-7, 3e-7, 1e-6]) * src.range(-1., 1.));
        let o = (p - w * (s * src.logrange(0.02, 2.)) + lift).p();
        let od = o.d() - m.center;
        let far = surface(od.norm());
        if !(od.len() < 0.97 * far) {
            continue;
        }
        let d = p - o.d();
        if d.len() < 0.01 * s {
            continue;
        }
        let d = if src.bool() { d } else { d.norm() };
        let r = ray(o, d.v(), f32::INFINITY);
        any = true;
        let tilt = d.norm().dot(n).abs();
        ctx.label(if tilt < 1e-7 { "in the plane" } else if tilt < 1e-6 { "almost" } else { "nearly" });
        ctx.desc(|| format!("{} {} faces {} in the plane of {:?}", m.kind, m.f.len(), ray_str(&r), v));
        ctx.cmp();
        let x = arcs.iter().any(|x| x.intersect(&r).is_some());
        let y = arcs.iter().any(|x| x.intersect_p(&r));
        ensure!(x && y, "ray from inside a closed mesh ({} {} faces), almost in the plane of face {:?}, leaves without a hit (nearest {}, any {}); {}", m.kind, m.f.len(), v, x, y, ray_str(&r));
        let (kx, ky) = (kd.intersect(&r).is_some(), kd.intersect_p(&r));
        ensure!(kx && ky, "ray from inside a closed mesh ({} {} faces), almost in the plane of face {:?}, leaves the k-d tree without a hit (nearest {}, any {}); {}", m.kind, m.f.len(), v, kx, ky, ray_str(&r));
    }
    if !any {
        discard!();
    }
    ctx.nontrivial();
    Ok(())
}

// ------------------------------------------------------------------ C06

/// Hits a shape with a random ray; returns the interaction.
fn some_hit(src: &mut Src, sh: &Sh, a: &Arc<dyn Shape>, c: V, s: f64) -> Option<Interaction> {
    for _ in 0..4 {
        let target = sh.surf(src);
        let o = c + (unit_dir(src) * (s * src.pick(&[3., 30., 0.7])));
        let d = target - o;
        if d.len() < 1e-3 * s {
            continue;
        }
        let r = ray(o.p(), if src.bool() { d.norm().v() } else { d.v() }, f32::INFINITY);
        if let Some((i, _)) = a.intersect(&r) {
            return Some(i);
        }
    }
    None
}

fn c06_spawn(src: &mut Src, ctx: &mut Ctx) -> R {
    let s = src.logrange(1e-3, 1e3);
    let off = src.pick(&[0., 1., 10., 100.]);
    let c = point(src, s * off);
    let sh = if src.below(2) == 0 {
        let mut t = tri_at(src, c, s);
        if src.pct(40) {
            t.vn = Some(vertex_normals(src, &t));
        }
        t.rev = src.bool();
        Sh::T(t)
    } else {
        Sh::S(c.p(), s as f32)
    };
    let a = sh.arc();
    let i = match some_hit(src, &sh, &a, c, s) {
        Some(i) => i,
        None => discard!(),
    };
    let n = match &sh {
        Sh::T(t) => t.gn().norm(),
        Sh::S(c, _) => (i.p.d() - c.d()).norm(),
    };
    let mag = match &sh {
        Sh::T(t) => t.d().iter().map(|x| x.maxabs()).fold(0., f64::max),
        Sh::S(c, r) => c.d().maxabs() + *r as f64,
    };
    for _ in 0..30 {
        let w = match src.weighted(&[3, 1, 1]) {
            0 => unit_dir(src),
            1 => {
                let t = rotate(perp(n), n, src.range(0., 6.3));
                let e = src.logrange(1e-3, 0.3) * if src.bool() { 1. } else { -1. };
                (t + n * e).norm()
            }
            _ => dir(src),
        };
        let cosn = w.dot(n);
        if cosn.abs() < 5e-4 {
            continue;
        }
        let w = w * src.pick(&[1., 1., 3., 0.1]);
        let r = i.spawn_ray(w.v());
        ctx.desc(|| format!("{:?} hit {:?} spawn {}", sh, i.p, ray_str(&r)));
        ctx.cmp();
        ctx.nontrivial();
        ensure!(r.t_max == f32::INFINITY, "spawned ray is limited: {}", ray_str(&r));
        ensure!((r.direction.d() - w.v().d()).len() <= 1e-6 * w.len(), "spawned ray has direction {:?} instead of {:?}", r.direction, w);
        let moved = (r.origin.d() - i.p.d()).len();
        ensure!(moved <= 64. * U * mag, "spawned ray starts {:e} away from the point {:?} it leaves ({:?})", moved, i.p, sh);
        match &sh {
            Sh::T(_) => {
                ctx.label(if cosn > 0. { "tri-front" } else { "tri-back" });
                ensure!(a.intersect(&r).is_none() && !a.intersect_p(&r), "ray spawned from {:?} (error {:?}) on {:?} hits the same triangle again; {}", i.p, i.p_err, sh, ray_str(&r));
            }
            Sh::S(_, rad) => {
                let h = a.intersect(&r);
                if cosn > 0. {
                    ctx.label("sphere-out");
                    ensure!(h.is_none() && !a.intersect_p(&r), "ray leaving {:?} at {:?} to the outside hits it again at {:?}; {}", sh, i.p, h.map(|x| x.1), ray_str(&r));
                } else {
                    ctx.label("sphere-in");
                    let chord = -2. * cosn / w.len() * w.len() * *rad as f64 / w.len();
                    let chord = chord / 1.;
                    let want = -2. * (w.dot(n)) * *rad as f64 / w.dot(w);
                    let _ = chord;
                    let t = match h {
                        Some((_, t)) => t as f64,
                        None => fail!("ray entering {:?} at {:?} does not reach the far side; {}", sh, i.p, ray_str(&r)),
                    };
                    let tol = 200. * U * mag / (cosn.abs() / w.len()) / w.len();
                    ensure!((t - want).abs() <= tol.max(1e-4 * want), "ray entering {:?} at {:?} hits at t={:e}, far side is at {:e}; {}", sh, i.p, t, want, ray_str(&r));
                }
            }
        }
    }
    Ok(())
}

pub fn vertex_normals(src: &mut Src, t: &Tri) -> [pt::verif::Normal3f; 3] {
    let g = t.gn().norm();
    let g = if src.pct(25) { -g } else { g };
    let spread = src.pick(&[0., 0.3, 0.7]);
    let mut f = |src: &mut Src| ((g + unit_dir(src) * spread).norm() * src.pick(&[1., 1., 2.])).n();
    [f(src), f(src), f(src)]
}

/// Mutual visibility through Light::sample_li / VisibilityTester.
fn c06_visibility(src: &mut Src, ctx: &mut Ctx) -> R {
    let s = src.pick(&[1., 100., 0.05]);
    let off = { let k = s * src.pick(&[0., 1., 20.]); point(src, k) };
    // receiver shape
    let recv = if src.below(2) == 0 { Sh::T(tri_at(src, off, s)) } else { Sh::S(off.p(), (0.5 * s) as f32) };
    let ra = recv.arc();
    let i = match some_hit(src, &recv, &ra, off, s) {
        Some(i) => i,
        None => discard!(),
    };
    // light triangle elsewhere
    let lc = off + unit_dir(src) * (s * src.range(1.5, 6.));
    let mut lt = { let k = s * src.pick(&[1., 0.3]); tri_at(src, lc, k) };
    lt.rev = src.bool();
    if src.pct(20) {
        lt.vn = Some(vertex_normals(src, &lt));
    }
    // occluders
    let n = src.usize(0, 6);
    let mut occ = vec![];
    for _ in 0..n {
        let u = src.range(0.1, 0.9);
        let at = i.p.d() * (1. - u) + lt.centroid() * u;
        let at = at + unit_dir(src) * (s * src.pick(&[0.2, 0., 0.6, 1.]));
        let sz = s * src.pick(&[0.3, 0.8, 0.05]);
        occ.push(shape_at(src, at, sz));
    }
    let mut b = Builder::new();
    add_sh(&mut b, &recv);
    for o in &occ {
        add_sh(&mut b, o);
    }
    b.add_area_light(AreaLight::new(Spectrum::from(1.), lt.build(nomat())));
    let scene = b.construct(|x| KdTree::new(x, None));
    let light = scene.lights()[0].clone();
    for _ in 0..12 {
        let u = Point2f::new((src.unit() * 0.9999) as f32, (src.unit() * 0.9999) as f32);
        let (wi, _, pdf, vis) = light.sample_li(&i, u);
        let q = tri_sample_point(&lt, u);
        let p = i.p.d();
        let d = q - p;
        let _ = wi;
        if !(pdf > 0.) {
            ctx.label("no-density");
            continue;
        }
        // orientation: the receiver may face away, then it blocks itself unless flat
        let mut blocked = false;
        let mut amb = false;
        let gl = lt.gn().norm();
        if gl.dot(d.norm()).abs() < 2e-3 {
            amb = true;
        }
        match &recv {
            Sh::T(t) => {
                if t.gn().norm().dot(d.norm()).abs() < 2e-3 {
                    amb = true;
                }
            }
            Sh::S(c, r) => {
                let cosn = (p - c.d()).norm().dot(d.norm());
                // leaves through the sphere?
                if cosn.abs() < 0.02 {
                    amb = true;
                }
                if cosn < 0. {
                    let chord = -2. * cosn * *r as f64;
                    if chord < d.len() * 0.995 {
                        blocked = true;
                    } else if chord < d.len() * 1.005 {
                        amb = true;
                    }
                }
            }
        }
        for o in occ.iter() {
            match crosses(o, p, d) {
                Some(true) => blocked = true,
                Some(false) => {}
                None => amb = true,
            }
        }
        if amb && !blocked {
            ctx.label("ambiguous");
            continue;
        }
        ctx.cmp();
        ctx.nontrivial();
        let got = vis.unoccluded(&scene);
        ctx.label(if blocked { "blocked" } else { "visible" });
        ctx.desc(|| format!("from {:?} to {:?} with {} occluders blocked={}", p, q, occ.len(), blocked));
        ensure!(got == !blocked, "visibility between {:?} on {:?} and {:?} on light {:?}: reported {}, expected {} ({} possible occluders)", p, recv, q, lt.v, got, !blocked, occ.len());
    }
    Ok(())
}

/// Does the open segment p + t d, t in (0,1), robustly cross the shape? None if too close to call.
pub fn crosses(o: &Sh, p: V, d: V) -> Option<bool> {
    match o {
        Sh::T(t) => {
            let v = t.d();
            // the real segment runs between points that were moved off their surfaces
            let disp = 64. * U * v.iter().map(|x| x.maxabs()).fold(p.maxabs().max((p + d).maxabs()), f64::max);
            let r = [v[0] - p, v[1] - p, v[2] - p];
            let w = [d.dot(r[1].cross(r[2])), d.dot(r[2].cross(r[0])), d.dot(r[0].cross(r[1]))];
            let n = (v[1] - v[0]).cross(v[2] - v[0]);
            let det = w[0] + w[1] + w[2];
            let dl = d.len();
            let du = d * (1. / dl);
            let side = |a: V, b: V| disp * dl * ((b - a) - du * (b - a).dot(du)).len();
            let m = [side(v[1], v[2]), side(v[2], v[0]), side(v[0], v[1])];
            let s = det.signum();
            let beside = det.abs() > 2. * (m[0] + m[1] + m[2]) && (0..3).any(|k| w[k] * s < -m[k]);
            let inside = det.abs() > 2. * (m[0] + m[1] + m[2]) && (0..3).all(|k| w[k] * s > m[k]);
            let terr = 1e-3 + 2. * disp * n.len() / det.abs();
            // out of reach of the whole triangle
            let ts: Vec<f64> = r.iter().map(|x| x.dot(du) / dl).collect();
            let apart = ts.iter().all(|x| *x < -(1e-3 + 2. * disp / dl)) || ts.iter().all(|x| *x > 1. + 1e-3 + 2. * disp / dl);
            let off = {
                // distance of the line from the triangle's bounding sphere
                let c = (v[0] + v[1] + v[2]) * (1. / 3.) - p;
                let rad = v.iter().map(|x| (*x - p - c).len()).fold(0., f64::max);
                (c - du * c.dot(du)).len() > rad * 1.001 + 2. * disp
            };
            if apart || off {
                return Some(false);
            }
            match tri_oracle(&v, p, d, 1., 64.) {
                Hit::Miss => {
                    let t = r[0].dot(n) / det;
                    if beside || (inside && (t < -terr || t > 1. + terr)) { Some(false) } else { None }
                }
                Hit::At(t, _, b) => {
                    if inside && t > terr && t < 1. - terr && b.iter().all(|x| *x > 1e-3) { Some(true) } else { None }
                }
                Hit::Ambiguous => None,
            }
        }
        Sh::S(c, r) => match sphere_oracle(c.d(), *r as f64, p, d) {
            None => {
                let oc = p - c.d();
                let dn = d.norm();
                let dist = (oc - dn * oc.dot(dn)).len();
                if dist > *r as f64 * 1.001 + 64. * U * (p.maxabs() + c.d().maxabs()) { Some(false) } else { None }
            }
            Some((t0, t1, c2)) => {
                let disp = 64. * U * (p.maxabs().max((p + d).maxabs()) + c.d().maxabs());
                if c2 < 1e-3 + 4. * disp / *r as f64 {
                    return None;
                }
                let m = 1e-3 + 4. * disp / (d.len() * c2.sqrt());
                let mut res = Some(false);
                for t in &[t0, t1] {
                    if *t > m && *t < 1. - m {
                        res = Some(true);
                    } else if *t > -m && *t < 1. + m {
                        if res == Some(false) {
                            res = None;
                        }
                    }
                }
                res
            }
        },
    }
}

pub fn add_sh(b: &mut Builder, s: &Sh) {
    add_sh_mat(b, s, nomat())
}
pub fn add_sh_mat(b: &mut Builder, s: &Sh, m: Arc<dyn Material>) {
    match s {
        Sh::T(t) => b.add_shape(t.build(m)),
        Sh::S(c, r) => b.add_shape(Sphere::new(*c, *r, m)),
    }
}

/// The point `Triangle::sample` reports for u, from the shape itself.
pub fn tri_sample_point(t: &Tri, u: Point2f) -> V {
    t.build(nomat()).sample(u).p.d()
}

// ------------------------------------------------------------------ C07

fn c07_tri(src: &mut Src, ctx: &mut Ctx) -> R {
    let s = src.logrange(1e-2, 1e2);
    let c = { let k = s * src.pick(&[0., 1., 10.]); point(src, k) };
    let mut t = tri_at(src, c, s);
    let mode = src.weighted(&[3, 4, 1, 1]);
    match mode {
        0 => ctx.label("flat"),
        1 => {
            ctx.label("vertex-normals");
            t.vn = Some(vertex_normals(src, &t));
        }
        2 => {
            ctx.label("wild-normals");
            let f = |src: &mut Src| unit_dir(src).n();
            t.vn = Some([f(src), f(src), f(src)]);
        }
        _ => {
            // normals that cancel exactly somewhere, or are zero
            ctx.label("cancelling-normals");
            let a = dir(src);
            let z = V(0., 0., 0.);
            let k = src.below(3);
            t.vn = Some(match k {
                0 => [z.n(), z.n(), z.n()],
                1 => [a.n(), (-a).n(), z.n()],
                _ => [a.n(), z.n(), z.n()],
            });
        }
    }
    t.rev = src.bool();
    let tri = t.build(nomat());
    let td = t.d();
    let g = t.gn().norm();
    for _ in 0..24 {
        let (mut a, mut b) = match src.weighted(&[4, 1]) {
            0 => (src.unit(), src.unit()),
            _ => (src.pick(&[0., 0.5, 0.25, 1.]), src.pick(&[0., 0.5, 0.25, 0.])),
        };
        if a + b > 1. {
            a = 1. - a;
            b = 1. - b;
        }
        let target = t.bary(a, b);
        let d = dir(src);
        let d = if d.dot(g).abs() < 0.02 { g } else { d };
        // dyadic origin so that the exact parameters can be hit
        let o = target - d * (s * src.pick(&[1., 2., 5.]));
        let r = ray(o.p(), d.v(), f32::INFINITY);
        let i = match tri.intersect(&r) {
            Some((i, _)) => i,
            None => {
                ctx.label("no-hit");
                continue;
            }
        };
        ctx.cmp();
        ctx.desc(|| format!("{:?} {}", t, ray_str(&r)));
        check_frame(&i, &format!("{:?}", t))?;
        let (n, sn) = (i.n.d(), i.sn.d());
        let p = i.p.d();
        // barycentrics of the reported point
        let gn = t.gn();
        let b1 = (p - td[0]).cross(td[2] - td[0]).dot(gn) / gn.dot(gn);
        let b2 = (td[1] - td[0]).cross(p - td[0]).dot(gn) / gn.dot(gn);
        let be = 64. * U * (t.edge() + td[0].maxabs() + p.maxabs()) / (t.quality() * t.edge()) + 1e-6;
        // parametric coordinates: (0,0), (1,0), (1,1) at the vertices
        let (u, v) = (i.uv.x as f64, i.uv.y as f64);
        ensure!((u - (b1 + b2)).abs() <= 4. * be && (v - b2).abs() <= 4. * be, "uv {:?} at {:?} on {:?}, expected ({}, {})", i.uv, i.p, t.v, b1 + b2, b2);
        ensure!(n.cross(g).len() <= 1e-4 + 64. * U * td[0].maxabs() / (t.edge() * t.quality()), "geometric normal {:?} is not perpendicular to triangle {:?}", i.n, t.v);
        let sgn = if t.rev { -1. } else { 1. };
        match t.vn {
            None => {
                ctx.nontrivial();
                ensure!(n.dot(g) * sgn > 0.9, "normal {:?} does not follow the winding of {:?} (reversed={})", i.n, t.v, t.rev);
                ensure!((sn - n).len() < 1e-4, "flat triangle {:?} has shading normal {:?} but normal {:?}", t.v, i.sn, i.n);
                let e = (td[1] - td[0]).norm();
                let du = i.dpdu.d().norm();
                ensure!((du - e).len() < 1e-3 + 64. * U * td[0].maxabs() / (t.edge() * t.quality()), "first tangent {:?} of {:?} does not point along increasing u", i.dpdu, t.v);
            }
            Some(vn) => {
                let m = vn[0].d() * (1. - b1 - b2) + vn[1].d() * b1 + vn[2].d() * b2;
                let scale = vn.iter().map(|x| x.d().maxabs()).fold(0., f64::max);
                if m.len() > 1e-2 * scale + 10. * be * scale && scale > 0. {
                    ctx.nontrivial();
                    let e = (sn - m.norm() * sgn).len();
                    ensure!(e <= 10. * be * scale / m.len() + 1e-5, "shading normal {:?} at barycentrics ({}, {}) of {:?}, expected {:?}", i.sn, b1, b2, t, m.norm() * sgn);
                    let want = (td[1] - td[0]).norm();
                    let proj = want - sn * want.dot(sn);
                    if proj.len() > 0.05 {
                        let c = i.dpdu.d().norm().cross(proj.norm()).len();
                        ensure!(c < 1e-3 + 640. * U * td[0].maxabs() / (t.edge() * t.quality()), "first tangent {:?} of {:?} does not follow u", i.dpdu, t);
                    }
                } else {
                    ctx.label("normal-cancels");
                    ctx.nontrivial();
                }
            }
        }
    }
    Ok(())
}

pub fn check_frame(i: &Interaction, what: &str) -> R {
    let (n, sn, du) = (i.n.d(), i.sn.d(), i.dpdu.d());
    ensure!(n.finite() && (n.len() - 1.).abs() < 1e-5, "normal {:?} at {:?} is not a finite unit vector on {}", i.n, i.p, what);
    ensure!(sn.finite() && (sn.len() - 1.).abs() < 1e-5, "shading normal {:?} at {:?} is not a finite unit vector on {}", i.sn, i.p, what);
    ensure!(n.dot(sn) > -1e-5, "normal {:?} and shading normal {:?} at {:?} point to different sides on {}", i.n, i.sn, i.p, what);
    ensure!(du.finite() && du.len() > 0., "first tangent {:?} at {:?} is not finite and non-zero on {}", i.dpdu, i.p, what);
    ensure!(du.norm().dot(sn).abs() < 2e-3, "first tangent {:?} is not perpendicular to shading normal {:?} at {:?} on {}", i.dpdu, i.sn, i.p, what);
    Ok(())
}

fn c07_sphere(src: &mut Src, ctx: &mut Ctx) -> R {
    let s = src.logrange(1e-2, 1e2);
    let c = { let k = s * src.pick(&[0., 1., 10.]); point(src, k) }.p();
    let rad = (if src.bool() { s } else { src.pick(&[1., 2., 0.5]) }) as f32;
    let sp = Sphere::new(c, rad, nomat());
    let (cd, rd) = (c.d(), rad as f64);
    for _ in 0..24 {
        let k = src.weighted(&[2, 1, 3, 2]);
        let r = match k {
            0 => {
                // exactly along the axis of the poles
                ctx.label("pole");
                let up = if src.bool() { 1. } else { -1. };
                let inside = src.bool();
                let o = V(cd.0, cd.1, cd.2 + if inside { 0. } else { -up * 3. * rd });
                ray(o.p(), V(0., 0., up).v(), f32::INFINITY)
            }
            1 => {
                ctx.label("near-pole");
                let up = if src.bool() { 1. } else { -1. };
                let e = src.logrange(1e-12, 1e-2) * rd;
                let a = src.range(0., 6.3);
                ray(V(cd.0 + e * a.cos(), cd.1 + e * a.sin(), cd.2 + up * 3. * rd).p(), V(0., 0., -up).v(), f32::INFINITY)
            }
            2 => {
                let o = cd + unit_dir(src) * (rd * src.pick(&[3., 0.5, 0.]));
                let t = cd + unit_dir(src) * (rd * 0.9);
                let d = t - o;
                ray(o.p(), if d.len() < 1e-3 * rd { V(1., 0., 0.).v() } else { d.v() }, f32::INFINITY)
            }
            _ => {
                // from the centre in special directions
                ray(c, dir(src).v(), f32::INFINITY)
            }
        };
        let i = match sp.intersect(&r) {
            Some((i, _)) => i,
            None => {
                ctx.label("no-hit");
                continue;
            }
        };
        ctx.cmp();
        ctx.nontrivial();
        ctx.desc(|| format!("sphere {:?} {:e} {}", c, rad, ray_str(&r)));
        check_frame(&i, &format!("sphere c={:?} r={:e} ({})", c, rad, ray_str(&r)))?;
        let l = (i.p.d() - cd).norm();
        let tol = 32. * U * (cd.maxabs() + rd) / rd + 1e-5;
        ensure!((i.n.d() - l).len() <= tol, "normal {:?} of sphere c={:?} r={:e} at {:?} does not point outward", i.n, c, rad, i.p);
        ensure!((i.sn.d() - l).len() <= tol, "shading normal {:?} of sphere c={:?} r={:e} at {:?} is not the outward normal", i.sn, c, rad, i.p);
        let (phi, theta) = (i.uv.x as f64, i.uv.y as f64);
        ensure!(phi >= 0. && phi <= 2. * PI + 1e-5 && theta >= 0. && theta <= PI + 1e-5, "uv {:?} out of range", i.uv);
        let st = (l.0 * l.0 + l.1 * l.1).sqrt();
        let q = V(theta.sin() * phi.cos(), theta.sin() * phi.sin(), theta.cos());
        // near the poles acos amplifies rounding to sqrt(eps)
        let tol2 = tol * 8. + (4. * tol).sqrt().min(4. * tol / st.max(1e-9));
        ensure!((q - l).len() <= tol2, "uv {:?} (azimuth, inclination) does not belong to {:?} on sphere c={:?} r={:e}", i.uv, i.p, c, rad);
        if st > 1e-2 + 10. * tol {
            let east = V(-l.1, l.0, 0.).norm();
            ensure!((i.dpdu.d().norm() - east).len() < 2e-3 + 8. * tol / st, "first tangent {:?} at {:?} on sphere c={:?} does not point along increasing azimuth", i.dpdu, i.p, c);
        } else {
            ctx.label("at-pole");
        }
    }
    Ok(())
}

fn c07_sampled(src: &mut Src, ctx: &mut Ctx) -> R {
    let s = src.logrange(1e-2, 1e2);
    let c = { let k = s * src.pick(&[0., 1., 10.]); point(src, k) };
    let mut t = tri_at(src, c, s);
    match src.weighted(&[2, 3, 1]) {
        0 => {}
        1 => t.vn = Some(vertex_normals(src, &t)),
        _ => {
            let f = |src: &mut Src| unit_dir(src).n();
            t.vn = Some([f(src), f(src), f(src)]);
        }
    }
    t.rev = src.bool();
    let tri = t.build(nomat());
    let td = t.d();
    let gn = t.gn();
    let g = gn.norm();
    for _ in 0..12 {
        let u = Point2f::new(src.unit() as f32 * 0.99999, src.unit() as f32 * 0.99999);
        let smp = tri.sample(u);
        let p = smp.p.d();
        ctx.cmp();
        let b1 = (p - td[0]).cross(td[2] - td[0]).dot(gn) / gn.dot(gn);
        let b2 = (td[1] - td[0]).cross(p - td[0]).dot(gn) / gn.dot(gn);
        let be = 64. * U * (t.edge() + td[0].maxabs()) / (t.quality() * t.edge()) + 1e-6;
        ensure!(b1 > -be && b2 > -be && b1 + b2 < 1. + be, "sampled point {:?} is outside the triangle {:?}", smp.p, t.v);
        let off = (p - td[0]).dot(g).abs();
        ensure!(off <= 32. * U * (td[0].maxabs() + t.edge()), "sampled point {:?} is off the plane of {:?}", smp.p, t.v);
        // the same normal as a ray hitting there, from either side
        let side = if src.bool() { 1. } else { -1. };
        let d = (g * side + unit_dir(src) * 0.3).norm();
        let o = p - d * s;
        let r = ray(o.p(), d.v(), f32::INFINITY);
        if let Some((i, _)) = tri.intersect(&r) {
            if let Some(vn) = t.vn {
                let m = vn[0].d() * (1. - b1 - b2) + vn[1].d() * b1 + vn[2].d() * b2;
                if m.dot(g).abs() < 1e-2 {
                    ctx.label("ambiguous");
                    continue;
                }
            }
            ctx.nontrivial();
            ctx.desc(|| format!("{:?} u={:?}", t, u));
            ensure!((i.n.d() - smp.n.d()).len() < 1e-3, "sampled point {:?} on {:?} has normal {:?}, a ray hitting there reports {:?}", smp.p, t, smp.n, i.n);
            let pe = smp.p_err.d();
            ensure!(pe.0 >= 0. && pe.1 >= 0. && pe.2 >= 0. && pe.finite(), "sampled point has invalid error bound {:?}", smp.p_err);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C31

fn gen_box(src: &mut Src, s: f64) -> (V, V) {
    let a = point(src, s);
    let b = match src.weighted(&[5, 2, 1]) {
        0 => point(src, s),
        1 => {
            // flat in one axis
            let mut b = point(src, s);
            match src.below(3) {
                0 => b.0 = a.0,
                1 => b.1 = a.1,
                _ => b.2 = a.2,
            }
            b
        }
        _ => a + unit_dir(src) * (s * 1e-3),
    };
    let (a, b) = (a.p().d(), b.p().d());
    (V(a.0.min(b.0), a.1.min(b.1), a.2.min(b.2)), V(a.0.max(b.0), a.1.max(b.1), a.2.max(b.2)))
}

fn c31_ray_box(src: &mut Src, ctx: &mut Ctx) -> R {
    let s = src.pick(&[1., 100., 0.01]);
    let (lo, hi) = gen_box(src, s);
    // corners given in any order
    let bb = BBox3f::new(V(hi.0, lo.1, hi.2).p(), V(lo.0, hi.1, lo.2).p());
    ensure!(bb.min == lo.p() && bb.max == hi.p(), "box of two corners {:?} {:?} is {:?}..{:?}", lo, hi, bb.min, bb.max);
    for _ in 0..40 {
        let inside = |src: &mut Src| {
            let f = |src: &mut Src, a: f64, b: f64| match src.weighted(&[1, 1, 3]) {
                0 => a,
                1 => b,
                _ => a + (b - a) * src.unit(),
            };
            V(f(src, lo.0, hi.0), f(src, lo.1, hi.1), f(src, lo.2, hi.2))
        };
        let o = match src.weighted(&[3, 2, 2]) {
            0 => point(src, 3. * s),
            1 => inside(src),
            _ => {
                // on the plane of a face
                let mut q = point(src, 3. * s);
                match src.below(6) {
                    0 => q.0 = lo.0,
                    1 => q.0 = hi.0,
                    2 => q.1 = lo.1,
                    3 => q.1 = hi.1,
                    4 => q.2 = lo.2,
                    _ => q.2 = hi.2,
                }
                q
            }
        };
        let mut d = match src.weighted(&[3, 2]) {
            0 => inside(src) - o,
            _ => dir(src),
        };
        if d.len() < 1e-3 * s {
            d = dir(src);
        }
        let d = d * src.pick(&[1., 1., 3., 0.01]);
        let mut dv = d.v();
        if src.pct(30) {
            for k in 0..3 {
                match src.below(4) {
                    0 => dv[k] = 0.,
                    1 => dv[k] = -0.,
                    _ => {}
                }
            }
            if dv.x == 0. && dv.y == 0. && dv.z == 0. {
                dv.x = 1.;
            }
        }
        let tmax = match src.weighted(&[2, 2]) {
            0 => f32::INFINITY,
            _ => (src.logrange(1e-2, 10.) * s / dv.d().len()) as f32,
        };
        let r = ray(o.p(), dv, tmax);
        let (o, d) = (r.origin.d(), r.direction.d());
        // exact slab interval
        let (mut t0, mut t1) = (0f64, tmax as f64);
        let mut empty = false;
        // margin: relative gap by which the verdict is clear
        let mut touch = 0f64;
        for k in 0..3 {
            if d.get(k) == 0. {
                if o.get(k) < lo.get(k) || o.get(k) > hi.get(k) {
                    empty = true;
                }
            } else {
                let (a, b) = ((lo.get(k) - o.get(k)) / d.get(k), (hi.get(k) - o.get(k)) / d.get(k));
                t0 = t0.max(a.min(b));
                t1 = t1.min(a.max(b));
            }
            touch = touch.max(0.);
        }
        let meets = !empty && t0 <= t1;
        let got = bb.intersect(&r);
        ctx.cmp();
        ctx.desc(|| format!("box {:?}..{:?} {}", bb.min, bb.max, ray_str(&r)));
        if meets {
            ctx.label("meets");
            if (0..3).any(|k| d.get(k) == 0.) {
                ctx.label("meets-zero-component");
            }
            ctx.nontrivial();
            let (g0, g1) = match got {
                Some((a, b)) => (a as f64, b as f64),
                None => fail!("box {:?}..{:?} is met over [{:e},{:e}] but the test reports a miss; {}", bb.min, bb.max, t0, t1, ray_str(&r)),
            };
            ensure!(g0 <= t0 * (1. + 4e-7) + 1e-38 && g1 >= t1 * (1. - 4e-7), "box {:?}..{:?}: interval [{:e},{:e}] does not cover the true one [{:e},{:e}]; {}", bb.min, bb.max, g0, g1, t0, t1, ray_str(&r));
            ensure!(g0 >= t0 * (1. - 1e-5) && (g1 <= t1 * (1. + 1e-5) || t1.is_infinite()) && g1 <= tmax as f64, "box {:?}..{:?}: interval [{:e},{:e}] is wider than the true one [{:e},{:e}]; {}", bb.min, bb.max, g0, g1, t0, t1, ray_str(&r));
        } else {
            // a clear miss must not be reported (needs a margin)
            let clear = if empty {
                (0..3).any(|k| d.get(k) == 0. && (o.get(k) < lo.get(k) - 1e-5 * s || o.get(k) > hi.get(k) + 1e-5 * s))
            } else {
                t0 > t1 + 1e-5 * (t0.abs() + t1.abs())
            };
            if clear {
                ctx.label("misses");
                ensure!(got.is_none(), "box {:?}..{:?} is missed (entry {:e} after exit {:e}) but the test reports {:?}; {}", bb.min, bb.max, t0, t1, got, ray_str(&r));
            } else {
                ctx.label("ambiguous");
            }
        }
    }
    Ok(())
}

fn c31_algebra(src: &mut Src, ctx: &mut Ctx) -> R {
    let s = src.pick(&[1., 100., 0.01]);
    let (l1, h1) = gen_box(src, s);
    let (l2, h2) = gen_box(src, s);
    let (a, b) = (BBox3f::new(l1.p(), h1.p()), BBox3f::new(l2.p(), h2.p()));
    let u = a.union(&b);
    ctx.cmp();
    ctx.nontrivial();
    ctx.desc(|| format!("{:?}..{:?} and {:?}..{:?}", a.min, a.max, b.min, b.max));
    let dmin = |x: &BBox3f| x.min.d();
    let dmax = |x: &BBox3f| x.max.d();
    let vmin = |a: V, b: V| V(a.0.min(b.0), a.1.min(b.1), a.2.min(b.2));
    let vmax = |a: V, b: V| V(a.0.max(b.0), a.1.max(b.1), a.2.max(b.2));
    ensure!(dmin(&u) == vmin(dmin(&a), dmin(&b)) && dmax(&u) == vmax(dmax(&a), dmax(&b)), "union of {:?}..{:?} and {:?}..{:?} is {:?}..{:?}", a.min, a.max, b.min, b.max, u.min, u.max);
    let p = point(src, 1.5 * s).p();
    let up = a.union_point(p);
    ensure!(dmin(&up) == vmin(dmin(&a), p.d()) && dmax(&up) == vmax(dmax(&a), p.d()), "union of {:?}..{:?} with point {:?} is {:?}..{:?}", a.min, a.max, p, up.min, up.max);
    let q = if src.bool() { V(l1.0, h1.1, 0.5 * (l1.2 + h1.2)).p() } else { point(src, 1.5 * s).p() };
    let ins = (0..3).all(|k| a.min[k] <= q[k] && q[k] <= a.max[k]);
    ensure!(a.point_inside(q) == ins, "point {:?} inside {:?}..{:?}: reported {}", q, a.min, a.max, a.point_inside(q));
    let ov = (0..3).all(|k| a.min[k] <= b.max[k] && b.min[k] <= a.max[k]);
    ctx.label(if ov { "overlap" } else { "disjoint" });
    ensure!(a.overlaps(&b) == ov && b.overlaps(&a) == ov, "overlap of {:?}..{:?} and {:?}..{:?}: reported {}", a.min, a.max, b.min, b.max, a.overlaps(&b));
    let d = h1 - l1;
    ensure!((a.diagonal().d() - d).len() <= 4. * U * d.len(), "diagonal of {:?}..{:?} is {:?}", a.min, a.max, a.diagonal());
    let sa = 2. * (d.0 * d.1 + d.0 * d.2 + d.1 * d.2);
    ensure!((a.surface_area() as f64 - sa).abs() <= 1e-5 * sa + 1e-30, "surface area of {:?}..{:?} is {:e}, expected {:e}", a.min, a.max, a.surface_area(), sa);
    let m = a.diagonal()[a.max_extent()] as f64;
    ensure!(m >= d.0.max(d.1).max(d.2) * (1. - 1e-6), "largest extent of {:?}..{:?} reported along an axis of length {:e}", a.min, a.max, m);
    let (c, r) = a.bounding_sphere();
    for k in 0..8 {
        let corner = V(if k & 1 == 0 { l1.0 } else { h1.0 }, if k & 2 == 0 { l1.1 } else { h1.1 }, if k & 4 == 0 { l1.2 } else { h1.2 });
        let dist = (corner - c.d()).len();
        ensure!(dist <= r as f64 * (1. + 1e-5) + 8. * U * (l1.maxabs() + h1.maxabs()), "bounding sphere c={:?} r={:e} of {:?}..{:?} does not contain its corner", c, r, a.min, a.max);
    }
    ensure!(r as f64 <= 0.5 * d.len() * (1. + 1e-5) + 8. * U * (l1.maxabs() + h1.maxabs()), "bounding sphere of {:?}..{:?} is too large: {:e}", a.min, a.max, r);
    Ok(())
}

fn c31_shapes(src: &mut Src, ctx: &mut Ctx) -> R {
    let (shs, ext, _) = shape_set(src, 60);
    let arcs: Vec<Arc<dyn Shape>> = shs.iter().map(|s| s.arc()).collect();
    let all = BBox3f::bbox_of_shapes(&arcs);
    ctx.nontrivial();
    for (s, a) in shs.iter().zip(&arcs) {
        let b = a.bbox();
        for _ in 0..6 {
            let p = s.surf(src);
            let tol = 4. * U * (s.center().maxabs() + s.size());
            ctx.cmp();
            ensure!(
                (0..3).all(|k| b.min[k] as f64 - tol <= p.get(k) && p.get(k) <= b.max[k] as f64 + tol),
                "bounding box {:?}..{:?} of {:?} does not contain its point {:?}", b.min, b.max, s, p
            );
        }
        let u = all.union(&b);
        ensure!(u.min == all.min && u.max == all.max, "box of all shapes {:?}..{:?} does not contain {:?}..{:?}", all.min, all.max, b.min, b.max);
    }
    // tight: every side of the overall box is reached by some shape
    for k in 0..3 {
        ensure!(arcs.iter().any(|a| a.bbox().min[k] == all.min[k]) && arcs.iter().any(|a| a.bbox().max[k] == all.max[k]), "box of all shapes is not tight");
    }
    let _ = ext;
    Ok(())
}

pub static C01: Prop = Prop {
    id: "C01",
    rule: "A case is a generated set of shapes in one of 8 arrangements plus a depth limit and 32-40 rays; non-trivial: more than 8 shapes and at least one ray that crosses several shapes. Hits within rounding of a shape's silhouette are not judged.",
    assumptions: &["each shape's own ray test is the reference (decided by C03, C04)"],
    subs: &[Sub { name: "kdtree", quick: 120_000, thorough: 1_500_000, f: c01_kd }, Sub { name: "flat", quick: 40_000, thorough: 600_000, f: c01_flat }, Sub { name: "limits", quick: 40_000, thorough: 600_000, f: c01_limits }, Sub { name: "large", quick: 48, thorough: 2_000, f: c01_large }],
};
pub static C02: Prop = Prop {
    id: "C02",
    rule: "A case is a scene with 30 rays or a single shape with 40 rays and limits around hits; non-trivial: a blocked ray in a scene of more than 8 shapes, or a single-shape hit.",
    assumptions: &[],
    subs: &[Sub { name: "containers", quick: 120_000, thorough: 2_000_000, f: c02_containers }, Sub { name: "shapes", quick: 800_000, thorough: 15_000_000, f: c02_shapes }],
};
pub static C03: Prop = Prop {
    id: "C03",
    rule: "A case is one triangle (scale 1e-3..1e3, offset up to 100 sizes) and 60 rays; non-trivial: at least one ray that hits by the f64 oracle with margin.",
    assumptions: &["f64 Moeller-Trumbore evaluation is exact to far below f32 rounding"],
    subs: &[Sub { name: "rays", quick: 1_800_000, thorough: 30_000_000, f: c03_tri }, Sub { name: "measures", quick: 600_000, thorough: 5_000_000, f: c03_measures }],
};
pub static C04: Prop = Prop {
    id: "C04",
    rule: "A case is one sphere (scale 1e-3..1e3, centre up to 100 radii away) and 60 rays; non-trivial: at least one ray that hits by the f64 oracle with margin.",
    assumptions: &["f64 quadratic is exact to far below f32 rounding"],
    subs: &[Sub { name: "rays", quick: 1_800_000, thorough: 30_000_000, f: c04_sphere }, Sub { name: "surface", quick: 600_000, thorough: 10_000_000, f: c04_surface }, Sub { name: "measures", quick: 600_000, thorough: 5_000_000, f: c04_measures }],
};
pub static C05: Prop = Prop {
    id: "C05",
    rule: "A case is a closed star-shaped mesh (box, subdivided octahedra up to 512 faces) and 40 rays from inside aimed at vertices, edges, axes or anywhere (mesh; every case is non-trivial), or up to 30 rays from inside almost in the plane of a face (edge_on; non-trivial if there is any).",
    assumptions: &["rays start well away from the surface (1% of the size or more)"],
    subs: &[Sub { name: "mesh", quick: 160_000, thorough: 3_000_000, f: c05_mesh }, Sub { name: "edge_on", quick: 60_000, thorough: 2_000_000, f: c05_edge_on }],
};
pub static C06: Prop = Prop {
    id: "C06",
    rule: "A case is a hit on a shape with 30 spawned directions, or a receiver, light and occluders with 12 light samples; non-trivial: at least one spawned ray or one visibility verdict compared.",
    assumptions: &["spawn directions within 5e-4 of tangent are not judged"],
    subs: &[Sub { name: "spawn", quick: 4_800_000, thorough: 38_400_000, f: c06_spawn }, Sub { name: "visibility", quick: 2_400_000, thorough: 19_200_000, f: c06_visibility }],
};
pub static C07: Prop = Prop {
    id: "C07",
    rule: "A case is one shape with 12-24 hits or samples; non-trivial: at least one frame compared with the analytic one.",
    assumptions: &[],
    subs: &[
        Sub { name: "triangle", quick: 600_000, thorough: 15_000_000, f: c07_tri },
        Sub { name: "sphere", quick: 600_000, thorough: 15_000_000, f: c07_sphere },
        Sub { name: "sampled", quick: 600_000, thorough: 15_000_000, f: c07_sampled },
    ],
};
pub static C31: Prop = Prop {
    id: "C31",
    rule: "A case is a box with 40 rays, a pair of boxes, or a set of shapes; non-trivial: a ray that meets the box, or any algebra case.",
    assumptions: &[],
    subs: &[
        Sub { name: "raybox", quick: 3_600_000, thorough: 30_000_000, f: c31_ray_box },
        Sub { name: "algebra", quick: 3_600_000, thorough: 28_800_000, f: c31_algebra },
        Sub { name: "shapes", quick: 360_000, thorough: 2_880_000, f: c31_shapes },
    ],
};
