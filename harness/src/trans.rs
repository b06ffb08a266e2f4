//! C17, C18, C19: light transport against closed-form references.
use crate::engine::*;
use crate::film::code_ok;
use crate::gen::*;
use crate::geom::crosses;
use crate::light::emit_normal;
use crate::m::*;
use crate::optics::*;
use crate::render::*;
use crate::{discard, fail};
use pt::api::*;

/// scale factors that bring the expected value into a printable range
fn exposure(src: &mut Src, e: S3) -> S3 {
    let mut k = [1.; 3];
    for c in 0..3 {
        if e[c] > 0. {
            k[c] = src.range(0.25, 0.45) / e[c];
        }
    }
    k
}

// ---------------------------------------------------------------- C19

fn emitter(src: &mut Src, c: V, size: f64, face: V) -> Obj {
    // a triangle around c facing roughly `face`
    let n = (face.norm() + unit_dir(src) * src.range(0., 0.7)).norm();
    let (s, t, _) = frame(n, src.range(0., 6.28));
    let mut tri = Tri::new(c + s * size, c + t * size - s * (0.5 * size), c - t * size - s * (0.5 * size));
    if src.pct(20) {
        // dark side
        tri.rev = true;
    }
    if src.bool() {
        // same side emits, other winding
        tri.v.swap(1, 2);
        tri.rev = !tri.rev;
    }
    let l = color(src, 1.);
    let refl = if src.pct(15) { let r = color(src, 0.8); mirror(r) } else { black() };
    Obj { sh: Sh::T(tri), mat: refl, le: Some(l) }
}

pub fn specular_mat(src: &mut Src) -> MatCase {
    match src.weighted(&[4, 2, 4, 2, 1]) {
        0 => gen_mat(src, 4, true, 0.1),
        1 => gen_mat(src, 1, true, 0.1),
        2 => gen_mat(src, 3, true, 0.1),
        3 => { let e = eta_gen(src); clear_glass(e) }
        _ => {
            // the coat of plastic alone
            let s = color(src, 1.);
            MatCase { mat: std::sync::Arc::new(PlasticMaterial::new(cs([0.; 3]), cs(s), cf(0.))), lobes: vec![Lobe::SRefl(s, Fr::Diel(1., 1.5))], name: format!("coat {:?}", s), eta: 1. }
        }
    }
}

/// Places surfaces along a path so that chains do happen.
fn chain_world(src: &mut Src, steps: usize, mirrors_only: bool) -> (World, V, V) {
    let mut w = World::default();
    let o = V(0., 0., 0.);
    let d0 = unit_dir(src);
    let (mut p, mut d) = (o, d0);
    for _ in 0..steps {
        let q = p + d * src.range(2., 5.);
        let mat = if mirrors_only { let r = color(src, 1.); mirror(r) } else { specular_mat(src) };
        let sphere = !mirrors_only && src.pct(35);
        if sphere {
            let r = src.range(0.6, 1.5);
            let c = q + d * (r * 0.6) + perp(d) * (r * src.range(-0.7, 0.7));
            w.objs.push(Obj { sh: Sh::S(c.p(), r as f32), mat, le: None });
        } else {
            let n = (unit_dir(src) + d * src.pick(&[-0.7, 0.7])).norm();
            let n = if n.dot(d).abs() < 0.25 { d } else { n };
            let (s, t, _) = frame(n, src.range(0., 6.28));
            let z = src.range(1., 3.);
            let mut tri = Tri::new(q + s * z, q + t * z - s * (0.6 * z), q - t * z - s * (0.6 * z));
            tri.rev = src.bool();
            w.objs.push(Obj { sh: Sh::T(tri), mat, le: None });
        }
        // follow one of the ways on
        let h = match w.nearest(p, d, None, 1.) {
            Ok(Some(h)) => h,
            _ => break,
        };
        let ways = specular_ways(&w.objs[h.k].mat.lobes, h.n, d);
        if ways.is_empty() {
            break;
        }
        let k = src.usize(0, ways.len() - 1);
        p = h.p;
        d = ways[k].0.norm();
    }
    // the target
    let c = p + d * src.range(3., 8.);
    let z = src.range(1., 4.);
    let e = emitter(src, c, z, -d);
    w.objs.push(e);
    // some more emitters around
    for _ in 0..src.usize(0, 3) {
        let a = unit_dir(src) * src.range(5., 15.);
        let e = emitter(src, a, 3., -a);
        w.objs.push(e);
    }
    (w, o, d0)
}

/// Up to three mirrors: a single sample is exact.
fn c19_exact(src: &mut Src, ctx: &mut Ctx) -> R {
    let steps = src.usize(0, 3);
    let (w, o, d) = chain_world(src, steps, true);
    let (mut budget, mut chain) = (200, 0);
    let (e, cut) = match specular_radiance(&w, o, d, None, 0, 1., 1., &mut budget, &mut chain) {
        Ok(x) => x,
        Err(()) => discard!(),
    };
    if budget < 200 - 4 || cut > 0. {
        discard!();
    }
    let k = exposure(src, e);
    let kd = src.bool();
    let seed = src.seed();
    let img = block_image(&w, k, o, d, Smpl::Seq, seed, 1, kd)?;
    let e = mul3(e, k);
    ctx.label(match chain { _ if e == [0.; 3] => "dark", 0 => "seen directly", 1 => "one mirror", 2 => "two mirrors", _ => "three mirrors" });
    if e != [0.; 3] {
        ctx.nontrivial();
    }
    ctx.desc(|| format!("{} ray {:?}: expected {:?}, got {:?}", w.name(), d, e, img.px[0]));
    for p in &img.px {
        ctx.cmp();
        for c in 0..3 {
            if !code_ok(p[c], e[c], 3e-5 * e[c] + 1e-7) {
                fail!("{} seen along {:?}: channel {} is written as {}, expected {} (level {:.2})", w.name(), d, c, p[c], e[c], crate::film::level(e[c]));
            }
        }
    }
    Ok(())
}

/// Trees of reflections and refractions.
fn c19_tree(src: &mut Src, ctx: &mut Ctx) -> R {
    let steps = src.usize(1, 6);
    let (w, o, d) = chain_world(src, steps, false);
    let (mut budget, mut chain) = (3000, 0);
    let (e, cut) = match specular_radiance(&w, o, d, None, 0, 1., 1., &mut budget, &mut chain) {
        Ok(x) => x,
        Err(()) => discard!(),
    };
    if max3(e) < 1e-3 {
        // all dark: a handful of samples suffices
        if max3(e) > 0. || cut > 0. {
            discard!();
        }
        let img = block_image(&w, [1.; 3], o, d, Smpl::Seq, src.seed(), 4, true)?;
        ctx.label("dark");
        ctx.cmp();
        for p in &img.px {
            if *p != [0; 3] {
                fail!("{} seen along {:?}: no emitter is visible, but the image shows {:?}", w.name(), d, p);
            }
        }
        return Ok(());
    }
    let mut k = exposure(src, e);
    for c in 0..3 {
        if e[c] < 1e-3 {
            // do not blow up tiny channels
            k[c] = 1.;
        }
    }
    let slack = [cut * k[0] + 2e-4, cut * k[1] + 2e-4, cut * k[2] + 2e-4];
    let e = mul3(e, k);
    if (0..3).any(|c| slack[c] > 0.01 + 0.01 * e[c]) {
        discard!();
    }
    let s = sampler_kind(src);
    let kd = src.bool();
    let seed = src.seed();
    ctx.desc(|| format!("{} ray {:?}: expected {:?}, chain {}", w.name(), d, e, chain));
    let r = decide(ctx, |seed, spp| block_image(&w, k, o, d, s, seed, spp, kd), e, slack, seed, 64, 1024)?;
    match r {
        None => discard!(),
        Some(Ok(())) => {
            ctx.nontrivial();
            ctx.label(match chain { 0 => "chain 0", 1 => "chain 1", 2 => "chain 2", 3 | 4 => "chain 3-4", _ => "chain 5+" });
        }
        Some(Err(m)) => fail!("{} seen along {:?} has average radiance {}", w.name(), d, m),
    }
    Ok(())
}

/// Long chains between two facing mirrors, to be cut short at random.
fn c19_long(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.usize(4, 14);
    // corridor of two parallel mirrors; the ray zigzags and leaves at the end into an emitter
    let gap = src.range(1., 2.);
    let slope = src.range(0.5, 1.2);
    let t1 = src.range(0.8, 1.);
    let t2 = src.range(0.8, 1.);
    let tint = |t: f64, src: &mut Src| [t as f32 as f64, (t * src.range(0.9, 1.)) as f32 as f64, (t * src.range(0.9, 1.)) as f32 as f64];
    let (m1, m2) = (mirror(tint(t1, src)), mirror(tint(t2, src)));
    let len = gap * slope * (n as f64 - 0.5);
    let mut w = World::default();
    let quad = |y: f64, m: &MatCase, w: &mut World| {
        let (x0, x1, z) = (-1., len, 3.);
        w.objs.push(Obj { sh: Sh::T(Tri::new(V(x0, y, -z), V(x1, y, -z), V(x1, y, z))), mat: m.clone(), le: None });
        w.objs.push(Obj { sh: Sh::T(Tri::new(V(x0, y, -z), V(x1, y, z), V(x0, y, z))), mat: m.clone(), le: None });
    };
    quad(0., &m1, &mut w);
    quad(gap, &m2, &mut w);
    let mut e = Tri::new(V(len + 1., -20., -20.), V(len + 1., 20., -20.), V(len + 1., 0., 40.));
    e.rev = e.gn().0 > 0.;
    let l = color(src, 1.);
    w.objs.push(Obj { sh: Sh::T(e), mat: black(), le: Some(l) });
    if src.pct(30) {
        // another light the chain does not see
        let c = V(len * 0.5, gap + 5., 0.);
        let x = emitter(src, c, 3., V(0., -1., 0.));
        w.objs.push(x);
    }
    let z0 = src.range(-0.4, 0.4);
    let o = V(-0.5 * slope * gap, gap * 0.5, z0 * 0.5);
    let d = V(slope, -1., src.range(-0.1, 0.1) * z0.signum() / n as f64).norm();
    let (mut budget, mut chain) = (200, 0);
    let (e, cut) = match specular_radiance(&w, o, d, None, 0, 1., 1., &mut budget, &mut chain) {
        Ok(x) => x,
        Err(()) => discard!(),
    };
    if max3(e) < 1e-3 || cut > 0. {
        discard!();
    }
    let mut k = exposure(src, e);
    for c in 0..3 {
        if e[c] < 1e-3 {
            k[c] = 1.;
        }
    }
    let e = mul3(e, k);
    let seed = src.seed();
    let s = sampler_kind(src);
    ctx.desc(|| format!("corridor of {} reflections: expected {:?}", chain, e));
    match decide(ctx, |seed, spp| block_image(&w, k, o, d, s, seed, spp, true), e, [1e-4; 3], seed, 64, 1024)? {
        None => discard!(),
        Some(Ok(())) => {
            ctx.nontrivial();
            ctx.label(if chain <= 5 { "chain -5" } else if chain <= 9 { "chain 6-9" } else { "chain 10+" });
        }
        Some(Err(m)) => fail!("{} seen along {:?} after {} reflections has average radiance {}", w.name(), d, chain, m),
    }
    Ok(())
}

pub static C19: Prop = Prop {
    id: "C19",
    rule: "case: a specular scene in which the exact radiance is decided and not black, with the rendered average (exactly: every pixel) compared",
    assumptions: &[
        "emitters are triangles; paths that pass within 1e-4 of an edge or within one degree of the critical angle are not compared",
        "averages are compared up to half a level of the written image plus 4.5 standard errors, deviations confirmed twice at 7",
    ],
    subs: &[
        Sub { name: "exact", quick: 6_000, thorough: 600_000, f: c19_exact },
        Sub { name: "tree", quick: 1_600, thorough: 80_000, f: c19_tree },
        Sub { name: "long", quick: 300, thorough: 20_000, f: c19_long },
        Sub { name: "lit", quick: 500, thorough: 20_000, f: crate::laws::c19_lit },
    ],
};

// ---------------------------------------------------------------- C17

/// irradiance of a uniformly emitting polygon (radiance one) on a surface element at p with normal n; front side only
fn polygon_irradiance(poly: &[V], p: V, n: V) -> f64 {
    // clip to the horizon
    let q: Vec<V> = poly.iter().map(|v| *v - p).collect();
    let mut c = vec![];
    for i in 0..q.len() {
        let (a, b) = (q[i], q[(i + 1) % q.len()]);
        let (da, db) = (a.dot(n), b.dot(n));
        if da >= 0. {
            c.push(a);
        }
        if (da > 0. && db < 0.) || (da < 0. && db > 0.) {
            let s = da / (da - db);
            c.push(a + (b - a) * s);
        }
    }
    if c.len() < 3 {
        return 0.;
    }
    let mut e = 0.;
    for i in 0..c.len() {
        let (a, b) = (c[i].norm(), c[(i + 1) % c.len()].norm());
        let x = a.cross(b);
        let s = x.len();
        if s < 1e-12 {
            continue;
        }
        e += s.atan2(a.dot(b)) * x.dot(n) / s;
    }
    (0.5 * e).abs()
}

fn c17_direct(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut w = World::default();
    // receiver
    let n0 = unit_dir(src);
    let (s, t, n) = frame(n0, src.range(0., 6.28));
    let kind = src.weighted(&[5, 3, 3, 3, 2]);
    let mat = match kind {
        0 => { let r = color(src, 1.); diffuse(r) }
        1 => gen_mat(src, 1, false, 0.15),
        2 => gen_mat(src, 2, false, 0.15),
        3 => gen_mat(src, 3, false, 0.15),
        _ => gen_mat(src, 2, true, 0.15),
    };
    let mut tri = Tri::new(s * 0.4, t * 0.4 - s * 0.3, -t * 0.4 - s * 0.3);
    tri.rev = src.bool();
    let own = if src.pct(10) { Some(scale3(color(src, 1.), 0.3)) } else { None };
    // interpolated normals that differ from the plane's
    let bent = kind != 4 && src.pct(25);
    if bent {
        let flip = if src.bool() { 1. } else { -1. };
        let m = (n + unit_dir(src) * src.range(0.1, 0.6)) * flip;
        let m = m.norm();
        tri.vn = Some([m.n(), m.n(), m.n()]);
    }
    w.objs.push(Obj { sh: Sh::T(tri.clone()), mat: mat.clone(), le: own });
    let orient = emit_normal(&tri);
    let a = src.unit() * 0.5;
    let at = tri.bary(0.2 + a * 0.4, 0.2 + a * 0.3);
    let mut wo = unit_dir(src);
    if wo.dot(n).abs() < 0.15 {
        wo = n * wo.dot(n).signum();
    }
    // emitters
    let nl = src.weighted(&[0, 5, 3, 2, 1]);
    for _ in 0..nl {
        let c = unit_dir(src) * src.range(1., 4.);
        // most of them on the side the receiver scatters to
        let c = if kind != 3 && src.pct(75) && c.dot(n) * wo.dot(n) < 0. { c - n * (2. * c.dot(n)) } else { c };
        let z = src.range(0.3, 1.5).min(c.len() * 0.6);
        let mut e = emitter(src, c, z, -c);
        e.mat = black();
        if src.pct(30) {
            // small and bright
            e.le = e.le.map(|l| scale3(l, 20.));
        }
        w.objs.push(e);
    }
    // one emitter hiding part of a larger one
    let stack = src.pct(20);
    if stack {
        let side = n * wo.dot(n).signum();
        let u = if src.bool() { n * (2. * wo.dot(n)) - wo } else { (side + unit_dir(src) * 0.8).norm() };
        let z = src.range(0.3, 0.8);
        let c = u * src.range(0.5, 0.9);
        let mut e = emitter(src, c, z, -u);
        let z = src.range(1.5, 4.);
        let c = u * src.range(1.2, 1.8);
        let mut f = emitter(src, c, z, -u);
        e.mat = black();
        f.mat = black();
        if src.bool() {
            e.le = e.le.map(|l| scale3(l, 5.));
        }
        w.objs.push(e);
        w.objs.push(f);
    }
    let nl = if stack { nl + 2 } else { nl };
    let nd = if nl == 1 { src.weighted(&[3, 1, 1]) } else { src.weighted(&[6, 1, 1]) };
    for _ in 0..nd {
        let d = unit_dir(src);
        let d = if src.pct(70) && d.dot(n) * wo.dot(n) < 0. { -d } else { d };
        w.dist.push((color(src, 1.), d));
    }
    // occluders
    for _ in 0..src.weighted(&[3, 2, 1, 1]) {
        let c = unit_dir(src) * src.range(0.7, 2.5);
        let sz = src.range(0.2, 0.8);
        if c.norm().dot(wo) > 0.8 || c.len() < sz * 1.2 {
            continue;
        }
        let sh = shape_at(src, c, sz * 0.6);
        w.objs.push(Obj { sh, mat: black(), le: None });
    }
    // the view must be free
    let o = at + wo * 0.5;
    match w.nearest(o, -wo, None, 1.) {
        Ok(Some(h)) if h.k == 0 => {}
        _ => discard!(),
    }
    if stack {
        ctx.label("emitter behind an emitter");
    }
    let occluded_possible = w.objs.len() > 1 + nl;
    // the surface point and its reported scattering
    let scene = w.kd([1.; 3]);
    let i = match scene.intersect(&ray(o.p(), (-wo).v(), f32::INFINITY)) {
        Some(i) => i,
        None => fail!("a ray at the receiver {:?} does not hit it", tri),
    };
    let bsdf = i.compute_scattering();
    let p = i.p.d();
    let mut e = [0.; 3];
    let mut err = [0.; 3];
    let mut integrals: Vec<usize> = vec![];
    if let Some(l) = own {
        if orient.dot(wo) > 0. {
            e = add3(e, l);
        }
    }
    let lights: Vec<usize> = (0..w.objs.len()).filter(|&k| k > 0 && w.objs[k].le.is_some()).collect();
    let polygon = kind == 0 && !bent && !occluded_possible && lights.len() == 1;
    let visible = |q: V, skip: usize| -> Option<bool> {
        let mut r = Some(true);
        for (k, ob) in w.objs.iter().enumerate() {
            if k == 0 || k == skip {
                continue;
            }
            match crosses(&ob.sh, p, q - p) {
                Some(true) => return Some(false),
                Some(false) => {}
                None => r = None,
            }
        }
        r
    };
    for &k in &lights {
        let ob = &w.objs[k];
        let lt = match &ob.sh {
            Sh::T(t) => t,
            _ => unreachable!(),
        };
        let le = ob.le.unwrap();
        let en = emit_normal(lt);
        let front = (p - lt.v[0].d()).dot(en);
        if front.abs() < 0.02 {
            discard!();
        }
        if front < 0. {
            ctx.label("dark side");
            continue;
        }
        if polygon {
            let side = if orient.dot(wo) > 0. { orient } else { -orient };
            let ir = polygon_irradiance(&lt.d(), p, side);
            let r = match mat.lobes.first() {
                Some(Lobe::Lambert(r)) => *r,
                _ => [0.; 3],
            };
            for c in 0..3 {
                e[c] += r[c] / PI * ir * le[c];
                err[c] += 2e-4 * e[c];
            }
            ctx.label("form factor");
            continue;
        }
        integrals.push(k);
        ctx.label("integral");
    }
    // jittered subdivision into cells, repeated to know its error
    let integrate = |g: usize, reps: usize, seed: u64| -> Option<(S3, S3)> {
        let (mut e, mut err) = ([0.; 3], [0.; 3]);
        let mut rng = Rng::new(seed);
        for &k in &integrals {
            let lt = match &w.objs[k].sh {
                Sh::T(t) => t,
                _ => unreachable!(),
            };
            let le = w.objs[k].le.unwrap();
            let en = emit_normal(lt);
            let area = lt.area() / (g * g) as f64;
            let mut st = [Stat::default(), Stat::default(), Stat::default()];
            let mut doubt = [0.; 3];
            for _ in 0..reps {
                let mut sum = [0.; 3];
                for x in 0..g {
                    for y in 0..g - x {
                        for up in 0..2 {
                            if up == 1 && y == g - x - 1 {
                                continue;
                            }
                            let (mut a, mut b) = (rng.f32() as f64, rng.f32() as f64);
                            if a + b > 1. {
                                a = 1. - a;
                                b = 1. - b;
                            }
                            if up == 1 {
                                a = 1. - a;
                                b = 1. - b;
                            }
                            let q = lt.bary((x as f64 + a) / g as f64, (y as f64 + b) / g as f64);
                            let v = q - p;
                            let d2 = v.dot(v);
                            let wi = v.norm();
                            let vis = if occluded_possible || lights.len() > 1 { visible(q, k) } else { Some(true) };
                            if vis == Some(false) {
                                continue;
                            }
                            let f = s3(bsdf.f(i.wo, wi.v()));
                            let gterm = wi.dot(i.sn.d()).abs() * wi.dot(en).abs() / d2 * area;
                            for c in 0..3 {
                                let z = f[c] * le[c] * gterm;
                                if vis.is_none() {
                                    sum[c] += 0.5 * z;
                                    doubt[c] += 0.5 * z / reps as f64;
                                } else {
                                    sum[c] += z;
                                }
                            }
                        }
                    }
                }
                for c in 0..3 {
                    st[c].add(sum[c]);
                }
            }
            for c in 0..3 {
                e[c] += st[c].mean;
                err[c] += 6. * st[c].se() + doubt[c] + 1e-4 * st[c].mean;
            }
        }
        Some((e, err))
    };
    for (l, d) in &w.dist {
        let d = d.v().d().norm();
        if d.dot(i.n.d()).abs() < 5e-3 {
            discard!();
        }
        match visible(p + d * 100., usize::MAX) {
            Some(true) => {
                let f = s3(bsdf.f(i.wo, d.v()));
                for c in 0..3 {
                    e[c] += f[c] * l[c] * d.dot(i.sn.d()).abs();
                }
                ctx.label("distant");
            }
            Some(false) => ctx.label("distant, blocked"),
            None => discard!(),
        }
    }
    // a smooth coat also shows the emitters themselves
    for (wi, k) in specular_ways(&mat.lobes, orient, -wo) {
        match w.nearest(p, wi.norm(), Some(0), 1.) {
            Err(()) => discard!(),
            Ok(None) => {}
            Ok(Some(h)) => {
                if let Some(le) = w.objs[h.k].le {
                    let c = -wi.dot(h.n);
                    if c.abs() < 2e-3 {
                        discard!();
                    }
                    if c > 0. {
                        e = add3(e, mul3(k, le));
                        ctx.label("seen in the coat");
                    }
                }
            }
        }
    }
    let (base, base_err) = (e, err);
    let total = |g, reps, seed| -> Option<(S3, S3)> {
        let (a, b) = integrate(g, reps, seed)?;
        Some((add3(base, a), add3(base_err, b)))
    };
    let seed = src.seed();
    let coarse = if kind == 0 { 14 } else { 26 };
    let (e, err) = total(coarse, 8, mix(&[seed, 11])).unwrap();
    let m = max3(e);
    let kx = if m < 1e-9 { 1. } else { src.range(0.3, 0.45) / m };
    let k = [kx; 3];
    let e2 = mul3(e, k);
    let slack = [err[0] * kx + 2e-4, err[1] * kx + 2e-4, err[2] * kx + 2e-4];
    if (0..3).any(|c| slack[c] > 0.02 * m * kx + 5e-4) {
        discard!();
    }
    let smp = sampler_kind(src);
    let kd = src.bool();
    if m < 1e-9 {
        let img = block_image(&w, k, o, -wo, smp, seed, 16, kd)?;
        ctx.cmp();
        ctx.label("dark");
        for px in &img.px {
            if *px != [0; 3] {
                if !integrals.is_empty() && max3(total(coarse * 6, 8, mix(&[seed, 14])).unwrap().0) > 0. {
                    discard!();
                }
                fail!("{} viewed from {:?} at {:?}: no light arrives, but the image shows {:?}", w.name(), o, at, px);
            }
        }
        return Ok(());
    }
    ctx.desc(|| format!("{} viewed from {:?}: expected {:?}", w.name(), o, e2));
    let mut verdict = decide(ctx, |seed, spp| block_image(&w, k, o, -wo, smp, seed, spp, kd), e2, slack, seed, 64, 1024)?;
    if let Some(Err(_)) = verdict {
        if !integrals.is_empty() {
            // a closer look at the expectation
            ctx.label("finer integral");
            let (ef, errf) = total(coarse * 5, 16, mix(&[seed, 12])).unwrap();
            let slack = add3(scale3(errf, kx), [2e-4; 3]);
            verdict = decide(ctx, |seed, spp| block_image(&w, k, o, -wo, smp, seed, spp, kd), mul3(ef, k), slack, mix(&[seed, 13]), 256, 1024)?;
        }
    }
    match verdict {
        None => discard!(),
        Some(Ok(())) => {
            ctx.nontrivial();
            ctx.label(["diffuse", "metal", "plastic", "glass", "coated"][kind]);
            if bent {
                ctx.label("interpolated normals");
            }
            ctx.label(match smp { Smpl::Seq => "independent sampler", Smpl::Halton => "halton sampler", Smpl::Random => "random sampler" });
        }
        Some(Err(m)) => fail!("{} viewed from {:?} along {:?} has average radiance {}", w.name(), o, -wo, m),
    }
    Ok(())
}

/// A lamp much larger than its distance: a diffuse receiver close to it.
fn c17_close(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut w = World::default();
    let (s, t, n) = frame(unit_dir(src), src.range(0., 6.28));
    let r = color(src, 1.);
    let mut tri = Tri::new(s * 0.4, t * 0.4 - s * 0.3, -t * 0.4 - s * 0.3);
    tri.rev = src.bool();
    w.objs.push(Obj { sh: Sh::T(tri.clone()), mat: diffuse(r), le: None });
    let at = tri.bary(0.2 + src.unit() * 0.2, 0.2 + src.unit() * 0.2);
    let side = if src.bool() { n } else { -n };
    let mut wo = unit_dir(src);
    if wo.dot(side) < 0. {
        wo = -wo;
    }
    if wo.dot(side) < 0.15 {
        wo = side;
    }
    let h = src.logrange(0.03, 0.6);
    let z = h * src.logrange(2., 1000.);
    let u = (side + unit_dir(src) * src.range(0., 0.3)).norm();
    let (a, b, _) = frame(unit_dir(src), 0.);
    let c = at + u * h + (a * src.range(-0.3, 0.3) + b * src.range(-0.3, 0.3)) * 0.;
    let en = (u + unit_dir(src) * src.range(0., 0.3)).norm();
    let (x, y, _) = frame(en, src.range(0., 6.28));
    let (mx, my) = (src.range(-0.3, 0.3) * z, src.range(-0.3, 0.3) * z);
    let m = c + x * mx + y * my;
    let mut lt = Tri::new(m + x * z, m + y * z - x * (0.5 * z), m - y * z - x * (0.5 * z));
    if (emit_normal(&lt).dot(at - c) < 0.) != src.pct(10) {
        lt.rev = !lt.rev;
    }
    let le = color(src, 1.);
    w.objs.push(Obj { sh: Sh::T(lt.clone()), mat: black(), le: Some(le) });
    let o = at + wo * (0.2 * h);
    match w.nearest(o, -wo, None, 1.) {
        Ok(Some(hh)) if hh.k == 0 => {}
        _ => discard!(),
    }
    let scene = w.kd([1.; 3]);
    let i = match scene.intersect(&ray(o.p(), (-wo).v(), f32::INFINITY)) {
        Some(i) => i,
        None => fail!("a ray at the receiver {:?} does not hit it", tri),
    };
    let p = i.p.d();
    let front = (p - lt.v[0].d()).dot(emit_normal(&lt));
    // the corners of the lamp are rounded to single precision
    if front.abs() < 0.02 || front.abs() < 3e-5 * z {
        discard!();
    }
    let mut e = [0.; 3];
    if front > 0. {
        let ir = polygon_irradiance(&lt.d(), p, side);
        for c in 0..3 {
            e[c] = r[c] / PI * ir * le[c];
        }
    } else {
        ctx.label("dark side");
    }
    let m = max3(e);
    let k = if m < 1e-6 { 1. } else { src.range(0.3, 0.45) / m };
    let e2 = scale3(e, k);
    let slack = [1e-3 * m * k + 3e-4; 3];
    let smp = sampler_kind(src);
    let kd = src.bool();
    let seed = src.seed();
    ctx.desc(|| format!("{} viewed from {:?}: expected {:?}", w.name(), o, e2));
    match decide(ctx, |seed, spp| block_image(&w, [k; 3], o, -wo, smp, seed, spp, kd), e2, slack, seed, 64, 1024)? {
        None => discard!(),
        Some(Ok(())) => {
            if m > 1e-6 {
                ctx.nontrivial();
            }
            ctx.label(if z > 100. * h { "lamp hundred times its distance" } else { "lamp up to hundred times its distance" });
        }
        Some(Err(m)) => fail!("{} viewed from {:?} along {:?} has average radiance {}", w.name(), o, -wo, m),
    }
    Ok(())
}

pub static C17: Prop = Prop {
    id: "C17",
    rule: "case: a receiver, lights and occluders with a non-zero reference radiance that was compared with the rendered average",
    assumptions: &[
        "roughness at least 0.15; except over diffuse surfaces lights are triangles in distances of their own size or more",
        "integrals are averages of 8 jittered subdivisions, 6 standard errors of it are added to the tolerance; deviations are confirmed against a 50 times finer integral",
        "averages are compared up to half a level of the written image plus 4.5 standard errors, deviations confirmed twice at 7",
    ],
    subs: &[Sub { name: "direct", quick: 2_400, thorough: 120_000, f: c17_direct }, Sub { name: "close", quick: 2_500, thorough: 80_000, f: c17_close }],
};

// ---------------------------------------------------------------- C18

fn c18_room(src: &mut Src, ctx: &mut Ctx) -> R {
    let convex = src.pct(60);
    let size = src.pick(&[1., 5., 0.2]);
    let c = { let k = size * src.pick(&[0., 3.]); point(src, k) };
    let mut mesh;
    loop {
        mesh = closed_mesh(src, c, size, convex);
        if mesh.f.len() <= 40 || src.exhausted() {
            break;
        }
        if src.rec.len() > 5000 {
            discard!();
        }
    }
    if mesh.f.len() > 40 {
        discard!();
    }
    let base = src.range(0.05, 0.8);
    let mut r = [0.; 3];
    let mut e = [0.; 3];
    for k in 0..3 {
        r[k] = (base * src.range(0.9, 1.)) as f32 as f64;
        let want = src.range(0.25, 0.45);
        e[k] = (want * (1. - r[k])) as f32 as f64;
    }
    let want = [e[0] / (1. - r[0]), e[1] / (1. - r[1]), e[2] / (1. - r[2])];
    let wall = diffuse(r);
    let mut w = World::default();
    for t in mesh.tris() {
        let mut t = t;
        t.rev = false;
        if emit_normal(&t).dot(c - t.centroid()) < 0. {
            t.rev = true;
        }
        if t.quality() < 0.02 {
            discard!();
        }
        w.objs.push(Obj { sh: Sh::T(t), mat: wall.clone(), le: Some(e) });
    }
    // inner radius: distance of the centre from the walls
    let inr = w.objs.iter().map(|o| match &o.sh { Sh::T(t) => (t.v[0].d() - c).dot(t.gn().norm()).abs(), _ => 1e9 }).fold(1e9, f64::min);
    // star-shaped about its centre?
    let mut obj = "empty";
    if src.pct(60) {
        let rr = inr * src.range(0.2, 0.6);
        let cc = c + unit_dir(src) * (inr * 0.2);
        let (m, name): (MatCase, _) = match src.below(4) {
            0 => (mirror([1.; 3]), "mirror sphere"),
            1 => { let eta = eta_gen(src); (clear_glass(eta), "glass sphere") }
            2 => (mirror([1.; 3]), "mirror plate"),
            _ => { let eta = eta_gen(src); (clear_glass(eta), "glass block") }
        };
        obj = name;
        match obj {
            "mirror plate" => {
                let n = unit_dir(src);
                let (s, t, _) = frame(n, 0.3);
                w.objs.push(Obj { sh: Sh::T(Tri::new(cc + s * rr, cc + t * rr - s * rr * 0.5, cc - t * rr - s * rr * 0.5)), mat: m, le: None });
            }
            "glass block" => {
                let z = rr * 0.5;
                for mut t in box_tris(cc - V(z, z * 0.7, z * 0.9), cc + V(z, z * 0.7, z * 0.9)) {
                    if t.gn().dot(t.centroid() - cc) < 0. {
                        t.v.swap(1, 2);
                    }
                    w.objs.push(Obj { sh: Sh::T(t), mat: m.clone(), le: None });
                }
            }
            _ => w.objs.push(Obj { sh: Sh::S(cc.p(), rr as f32), mat: m, le: None }),
        }
    }
    // viewpoint inside the room, outside of the object
    let o = c + unit_dir(src) * (inr * 0.9);
    let d = if obj != "empty" && src.pct(60) { (c - o + unit_dir(src) * (inr * 0.3)).norm() } else { unit_dir(src) };
    // the walls must be hit cleanly
    if w.nearest(o, d, None, size * 0.1).is_err() {
        discard!();
    }
    let seed = src.seed();
    let smp = sampler_kind(src);
    let kd = src.bool();
    ctx.desc(|| format!("{} room of {} triangles, reflectance {:?}, emission {:?}, {}: expected {:?}", mesh.kind, mesh.f.len(), r, e, obj, want));
    // a few paths in a million may leave through the seams
    let slack = [2e-3 * want[0], 2e-3 * want[1], 2e-3 * want[2]];
    match decide(ctx, |seed, spp| block_image(&w, [1.; 3], o, d, smp, seed, spp, kd), want, slack, seed, 32, 512)? {
        None => discard!(),
        Some(Ok(())) => {
            ctx.nontrivial();
            ctx.label(obj);
            ctx.label(if base < 0.3 { "dark walls" } else if base < 0.6 { "grey walls" } else { "bright walls" });
        }
        Some(Err(m)) => fail!("{} room of {} triangles, reflectance {:?}, emission {:?}, with {}: average radiance {} from {:?} along {:?}", mesh.kind, mesh.f.len(), r, e, obj, m, o, d),
    }
    Ok(())
}

pub static C18: Prop = Prop {
    id: "C18",
    rule: "case: a closed room whose average radiance was compared with emission / (1 - reflectance)",
    assumptions: &[
        "rooms of up to 40 triangles, reflectance up to 0.8, channels within ten percent of one another",
        "averages are compared up to half a level of the written image, 0.2 percent and 4.5 standard errors, deviations confirmed twice at 7",
    ],
    subs: &[Sub { name: "room", quick: 700, thorough: 30_000, f: c18_room }],
};
