//! C29: linearity of light, invariance under motion and change of unit.
use crate::engine::*;
use crate::film::{cell, level, Flt, Image};
use crate::gen::*;
use crate::m::*;
use crate::optics::*;
use crate::pipe::wild_mat;
use crate::render::*;
use crate::{discard, ensure, fail};
use pt::api::*;
use std::sync::Arc;

/// Scenes with some light on most surfaces. `grey`: surfaces treat the channels alike. `calm`: no caustics.
fn lit_world(src: &mut Src, grey: bool, calm: bool) -> World {
    lit_world_of(src, grey, calm, false)
}

/// `iso`: surfaces do not care about the direction of their tangents
fn lit_world_of(src: &mut Src, grey: bool, calm: bool, iso: bool) -> World {
    let mut w = World::default();
    let n = src.usize(1, 6);
    let mat = |src: &mut Src, round: bool| -> MatCase {
        if grey {
            let r = src.range(0.05, 0.9) as f32 as f64;
            return match src.weighted(&[4, 2, 1, 2]) {
                0 => diffuse([r; 3]),
                1 => mirror([r; 3]),
                2 => { let e = eta_gen(src); clear_glass(e) }
                _ => {
                    let a = src.range(0.2, 0.8);
                    MatCase { mat: Arc::new(PlasticMaterial::new(cs([r * 0.5; 3]), cs([r * 0.4; 3]), cf(a))), lobes: vec![], name: format!("grey plastic {} rough {}", r, a), eta: 1. }
                }
            };
        }
        if calm {
            return match src.weighted(&[5, 2, 2]) {
                0 => { let c = color(src, 0.8); diffuse(c) }
                // the tangents of a sphere do not turn with it
                1 if round || iso => isotropic(src),
                1 => gen_mat(src, 1, false, 0.3),
                _ => gen_mat(src, 2, false, 0.3),
            };
        }
        wild_mat(src)
    };
    for _ in 0..n {
        let c = point(src, 2.);
        let size = src.logrange(0.3, 1.5);
        let sh = shape_at(src, c, size);
        if let Sh::T(t) = &sh {
            if t.quality() < 0.02 {
                continue;
            }
        }
        let m = { let round = matches!(sh, Sh::S(..)); mat(src, round) };
        w.objs.push(Obj { sh, mat: m, le: None });
    }
    if src.pct(70) {
        let m = mat(src, false);
        let (k, z) = (6., -2.5);
        w.objs.push(Obj { sh: Sh::T(Tri::new(V(-k, -k, z), V(k, -k, z), V(k, k, z))), mat: m.clone(), le: None });
        w.objs.push(Obj { sh: Sh::T(Tri::new(V(-k, -k, z), V(k, k, z), V(-k, k, z))), mat: m, le: None });
    }
    for _ in 0..src.usize(1, 3) {
        // lamps above or around
        let c = V(src.range(-3., 3.), src.range(-3., 3.), src.range(1.5, 4.));
        let z = src.range(0.4, 1.2);
        let n = (V(0., 0., -1.) + unit_dir(src) * 0.6).norm();
        let (s, t, _) = frame(n, src.range(0., 6.28));
        let mut tri = Tri::new(c + s * z, c + t * z - s * (0.5 * z), c - t * z - s * (0.5 * z));
        if crate::light::emit_normal(&tri).dot(n) < 0. {
            tri.rev = !tri.rev;
        }
        let l = color(src, 4.);
        let m = if src.pct(30) { mat(src, false) } else { black() };
        w.objs.push(Obj { sh: Sh::T(tri), mat: m, le: Some(l) });
    }
    if src.pct(25) {
        // a luminous ceiling behind the lamps
        let (k, z) = (src.range(4., 7.), src.range(4.2, 5.));
        let mut tri = Tri::new(V(-k, -k, z), V(k, -k, z), V(0., k, z));
        if crate::light::emit_normal(&tri).2 > 0. {
            tri.rev = !tri.rev;
        }
        let l = color(src, 1.);
        w.objs.push(Obj { sh: Sh::T(tri), mat: black(), le: Some(l) });
    }
    for _ in 0..src.weighted(&[3, 2]) {
        let l = color(src, 1.);
        w.dist.push((l, (V(0., 0., 1.) + unit_dir(src) * 0.8).norm()));
    }
    w
}

fn isotropic(src: &mut Src) -> MatCase {
    let a = src.range(0.3, 1.);
    let r = color(src, 1.);
    let (n, k) = (src.logrange(0.1, 4.), src.logrange(0.5, 6.));
    MatCase { mat: Arc::new(MetalMaterial::new(cs(r), cs([n; 3]), cs([k; 3]), cf(a), cf(a))), lobes: vec![], name: format!("metal r={:?} eta={} k={} rough {}", r, n, k, a), eta: 1. }
}

/// one ray per pixel, towards the objects
fn rays(src: &mut Src, w: &World, n: usize) -> Vec<(V, V)> {
    (0..n)
        .map(|_| {
            let k = src.usize(0, w.objs.len() - 1);
            let t = w.objs[k].sh.surf(src);
            let o = V(src.range(-5., 5.), src.range(-5., 5.), src.range(-1., 4.));
            let d = t - o;
            if d.len() < 1e-3 { (o, V(0., 0., -1.)) } else { (o, d.norm()) }
        })
        .collect()
}

fn shot(w: &World, k: S3, rays: &Arc<Vec<(V, V)>>, seed: u64, spp: u32) -> Result<Image, Fail> {
    let film = Flt::Box(0.5).film(8, 8);
    let cam = RayCam { rays: rays.clone(), w: 8 };
    render(w.kd(k), SeqSampler::new(seed, spp, false), cam, film, 1)
}

/// can `code` be the picture of something within [lo, hi]?
fn meets(code: u32, lo: f64, hi: f64) -> bool {
    let (a, b) = cell(code);
    let b = if code == 255 { f64::INFINITY } else { b };
    lo <= b * (1. + 1e-5) + 1e-7 && hi * (1. + 1e-5) + 1e-7 >= a
}

fn interval(code: u32) -> (f64, f64) {
    let (a, b) = cell(code);
    (if code == 0 { 0. } else { a }, if code == 255 { f64::INFINITY } else { b })
}

/// Same random numbers: scaling emitters scales every pixel, one channel or all.
fn c29_scale(src: &mut Src, ctx: &mut Ctx) -> R {
    let w = lit_world(src, false, false);
    let rs = Arc::new(rays(src, &w, 64));
    let seed = src.seed();
    let spp = src.pick(&[1, 4, 16]);
    let base = src.logrange(0.05, 1.);
    let a = shot(&w, [base; 3], &rs, seed, spp)?;
    let f: S3 = match src.weighted(&[3, 2, 2]) {
        0 => [src.pick(&[0.5, 2., 0.25]); 3],
        1 => [src.logrange(0.1, 10.) as f32 as f64; 3],
        _ => {
            let mut f = [1.; 3];
            f[src.usize(0, 2)] = src.pick(&[2., 0.25, 0., 0.7]);
            f
        }
    };
    let b = shot(&w, scale3(f, base), &rs, seed, spp)?;
    ctx.desc(|| format!("{} with emission times {:?}", w.name(), f));
    let mut informative = 0;
    for (k, (p, q)) in a.px.iter().zip(&b.px).enumerate() {
        for c in 0..3 {
            let (lo, hi) = interval(p[c]);
            let (lo, hi) = (lo * f[c], if f[c] == 0. { 0. } else { hi * f[c] });
            ctx.cmp();
            if p[c] > 20 && p[c] < 250 {
                informative += 1;
            }
            ensure!(
                meets(q[c], lo, hi),
                "{}: the emission is multiplied by {:?}, channel {} of the ray {:?} goes from level {} to {}, expected {:.1} to {:.1}", w.name(), f, c, rs[k], p[c], q[c], level(lo), level(hi.min(1.))
            );
        }
    }
    if informative > 10 {
        ctx.nontrivial();
        ctx.label(if f[0] == f[1] && f[1] == f[2] { "all channels" } else { "one channel" });
    }
    Ok(())
}

/// Grey surfaces: exchanging the channels of the emitters exchanges those of the picture.
fn c29_channels(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut w = lit_world(src, true, false);
    let rs = Arc::new(rays(src, &w, 64));
    let seed = src.seed();
    let spp = src.pick(&[1, 4, 16]);
    let k = src.logrange(0.05, 1.);
    let a = shot(&w, [k; 3], &rs, seed, spp)?;
    let perm = src.pick(&[[1usize, 0, 2], [2, 1, 0], [0, 2, 1], [1, 2, 0], [2, 0, 1]]);
    let pm = |l: S3| [l[perm[0]], l[perm[1]], l[perm[2]]];
    let name = w.name();
    for o in w.objs.iter_mut() {
        o.le = o.le.map(pm);
    }
    for d in w.dist.iter_mut() {
        d.0 = pm(d.0);
    }
    let b = shot(&w, [k; 3], &rs, seed, spp)?;
    ctx.desc(|| format!("{} with channels {:?}", name, perm));
    let mut n = 0;
    for (i, (p, q)) in a.px.iter().zip(&b.px).enumerate() {
        for c in 0..3 {
            ctx.cmp();
            let (lo, hi) = interval(p[perm[c]]);
            if q[c] != q[(c + 1) % 3] {
                n += 1;
            }
            ensure!(meets(q[c], lo, hi) && (q[c] as i64 - p[perm[c]] as i64).abs() <= 1, "{}: channels exchanged by {:?}, the ray {:?} shows {:?} before and {:?} after", name, perm, rs[i], p, q);
        }
    }
    if n > 10 {
        ctx.nontrivial();
    }
    Ok(())
}

/// picks an exposure so that the average is printable; None if dark
fn pilot(w: &World, o: V, d: V, seed: u64) -> Result<Option<f64>, Fail> {
    let mut k = 1.;
    for _ in 0..4 {
        let e = stats(&block_image(w, [k; 3], o, d, Smpl::Seq, seed, 8, true)?);
        let m = max3(e.mean);
        if m < 1e-6 {
            return Ok(None);
        }
        if m > 0.15 && m < 0.45 {
            return Ok(Some(k));
        }
        k *= 0.3 / m;
    }
    Ok(Some(k))
}

/// an estimate good enough to serve as expectation; None: too noisy
fn expectation(w: &World, k: f64, o: V, d: V, seed: u64) -> Result<Option<(S3, S3)>, Fail> {
    let mut spp = 64;
    let mut e;
    loop {
        e = stats(&block_image(w, [k; 3], o, d, Smpl::Seq, mix(&[seed, 77, spp as u64]), spp, true)?);
        if spp >= 1024 || (!e.sat && (0..3).all(|c| e.se[c] < 0.0008)) {
            break;
        }
        spp *= 4;
    }
    if e.sat || (0..3).any(|c| e.se[c] > 0.004) {
        return Ok(None);
    }
    let mut s = [0.; 3];
    for c in 0..3 {
        s[c] = 6. * e.se[c] + half_step(e.mean[c]);
    }
    Ok(Some((e.mean, s)))
}

/// With two sets of emitters the picture is the sum of the pictures.
fn c29_sum(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut w = lit_world(src, false, true);
    // at least two emitters
    let mut em: Vec<(usize, bool)> = vec![];
    for (k, o) in w.objs.iter().enumerate() {
        if o.le.is_some() {
            em.push((k, false));
        }
    }
    for k in 0..w.dist.len() {
        em.push((k, true));
    }
    if em.len() < 2 {
        w.dist.push((color(src, 1.), V(0.3, 0.2, 1.).norm()));
        em.push((w.dist.len() - 1, true));
    }
    let (mut a, mut b) = (w.clone(), w.clone());
    let cut = src.usize(1, em.len() - 1);
    let (mut da, mut db) = (vec![], vec![]);
    for (n, (k, dist)) in em.iter().enumerate() {
        let first = n < cut;
        if *dist {
            if first { da.push(w.dist[*k]) } else { db.push(w.dist[*k]) }
        } else if first {
            b.objs[*k].le = None;
        } else {
            a.objs[*k].le = None;
        }
    }
    a.dist = da;
    b.dist = db;
    let (o, d) = rays(src, &w, 1)[0];
    if w.nearest(o, d, None, 1.).is_err() {
        discard!();
    }
    let seed = src.seed();
    let k = match pilot(&w, o, d, seed)? {
        Some(k) => k,
        None => discard!(),
    };
    let (ea, sa) = match expectation(&a, k, o, d, seed)? {
        Some(x) => x,
        None => discard!(),
    };
    let (eb, sb) = match expectation(&b, k, o, d, mix(&[seed, 5]))? {
        Some(x) => x,
        None => discard!(),
    };
    let e = add3(ea, eb);
    if e.iter().any(|x| *x > 0.6) {
        discard!();
    }
    ctx.desc(|| format!("{} split after {} emitters: {:?} + {:?}", w.name(), cut, ea, eb));
    match decide(ctx, |seed, spp| block_image(&w, [k; 3], o, d, Smpl::Seq, seed, spp, true), e, add3(sa, sb), mix(&[seed, 9]), 64, 1024)? {
        None => discard!(),
        Some(Ok(())) => {
            if max3(ea) > 0.02 && max3(eb) > 0.02 {
                ctx.nontrivial();
            }
            ctx.label("sum");
        }
        Some(Err(m)) => fail!("{}: the first {} emitters alone give {:?}, the others {:?}, together along {:?} from {:?}: {}", w.name(), cut, ea, eb, d, o, m),
    }
    Ok(())
}

/// Every one of many lights lights, however many there are: the brightness does not depend on dark lights beside it.
fn c29_many(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.logrange(2., 300.) as usize;
    let bright = match src.weighted(&[3, 2, 1]) {
        0 => src.usize(0, n - 1),
        1 => n - 1,
        _ => 0,
    };
    let mut one = World::default();
    let c = color(src, 0.9);
    let (k, z) = (6., -1.);
    one.objs.push(Obj { sh: Sh::T(Tri::new(V(-k, -k, z), V(k, -k, z), V(0., k, z))), mat: diffuse(c), le: None });
    let mut many = one.clone();
    let l = color(src, 1.);
    let mut kinds = [0, 0];
    for j in 0..n {
        let e = if j == bright { l } else { [0.; 3] };
        if src.bool() {
            kinds[0] += 1;
            let d = (V(0., 0., 1.) + unit_dir(src) * 0.6).norm();
            many.dist.push((e, d));
            if j == bright {
                one.dist.push((e, d));
            }
        } else {
            kinds[1] += 1;
            // small and in a ring around the directions of the distant ones, so that none hides another one
            let a = j as f64 * 2.399963;
            let r = (100. + 0.5 * j as f64).sqrt();
            let at = V(r * a.cos(), r * a.sin(), 9.);
            let mut tri = Tri::new(at, at + V(0.15, 0., 0.), at + V(0., 0.15, 0.));
            if crate::light::emit_normal(&tri).2 > 0. {
                tri.rev = !tri.rev;
            }
            let o = Obj { sh: Sh::T(tri), mat: black(), le: Some(scale3(e, 400.)) };
            many.objs.push(o.clone());
            if j == bright {
                one.objs.push(o);
            }
        }
    }
    let (o, d) = (V(src.range(-0.5, 0.5), src.range(-0.5, 0.5), 1.), (V(0., 0., -1.) + unit_dir(src) * 0.3).norm());
    let seed = src.seed();
    let k = match pilot(&one, o, d, seed)? {
        Some(k) => k * 0.3,
        None => discard!(),
    };
    ctx.desc(|| format!("{} distant and {} area lights, of which number {} shines {:?}", kinds[0], kinds[1], bright, l));
    let a = stats(&block_image(&one, [k; 3], o, d, Smpl::Seq, seed, 16, true)?);
    let b = stats(&block_image(&many, [k; 3], o, d, Smpl::Seq, mix(&[seed, 3]), 6 * n as u32 + 16, true)?);
    if a.sat || b.sat {
        discard!();
    }
    for c in 0..3 {
        ctx.cmp();
        let tol = 6. * (a.se[c] + b.se[c]) + half_step(a.mean[c]) + half_step(b.mean[c]) + 0.002;
        ensure!((a.mean[c] - b.mean[c]).abs() <= tol, "{} distant and {} area lights of which only number {} shines: brightness {:?}, but {:?} when it is the only light (exposure {}, tolerance {:.4})", kinds[0], kinds[1], bright, b.mean, a.mean, k, tol);
    }
    if n > 8 && max3(a.mean) > 0.03 {
        ctx.nontrivial();
    }
    ctx.label(if n > 64 { "more than 64 lights" } else if n > 16 { "17 to 64 lights" } else { "up to 16 lights" });
    Ok(())
}

/// One sun or many suns in the same place with as much light together.
fn c29_split(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut w = lit_world(src, false, false);
    for o in w.objs.iter_mut() {
        o.le = None;
    }
    let l = color(src, 1.);
    let d = { let d = unit_dir(src); if src.pct(70) { V(d.0, d.1, d.2.abs() + 0.1).norm() } else { d } };
    w.dist = vec![(l, d)];
    let n = match src.below(3) {
        0 => src.usize(2, 50),
        1 => src.logrange(2., 5_000.) as usize,
        _ => src.logrange(1_000., 100_000.) as usize,
    };
    let rs = Arc::new(rays(src, &w, 64));
    let seed = src.seed();
    let spp = src.pick(&[1, 4, 16]);
    let base = src.logrange(0.2, 3.);
    let a = shot(&w, [base; 3], &rs, seed, spp)?;
    let mut many = w.clone();
    many.dist = vec![(scale3(l, 1. / n as f64), d); n];
    let b = shot(&many, [base; 3], &rs, seed, spp)?;
    ctx.desc(|| format!("{} in place of one sun, {}", n, w.name()));
    let mut informative = 0;
    for (k, (p, q)) in a.px.iter().zip(&b.px).enumerate() {
        for c in 0..3 {
            ctx.cmp();
            informative += (p[c] > 20 && p[c] < 250) as usize;
            ensure!((p[c] as i64 - q[c] as i64).abs() <= 1, "{}: the light of the sun is shared among {} suns in its place, channel {} of the ray {:?} goes from level {} to {}", w.name(), n, c, rs[k], p[c], q[c]);
        }
    }
    if informative > 10 {
        ctx.nontrivial();
        ctx.label(if n > 5000 { "more than 5000 suns" } else { "up to 5000 suns" });
    }
    Ok(())
}

/// Strong light on a dark surface looks like weak light on a bright one.
fn c29_dark(src: &mut Src, ctx: &mut Ctx) -> R {
    let kind = src.below(3);
    let (r0, r1, rough) = (color(src, 0.9), color(src, 0.9), src.range(0.2, 1.));
    let n = src.logrange(0.1, 4.);
    let mat = |g: f64| -> MatCase {
        match kind {
            0 => diffuse(scale3(r0, g)),
            1 => MatCase { mat: Arc::new(PlasticMaterial::new(cs(scale3(r0, 0.5 * g)), cs(scale3(r1, 0.5 * g)), cf(rough))), lobes: vec![], name: format!("plastic {:?} {:?} rough {}", r0, r1, rough), eta: 1. },
            _ => MatCase { mat: Arc::new(MetalMaterial::new(cs(scale3(r0, g)), cs([n; 3]), cs([3.; 3]), cf(rough), cf(rough))), lobes: vec![], name: format!("metal {:?} eta {} rough {}", r0, n, rough), eta: 1. },
        }
    };
    let g = src.logrange(10., 1e8);
    let mut w = World::default();
    let nn = unit_dir(src);
    let (s, t, nn) = crate::gen::frame(nn, src.range(0., 6.28));
    w.objs.push(Obj { sh: Sh::T(Tri::new(s * 2., t * 2. - s * 1.5, -t * 2. - s * 1.5)), mat: mat(1.), le: None });
    for _ in 0..src.usize(0, 3) {
        let c = unit_dir(src) * src.range(2.5, 5.);
        let (u, v, f) = crate::gen::frame(unit_dir(src), src.range(0., 6.28));
        let z = src.range(0.3, 1.5);
        let mut tri = Tri::new(c + u * z, c + v * z, c - u * z);
        if crate::light::emit_normal(&tri).dot(c) > 0. {
            tri.rev = !tri.rev;
        }
        let _ = f;
        w.objs.push(Obj { sh: Sh::T(tri), mat: black(), le: Some(color(src, 10.)) });
    }
    for _ in 0..src.usize(if w.objs.len() == 1 { 1 } else { 0 }, 2) {
        w.dist.push((color(src, 1.), unit_dir(src)));
    }
    let mut rs = vec![];
    for _ in 0..300 {
        let q = s * src.range(-0.4, 0.4) + t * src.range(-0.4, 0.4);
        let o = q + unit_dir(src) * src.range(0.3, 2.);
        if rs.len() < 64 && (o - q).norm().dot(nn).abs() > 0.05 {
            if let Ok(Some(h)) = w.nearest(o, (q - o).norm(), None, 1.) {
                if h.k == 0 {
                    rs.push((o, (q - o).norm()));
                }
            }
        }
    }
    if rs.len() < 64 {
        discard!();
    }
    let rs = Arc::new(rs);
    let seed = src.seed();
    let spp = src.pick(&[1, 4, 16]);
    let base = src.logrange(0.2, 3.);
    let a = shot(&w, [base; 3], &rs, seed, spp)?;
    let name = w.name();
    w.objs[0].mat = mat(1. / g);
    let b = shot(&w, [base * g; 3], &rs, seed, spp)?;
    ctx.desc(|| format!("{} with reflectance / {} and light * {}", name, g, g));
    let mut informative = 0;
    for (k, (p, q)) in a.px.iter().zip(&b.px).enumerate() {
        for c in 0..3 {
            ctx.cmp();
            informative += (p[c] > 20 && p[c] < 250) as usize;
            ensure!((p[c] as i64 - q[c] as i64).abs() <= 1, "{}: reflectance divided and light multiplied by {}, channel {} of the ray {:?} goes from level {} to {}", name, g, c, rs[k], p[c], q[c]);
        }
    }
    if informative > 10 {
        ctx.nontrivial();
        ctx.label(["diffuse", "plastic", "metal"][kind as usize]);
    }
    Ok(())
}

/// moves shapes by a rotation, a scaling and a translation
fn moved(w: &World, f: &dyn Fn(V) -> V, s: f64, rot: &dyn Fn(V) -> V) -> World {
    let mut r = w.clone();
    for o in r.objs.iter_mut() {
        match &mut o.sh {
            Sh::T(t) => {
                for v in t.v.iter_mut() {
                    *v = f(v.d()).p();
                }
                if let Some(n) = &mut t.vn {
                    for x in n.iter_mut() {
                        *x = rot(x.d()).n();
                    }
                }
            }
            Sh::S(c, r) => {
                *c = f(c.d()).p();
                *r = (*r as f64 * s) as f32;
            }
        }
    }
    for d in r.dist.iter_mut() {
        d.1 = rot(d.1);
    }
    r
}

/// Motion of camera and scene together, another unit of length.
fn c29_motion(src: &mut Src, ctx: &mut Ctx) -> R {
    let w = lit_world(src, false, true);
    let (o, d) = rays(src, &w, 1)[0];
    if w.nearest(o, d, None, 1.).is_err() {
        discard!();
    }
    let kind = src.weighted(&[2, 2, 2]);
    let (ax, an) = (unit_dir(src), src.range(0.3, 6.));
    let s = if kind != 0 { src.pick(&[1. / 1024., 1. / 32., 0.1, 10., 100., 1024.]) } else { 1. };
    let turn = kind != 1;
    let shift = if turn { point(src, 20.) } else { V(0., 0., 0.) };
    let rot = move |v: V| if turn { rotate(v, ax, an) } else { v };
    let f = move |v: V| (rot(v) + shift) * s;
    let w2 = moved(&w, &f, s, &rot);
    let (o2, d2) = (f(o), rot(d));
    let seed = src.seed();
    let k = match pilot(&w, o, d, seed)? {
        Some(k) => k,
        None => discard!(),
    };
    let (e, sl) = match expectation(&w, k, o, d, seed)? {
        Some(x) => x,
        None => discard!(),
    };
    if e.iter().any(|x| *x > 0.6) {
        discard!();
    }
    ctx.desc(|| format!("{} {}: {:?}", w.name(), ["moved", "in another unit", "moved and in another unit"][kind], e));
    match decide(ctx, |seed, spp| block_image(&w2, [k; 3], o2, d2, Smpl::Seq, seed, spp, true), e, sl, mix(&[seed, 9]), 64, 1024)? {
        None => discard!(),
        Some(Ok(())) => {
            ctx.nontrivial();
            ctx.label(["moved", "scaled", "moved and scaled"][kind]);
        }
        Some(Err(m)) => fail!("{}: along {:?} from {:?} shows {:?}; after turning by {} about {:?}, shifting by {:?} and scaling by {}: {}", w.name(), d, o, e, if turn { an } else { 0. }, ax, shift, s, m),
    }
    Ok(())
}

/// The same radiance, seen in a mirror or through glass: once per way, whatever scatters it afterwards.
pub fn c19_lit(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut w = lit_world(src, false, true);
    let k = src.usize(0, w.objs.len() - 1);
    let target = w.objs[k].sh.surf(src);
    let at = point(src, 2.) + V(0., 0., 0.3);
    let mut u = target - at;
    if u.len() < 0.3 {
        discard!();
    }
    u = u.norm();
    let wo = (unit_dir(src) + u * 0.3).norm();
    let n = wo + u;
    if n.len() < 0.2 || wo.cross(u).len() < 0.05 {
        discard!();
    }
    let n = n.norm();
    let z = src.range(0.2, 1.);
    let (s, t, _) = frame(n, src.range(0., 6.28));
    let mut tri = Tri::new(at + s * z, at + t * z - s * (0.5 * z), at - t * z - s * (0.5 * z));
    tri.rev = src.bool();
    let mat = crate::trans::specular_mat(src);
    w.objs.push(Obj { sh: Sh::T(tri), mat, le: None });
    let me = w.objs.len() - 1;
    let at = at + (s * src.range(-0.2, 0.2) + t * src.range(-0.2, 0.2)) * z;
    let o = at + wo * src.range(0.3, 2.);
    let d = -wo;
    let h = match w.nearest(o, d, None, 1.) {
        Ok(Some(h)) if h.k == me => h,
        _ => discard!(),
    };
    if d.dot(h.n).abs() < 0.1 {
        discard!();
    }
    let seed = src.seed();
    let ways: Vec<(V, S3)> = specular_ways(&w.objs[me].mat.lobes, h.n, d).into_iter().filter(|x| max3(x.1) > 0.).collect();
    if ways.iter().any(|x| x.0.norm().dot(h.n).abs() < 0.1) {
        discard!();
    }
    let k = match pilot(&w, o, d, seed)? {
        Some(k) => k,
        None => 1.,
    };
    let (mut e, mut slack) = ([0.; 3], [0.; 3]);
    for (j, (wi, f)) in ways.iter().enumerate() {
        let wi = wi.norm();
        if w.nearest(h.p, wi, Some(me), 1.).is_err() {
            discard!();
        }
        let (x, sx) = match expectation(&w, k, h.p + wi * 1e-3, wi, mix(&[seed, 60 + j as u64]))? {
            Some(x) => x,
            None => discard!(),
        };
        e = add3(e, mul3(*f, x));
        slack = add3(slack, mul3(*f, sx));
    }
    if e.iter().any(|x| *x > 0.6) {
        discard!();
    }
    ctx.desc(|| format!("{}: seen along {:?} by {} ways: {:?}", w.name(), d, ways.len(), e));
    match decide(ctx, |seed, spp| block_image(&w, [k; 3], o, d, Smpl::Seq, seed, spp, true), e, slack, mix(&[seed, 9]), 64, 1024)? {
        None => discard!(),
        Some(Ok(())) => {
            if max3(e) > 0.02 {
                ctx.nontrivial();
            }
            ctx.label(if ways.len() == 2 { "two ways" } else { "one way" });
        }
        Some(Err(m)) => fail!("{}: the ray {:?} from {:?} meets the specular surface {} at {:?}; what is seen along its ways {:?} adds up to {:?}, rendered: {}", w.name(), d, o, me, h.p, ways, e, m),
    }
    Ok(())
}

// ---------------------------------------------------------------- C37

/// The same triangle with another first corner, seen from the same side.
fn turned(t: &Tri, k: usize) -> Tri {
    let i = [k % 3, (k + 1) % 3, (k + 2) % 3];
    Tri { v: [t.v[i[0]], t.v[i[1]], t.v[i[2]]], vn: t.vn.map(|n| [n[i[0]], n[i[1]], n[i[2]]]), rev: t.rev }
}

/// Corners listed the other way round; the flag keeps the side it shines to.
fn flipped(t: &Tri) -> Tri {
    Tri { v: [t.v[0], t.v[2], t.v[1]], vn: t.vn.map(|n| [n[0], n[2], n[1]]), rev: !t.rev }
}

/// The triangle in pieces: a corner cut off at a point of an edge.
fn pieces(src: &mut Src, t: &Tri) -> Vec<Tri> {
    let t = turned(t, src.usize(0, 2));
    let f = src.range(0.2, 0.8);
    let m = t.bary(f, 0.).p();
    let mk = |v: [Point3f; 3]| Tri { v, vn: None, rev: t.rev };
    vec![mk([t.v[0], m, t.v[2]]), mk([m, t.v[1], t.v[2]])]
}

/// The same scene told in other words looks the same.
fn c37_told(src: &mut Src, ctx: &mut Ctx) -> R {
    let w = lit_world_of(src, false, true, true);
    let mut w2 = World::default();
    let mut said = vec![];
    for o in &w.objs {
        let mut parts = vec![o.sh.clone()];
        if let Sh::T(t) = &o.sh {
            match src.weighted(&[3, 2, 2, 3]) {
                0 => {}
                1 => parts = vec![Sh::T(turned(t, src.usize(1, 2)))],
                2 if t.vn.is_none() => {
                    parts = vec![Sh::T(flipped(t))];
                    said.push("flipped");
                }
                2 => {}
                _ if t.vn.is_none() => {
                    let mut p = pieces(src, t);
                    if src.bool() {
                        let k = src.usize(0, p.len() - 1);
                        let q = p.remove(k);
                        p.extend(pieces(src, &q));
                    }
                    said.push(if o.le.is_some() { "lamp cut" } else { "cut" });
                    parts = p.into_iter().map(Sh::T).collect();
                }
                _ => {}
            }
        }
        for sh in parts {
            w2.objs.push(Obj { sh, mat: o.mat.clone(), le: o.le });
        }
    }
    for (l, d) in &w.dist {
        let k = src.usize(1, 3);
        for _ in 0..k {
            // directions need not be unit vectors
            let len = if src.bool() { src.logrange(0.05, 20.) } else { 1. };
            if len != 1. {
                said.push("distant light of another length");
            }
            w2.dist.push((scale3(*l, 1. / k as f64), *d * len));
        }
        if k > 1 {
            said.push("distant light split");
        }
    }
    // any order
    for k in (1..w2.objs.len()).rev() {
        let j = src.usize(0, k);
        w2.objs.swap(k, j);
    }
    for k in (1..w2.dist.len()).rev() {
        let j = src.usize(0, k);
        w2.dist.swap(k, j);
    }
    let kd = src.bool();
    let (o, d) = rays(src, &w, 1)[0];
    if w.nearest(o, d, None, 1.).is_err() || w2.nearest(o, d, None, 1.).is_err() {
        discard!();
    }
    let seed = src.seed();
    let k = match pilot(&w, o, d, seed)? {
        Some(k) => k,
        None => discard!(),
    };
    let (e, sl) = match expectation(&w, k, o, d, seed)? {
        Some(x) => x,
        None => discard!(),
    };
    if e.iter().any(|x| *x > 0.6) {
        discard!();
    }
    ctx.desc(|| format!("{}: {:?}, told with {:?}", w.name(), e, said));
    match decide(ctx, |seed, spp| block_image(&w2, [k; 3], o, d, Smpl::Seq, seed, spp, kd), e, sl, mix(&[seed, 9]), 64, 1024)? {
        None => discard!(),
        Some(Ok(())) => {
            if !said.is_empty() {
                ctx.nontrivial();
            }
            for s in &said {
                ctx.label(s);
            }
        }
        Some(Err(m)) => fail!("{}: along {:?} from {:?} shows {:?}; the same scene told as {} ({:?}, {}): {}", w.name(), d, o, e, w2.name(), said, if kd { "tree" } else { "list" }, m),
    }
    Ok(())
}

/// The order in which shapes are added and the kind of container do not change a single pixel.
fn c37_order(src: &mut Src, ctx: &mut Ctx) -> R {
    let w = lit_world(src, false, false);
    let mut w2 = World { objs: vec![], dist: w.dist.clone() };
    // lamps keep their order among themselves: they are picked by number
    let mut plain: Vec<Obj> = w.objs.iter().filter(|o| o.le.is_none()).cloned().collect();
    let mut lamps: Vec<Obj> = w.objs.iter().filter(|o| o.le.is_some()).cloned().collect();
    for k in (1..plain.len()).rev() {
        let j = src.usize(0, k);
        plain.swap(k, j);
    }
    lamps.reverse();
    while !plain.is_empty() || !lamps.is_empty() {
        let lamp = !lamps.is_empty() && (plain.is_empty() || src.bool());
        w2.objs.push(if lamp { lamps.pop().unwrap() } else { plain.pop().unwrap() });
    }
    let n = w.objs.len();
    let rs = Arc::new(rays(src, &w, 64));
    let seed = src.seed();
    let (ka, kb) = (src.bool(), src.bool());
    let spp = src.pick(&[1u32, 4]);
    let pic = |w: &World, kd: bool| -> Result<Image, Fail> {
        let film = Flt::Box(0.5).film(8, 8);
        let cam = RayCam { rays: rs.clone(), w: 8 };
        if kd {
            render(w.kd([0.3; 3]), SeqSampler::new(seed, spp, false), cam, film, 1)
        } else {
            render(w.simple([0.3; 3]), SeqSampler::new(seed, spp, false), cam, film, 1)
        }
    };
    let (a, b) = (pic(&w, ka)?, pic(&w2, kb)?);
    ctx.desc(|| format!("{} in another order, {} and {}", w.name(), if ka { "tree" } else { "list" }, if kb { "tree" } else { "list" }));
    ctx.cmp();
    let mut off = vec![];
    let mut lit = 0;
    for (k, (p, q)) in a.px.iter().zip(&b.px).enumerate() {
        lit += p.iter().any(|x| *x > 0 && *x < 255) as usize;
        if (0..3).any(|c| p[c].abs_diff(q[c]) > 1) {
            off.push((k, *p, *q));
        }
    }
    // a path that meets an edge or a point shared by two shapes may take either
    ensure!(off.len() <= 2, "{}: {} of 64 pixels change when the shapes are added in the order of {} ({} and {}): {:?}", w.name(), off.len(), w2.name(), if ka { "tree" } else { "list" }, if kb { "tree" } else { "list" }, &off[..3]);
    if lit >= 16 && n > 2 {
        ctx.nontrivial();
    }
    Ok(())
}

/// Of layers that lie close behind one another the first one is seen, in whatever order they are added.
fn c37_layers(src: &mut Src, ctx: &mut Ctx) -> R {
    let axis = src.usize(0, 2);
    let side = if src.bool() { 1. } else { -1. };
    let turn = |v: V| -> V {
        match axis {
            0 => V(v.2, v.0, v.1),
            1 => V(v.1, v.2, v.0),
            _ => v,
        }
    };
    let dist = src.logrange(0.5, 500.) as f32 as f64;
    let o = V(src.range(-0.2, 0.2) * dist, src.range(-0.2, 0.2) * dist, src.range(-0.2, 0.2) * dist);
    let n = src.usize(2, 6);
    let mut z = (side * dist) as f32 as f64;
    let mut layers = vec![];
    for k in 0..n {
        let l = [0.02 + 0.9 * (k as f64) / n as f64, src.range(0., 0.9), if k % 2 == 0 { 0.7 } else { 0.1 }];
        let wide = 3. * dist;
        let mut tris = vec![];
        let q = |x: f64, y: f64| turn(V(x * wide, y * wide, z));
        for t in [Tri::new(q(-1., -1.), q(1., -1.), q(1., 1.)), Tri::new(q(-1., -1.), q(1., 1.), q(-1., 1.))] {
            let mut t = t;
            if crate::light::emit_normal(&t).dot(turn(V(0., 0., side))) > 0. {
                t.rev = !t.rev;
            }
            tris.push(Obj { sh: Sh::T(t), mat: black(), le: Some(l) });
        }
        layers.push((z, l, tris));
        let gap = src.logrange(3e-6, 1e-2) * 1.25 * dist;
        z = (z + side * gap) as f32 as f64;
    }
    for w in layers.windows(2) {
        // told apart by more than the rounding of distances
        if (w[0].0 - w[1].0).abs() < 2.5e-6 * 1.2 * dist {
            discard!();
        }
    }
    let front = layers[0].1;
    let gap = (layers[0].0 - layers[1].0).abs() / dist;
    let mut objs: Vec<Obj> = layers.into_iter().flat_map(|l| l.2).collect();
    for k in (1..objs.len()).rev() {
        let j = src.usize(0, k);
        objs.swap(k, j);
    }
    let w = World { objs, dist: vec![] };
    let rs: Arc<Vec<(V, V)>> = Arc::new((0..64).map(|_| (turn(o), turn(V(src.range(-0.7, 0.7), src.range(-0.7, 0.7), side)).norm())).collect());
    let tree = src.bool();
    let film = Flt::Box(0.5).film(8, 8);
    let cam = RayCam { rays: rs.clone(), w: 8 };
    let seed = src.seed();
    ctx.desc(|| format!("{} layers {} away, the first gap {:e} of that, in a {}", n, dist, gap, if tree { "tree" } else { "list" }));
    let img = if tree { render(w.kd([1.; 3]), SeqSampler::new(seed, 1, false), cam, film, 1)? } else { render(w.simple([1.; 3]), SeqSampler::new(seed, 1, false), cam, film, 1)? };
    for (k, p) in img.px.iter().enumerate() {
        ctx.cmp();
        let off = (0..3).any(|c| (level(front[c]) - p[c] as f64).abs() > 1.01);
        ensure!(!off, "{} layers, the first {} away and the next {:e} of that behind it: pixel {} shows {:?} instead of {:?}, along {:?} from {:?} (in a {})", n, dist, gap, k, p, front.map(|v| level(v).round()), rs[k].1, rs[k].0, if tree { "tree" } else { "list" });
    }
    if gap < 1e-4 {
        ctx.nontrivial();
    }
    ctx.label(if gap < 1e-5 { "closer than 1e-5" } else if gap < 1e-3 { "closer than 1e-3" } else { "apart" });
    Ok(())
}

pub static C37: Prop = Prop {
    id: "C37",
    rule: "case: a decided comparison in which a shape or light was described differently (told), a picture with 16 mid-range pixels of a scene of three or more shapes (order), or of layers closer than 1e-4 of their distance (layers)",
    assumptions: &[
        "told: diffuse, metal and plastic surfaces of roughness 0.3 or more without a preferred direction; averages compared, half-level and 6 standard errors of either side are tolerated",
        "order: pixel by pixel with the same random numbers; two of 64 pixels may differ where a path meets an edge shared by two shapes",
    ],
    subs: &[Sub { name: "told", quick: 700, thorough: 30_000, f: c37_told }, Sub { name: "order", quick: 6_000, thorough: 500_000, f: c37_order }, Sub { name: "layers", quick: 60_000, thorough: 5_000_000, f: c37_layers }],
};

pub static C29: Prop = Prop {
    id: "C29",
    rule: "case: pictures with enough mid-range pixels (scale, channels), or a decided comparison of non-black averages (sum, motion)",
    assumptions: &[
        "scaling and channels are compared pixel by pixel with the same random numbers, sums and motions on average",
        "sums and motions: diffuse, metal and plastic surfaces of roughness 0.3 or more; half-level and 6 standard errors of either side are tolerated",
    ],
    subs: &[
        Sub { name: "scale", quick: 3_000, thorough: 300_000, f: c29_scale },
        Sub { name: "channels", quick: 2_000, thorough: 200_000, f: c29_channels },
        Sub { name: "sum", quick: 500, thorough: 20_000, f: c29_sum },
        Sub { name: "many", quick: 600, thorough: 30_000, f: c29_many },
        Sub { name: "split", quick: 8_000, thorough: 100_000, f: c29_split },
        Sub { name: "dark", quick: 40_000, thorough: 600_000, f: c29_dark },
        Sub { name: "motion", quick: 500, thorough: 20_000, f: c29_motion },
    ],
};
