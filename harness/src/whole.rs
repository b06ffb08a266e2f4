//! C38: whole scenes against an independent path tracer in double precision.
use crate::engine::*;
use crate::gen::*;
use crate::light::emit_normal;
use crate::m::*;
use crate::optics::*;
use crate::render::*;
use crate::{discard, fail};
use pt::api::*;
use pt::verif::Normal3f;
use std::f64::consts::PI;
use std::sync::Arc;

/// Checks of two colours: in space with edges of 1/f, or in texture coordinates scaled by (su, sv) and shifted by (du, dv).
#[derive(Clone, Copy)]
enum Checks {
    Space(S3, S3, f64),
    Uv(S3, S3, [f64; 4]),
}

struct Flat {
    a: V,
    e1: V,
    e2: V,
    n: V,
    area: f64,
}

struct Room {
    w: World,
    flat: Vec<Option<Flat>>,
    /// of each object
    checks: Vec<Option<Checks>>,
}

struct At {
    k: usize,
    t: f64,
    p: V,
    n: V,
    uv: (f64, f64),
    /// shading normal, and whether it is an interpolated one
    sn: V,
    smooth: bool,
}

impl Room {
    fn add(&mut self, sh: Sh, m: &(MatCase, Option<Checks>), le: Option<S3>) {
        self.w.objs.push(Obj { sh, mat: m.0.clone(), le });
        self.checks.push(m.1);
        self.flat.push(match &self.w.objs[self.w.objs.len() - 1].sh {
            Sh::T(t) => {
                let v = t.d();
                Some(Flat { a: v[0], e1: v[1] - v[0], e2: v[2] - v[0], n: emit_normal(t), area: t.area() })
            }
            _ => None,
        });
    }

    fn lobes(&self, h: &At) -> Vec<Lobe> {
        match self.checks[h.k] {
            Some(Checks::Space(a, b, f)) => {
                let s = (h.p.0 * f).floor() + (h.p.1 * f).floor() + (h.p.2 * f).floor();
                vec![Lobe::Lambert(if s.rem_euclid(2.) == 0. { a } else { b })]
            }
            Some(Checks::Uv(a, b, [su, sv, du, dv])) => {
                let s = (h.uv.0 * su + du).floor() + (h.uv.1 * sv + dv).floor();
                vec![Lobe::Lambert(if s.rem_euclid(2.) == 0. { a } else { b })]
            }
            None => self.w.objs[h.k].mat.lobes.clone(),
        }
    }

    /// A frame of the surface: its first direction is that in which u grows.
    fn tangents(&self, h: &At) -> (V, V, V) {
        let s = match &self.w.objs[h.k].sh {
            Sh::T(_) => self.flat[h.k].as_ref().unwrap().e1,
            Sh::S(c, _) => {
                let r = h.p - c.d();
                V(-r.1, r.0, 0.)
            }
        };
        let s = s - h.sn * s.dot(h.sn);
        if !(s.len() > 0.) {
            return frame(h.sn, 0.);
        }
        let s = s.norm();
        (s, h.sn.cross(s), h.sn)
    }

    fn hit(&self, o: V, d: V, from: Option<usize>) -> Option<At> {
        let mut best: Option<(usize, f64, f64, f64)> = None;
        for (k, ob) in self.w.objs.iter().enumerate() {
            let (t, u, v) = match &ob.sh {
                Sh::T(_) => {
                    if from == Some(k) {
                        continue;
                    }
                    let Flat { a: v0, e1, e2, .. } = *self.flat[k].as_ref().unwrap();
                    let q = d.cross(e2);
                    let det = e1.dot(q);
                    if det == 0. {
                        continue;
                    }
                    let s = o - v0;
                    let a = s.dot(q) / det;
                    let r = s.cross(e1);
                    let b = d.dot(r) / det;
                    if a < 0. || b < 0. || a + b > 1. {
                        continue;
                    }
                    (e2.dot(r) / det, a, b)
                }
                Sh::S(c, r) => {
                    let oc = o - c.d();
                    let b = oc.dot(d);
                    let r = *r as f64;
                    let disc = r * r - (oc - d * b).dot(oc - d * b);
                    if disc <= 0. {
                        continue;
                    }
                    let q = disc.sqrt();
                    (if -b - q > 1e-7 { -b - q } else { -b + q }, 0., 0.)
                }
            };
            if t > 1e-7 && best.map_or(true, |x| t < x.1) {
                best = Some((k, t, u, v));
            }
        }
        best.map(|(k, t, u, v)| {
            let p = o + d * t;
            let (mut n, mut smooth) = match &self.w.objs[k].sh {
                Sh::T(_) => (self.flat[k].as_ref().unwrap().n, None),
                Sh::S(c, _) => ((p - c.d()).norm(), None),
            };
            if let Sh::T(Tri { vn: Some(vn), rev, .. }) = &self.w.objs[k].sh {
                let sn = (vn[0].d() * (1. - u - v) + vn[1].d() * u + vn[2].d() * v).norm();
                let sn = if *rev { -sn } else { sn };
                if n.dot(sn) < 0. {
                    n = -n;
                }
                smooth = Some(sn);
            }
            let uv = match &self.w.objs[k].sh {
                Sh::T(_) => (u + v, v),
                Sh::S(c, r) => {
                    let q = p - c.d();
                    (q.1.atan2(q.0).rem_euclid(2. * PI), (q.2 / *r as f64).max(-1.).min(1.).acos())
                }
            };
            At { uv,  k, t, p, n, sn: smooth.unwrap_or(n), smooth: smooth.is_some() }
        })
    }

    /// Value of the lobes between world directions. With interpolated normals, the surface itself decides
    /// whether light is reflected or goes through; only diffuse lobes have values there.
    fn value(&self, h: &At, lobes: &[Lobe], wo: V, wi: V, wow: V, wiw: V) -> S3 {
        if !h.smooth {
            return f_model(lobes, wo, wi);
        }
        let mut f = [0.; 3];
        if wow.dot(h.n) * wiw.dot(h.n) > 0. {
            for l in lobes {
                match l {
                    Lobe::Lambert(c) => f = add3(f, scale3(*c, 1. / PI)),
                    _ => unreachable!(),
                }
            }
        }
        f
    }

    /// one random path
    fn path(&self, mut o: V, mut d: V, lamps: &[usize], r: &mut Rng) -> S3 {
        let mut l = [0.; 3];
        let mut beta = [1.; 3];
        let mut from = None;
        // density of the direction if it was sampled from the scattering, None: only way to arrive
        let mut density: Option<f64> = None;
        for depth in 0..200 {
            let h = match self.hit(o, d, from) {
                None => break,
                Some(h) => h,
            };
            let cos = -d.dot(h.n);
            if let Some(le) = self.w.objs[h.k].le {
                if cos > 0. {
                    let m = match (density, &self.flat[h.k]) {
                        (Some(q), Some(t)) => q / (q + h.t * h.t / (cos * t.area * lamps.len() as f64)),
                        _ => 1.,
                    };
                    l = add3(l, scale3(mul3(beta, le), m));
                }
            }
            let lobes = self.lobes(&h);
            let (s, t, n) = self.tangents(&h);
            let loc = |v: V| V(v.dot(s), v.dot(t), v.dot(n));
            let wo = loc(-d);
            let scat: Vec<Lobe> = lobes.iter().filter(|x| !x.specular()).cloned().collect();
            let ways: Vec<(V, S3)> = specular_ways(&lobes, h.sn, d).into_iter().filter(|x| max3(x.1) > 0.).collect();
            let total = ways.iter().map(|x| max3(x.1)).sum::<f64>() + if scat.is_empty() { 0. } else { 0.7 };
            if total <= 0. || wo.2 == 0. {
                break;
            }
            let share = 0.7 / total;
            if !scat.is_empty() {
                let mx = Ways { lobes: &scat, w: wo };
                // lamps
                if !lamps.is_empty() {
                    let k = lamps[r.below(lamps.len() as u64) as usize];
                    if let Some(t) = &self.flat[k] {
                        let a = r.f64().sqrt();
                        let b = r.f64();
                        let x = t.a + t.e1 * (a * (1. - b)) + t.e2 * (a * b);
                        let y = x - h.p;
                        let dist = y.len();
                        let wi = y * (1. / dist);
                        let c = -wi.dot(t.n);
                        if dist > 1e-6 && c > 0. && k != h.k {
                            let wl = loc(wi);
                            let f = self.value(&h, &scat, wo, wl, -d, wi);
                            if max3(f) > 0. {
                                let clear = self.hit(h.p, wi, Some(h.k)).map_or(false, |g| g.k == k);
                                if clear {
                                    let ql = dist * dist / (c * t.area * lamps.len() as f64);
                                    let qs = mx.pdf(wl) * share;
                                    l = add3(l, scale3(mul3(mul3(beta, f), self.w.objs[k].le.unwrap()), wl.2.abs() / (ql + qs)));
                                }
                            }
                        }
                    }
                }
                for (e, u) in &self.w.dist {
                    let u = u.norm();
                    let wl = loc(u);
                    let f = self.value(&h, &scat, wo, wl, -d, u);
                    if max3(f) > 0. && self.hit(h.p, u, Some(h.k)).is_none() {
                        l = add3(l, scale3(mul3(mul3(beta, f), *e), wl.2.abs()));
                    }
                }
            }
            // on
            let mut u = r.f64() * total;
            let mut next = None;
            for (wi, k) in &ways {
                let p = max3(*k);
                if u < p {
                    next = Some((wi.norm(), scale3(*k, total / p), None));
                    break;
                }
                u -= p;
            }
            if next.is_none() {
                if scat.is_empty() {
                    break;
                }
                let mx = Ways { lobes: &scat, w: wo };
                let wl = match mx.sample(r) {
                    Some(x) => x.norm(),
                    None => break,
                };
                let wi = s * wl.0 + t * wl.1 + n * wl.2;
                let f = self.value(&h, &scat, wo, wl, -d, wi);
                let q = mx.pdf(wl) * share;
                if !(q > 0.) || max3(f) == 0. {
                    break;
                }
                next = Some((wi.norm(), scale3(f, wl.2.abs() / q), Some(q)));
            }
            let (wi, k, q) = next.unwrap();
            beta = mul3(beta, k);
            density = q;
            o = h.p;
            d = wi;
            from = Some(h.k);
            if depth >= 4 {
                let q = max3(beta).min(0.95);
                if r.f64() >= q {
                    break;
                }
                beta = scale3(beta, 1. / q);
            }
        }
        l
    }
}

/// Directions by the lobes themselves.
struct Ways<'a> {
    lobes: &'a [Lobe],
    w: V,
}

fn upper(h: V) -> V {
    if h.2 < 0. { -h } else { h }
}

impl<'a> Ways<'a> {
    fn sample(&self, r: &mut Rng) -> Option<V> {
        let side = self.w.2.signum();
        let k = r.below(self.lobes.len() as u64 + 1) as usize;
        let (u, p) = (r.f64(), 2. * PI * r.f64());
        let micro = |ax: f64, ay: f64| {
            let m = (u / (1. - u)).sqrt();
            V(ax * m * p.cos(), ay * m * p.sin(), 1.).norm() * side
        };
        match self.lobes.get(k) {
            Some(&Lobe::Refl(_, ax, ay, _)) => {
                let h = micro(ax, ay);
                Some(h * (2. * self.w.dot(h)) - self.w)
            }
            Some(&Lobe::Trans(_, ax, ay, eta)) => {
                let h = micro(ax, ay);
                let e = if side > 0. { 1. / eta } else { eta };
                let c = self.w.dot(h);
                let st2 = e * e * (1. - c * c);
                if c <= 0. || st2 >= 1. {
                    return None;
                }
                Some((h * (e * c - (1. - st2).sqrt()) - self.w * e).norm())
            }
            _ => Some(V(u.sqrt() * p.cos(), u.sqrt() * p.sin(), (1. - u).sqrt() * side)),
        }
    }
    fn pdf(&self, wi: V) -> f64 {
        let cosine = (wi.2 * self.w.2.signum()).max(0.) / PI;
        let mut q = cosine;
        for l in self.lobes {
            q += match *l {
                Lobe::Refl(_, ax, ay, _) => {
                    let h = (self.w + wi).norm();
                    ggx_d(upper(h), ax, ay) * h.2.abs() / (4. * self.w.dot(h).abs())
                }
                Lobe::Trans(_, ax, ay, eta) => {
                    let (no, ni) = if self.w.2 > 0. { (1., eta) } else { (eta, 1.) };
                    let mut h = (self.w * no + wi * ni).norm();
                    if h.2 * self.w.2 < 0. {
                        h = -h;
                    }
                    let (co, ci) = (self.w.dot(h), wi.dot(h));
                    if co <= 0. || ci >= 0. {
                        0.
                    } else {
                        ggx_d(upper(h), ax, ay) * h.2.abs() * ni * ni * ci.abs() / (no * co + ni * ci).powi(2)
                    }
                }
                _ => cosine,
            };
        }
        q / (self.lobes.len() + 1) as f64
    }
}

fn material(src: &mut Src, closed: bool) -> (MatCase, Option<Checks>) {
    let plain = |m: MatCase| (m, None);
    match src.weighted(&[5, 2, 3, 3, 2, 2, 2, 3]) {
        0 => { let c = color(src, 0.8); plain(diffuse(c)) }
        1 => {
            let (a, b) = (color(src, 0.8), color(src, 0.8));
            if src.bool() {
                let mut g = || src.range(-6., 6.) as f32 as f64;
                let (su, sv, du, dv) = (g(), g(), g(), g());
                let tex = CheckerboardTexture::new(UVMapping2D::new(su as f32, sv as f32, du as f32, dv as f32), spec3(a), spec3(b));
                let mut m = diffuse(a);
                m.mat = Arc::new(LambertianReflectionMaterial::new(Arc::new(tex)));
                m.name = format!("uv checks {:?} {:?} of {:?}", a, b, [su, sv, du, dv]);
                return (m, Some(Checks::Uv(a, b, [su, sv, du, dv])));
            }
            let f = src.range(0.4, 3.) as f32 as f64;
            let t = Transform::scale(f as f32, f as f32, f as f32);
            let tex = Checkerboard3DTexture::new(IdentityMapping3D::new(t), spec3(a), spec3(b));
            let mut m = diffuse(a);
            m.mat = Arc::new(LambertianReflectionMaterial::new(Arc::new(tex)));
            m.name = format!("checks {:?} {:?} of {}", a, b, 1. / f);
            (m, Some(Checks::Space(a, b, f)))
        }
        2 => {
            let a = src.range(0.2, 0.9) as f32 as f64;
            let a2 = if src.pct(40) { src.range(0.2, 0.9) as f32 as f64 } else { a };
            let r = color(src, 0.95);
            let mut n = [0.; 3];
            let mut k = [0.; 3];
            for c in 0..3 {
                n[c] = src.logrange(0.1, 4.) as f32 as f64;
                k[c] = src.logrange(0.5, 6.) as f32 as f64;
            }
            plain(MatCase {
                mat: Arc::new(MetalMaterial::new(cs(r), cs(n), cs(k), cf(a), cf(a2))),
                lobes: vec![Lobe::Refl(r, a, a2, Fr::Cond(n, k))],
                name: format!("metal r={:?} eta={:?} k={:?} rough {} {}", r, n, k, a, a2),
                eta: 1.,
            })
        }
        3 => { let m = gen_mat(src, 2, false, 0.2); plain(m) }
        4 => { let m = gen_mat(src, 2, true, 0.2); plain(m) }
        5 => { let c = color(src, 0.95); plain(mirror(c)) }
        6 => {
            if !closed {
                let c = color(src, 0.8);
                return plain(diffuse(c));
            }
            let e = eta_gen(src);
            plain(clear_glass(e))
        }
        _ => {
            if !closed {
                let c = color(src, 0.8);
                return plain(diffuse(c));
            }
            let eta = eta_gen(src);
            let a = src.range(0.2, 0.8) as f32 as f64;
            let a2 = if src.pct(30) { src.range(0.2, 0.8) as f32 as f64 } else { a };
            let (r, t) = (color(src, 1.), color(src, 1.));
            plain(MatCase {
                mat: Arc::new(GlassMaterial::new(cs(r), cs(t), cf(eta), cf(a), cf(a2))),
                lobes: vec![Lobe::Refl(r, a, a2, Fr::Diel(1., eta)), Lobe::Trans(t, a, a2, eta)],
                name: format!("frosted glass kr={:?} kt={:?} eta={} rough {} {}", r, t, eta, a, a2),
                eta,
            })
        }
    }
}

/// checks whose cells end at the very surface are anybody's guess
/// Materials for interpolated normals.
fn calm_material(src: &mut Src) -> (MatCase, Option<Checks>) {
    loop {
        let m = material(src, false);
        if m.0.lobes.iter().all(|l| match l { Lobe::Lambert(_) | Lobe::SRefl(..) => true, _ => false }) {
            return m;
        }
        if src.exhausted() {
            return (diffuse([0.5; 3]), None);
        }
    }
}

fn bend(src: &mut Src, t: &mut Tri) {
    let n = t.gn().norm() * if src.bool() { 1. } else { -1. };
    let k = src.range(0.05, 0.35);
    let mut f = |s: &mut Src| { let v = (n + unit_dir(s) * k).norm().v(); Normal3f::from(v) };
    t.vn = Some([f(src), f(src), f(src)]);
}

fn undecided(t: &Tri, f: f64) -> bool {
    let v = t.d();
    (0..3).any(|k| {
        let x: Vec<f64> = v.iter().map(|p| p.get(k) * f).collect();
        let w = (x[0] - x[1]).abs().max((x[0] - x[2]).abs());
        w < 0.05 && (x[0] - x[0].round()).abs() < 0.02 + w
    })
}

fn quad(room: &mut Room, src: &mut Src, v: [V; 4], m: &(MatCase, Option<Checks>), le: Option<S3>, n: V) {
    for c in &[[0, 1, 2], [0, 2, 3]] {
        let mut t = Tri::new(v[c[0]], v[c[1]], v[c[2]]);
        if src.bool() {
            t.v.swap(1, 2);
        }
        t.rev = false;
        if emit_normal(&t).dot(n) < 0. {
            t.rev = true;
        }
        room.add(Sh::T(t), m, le);
    }
}

fn lamp(room: &mut Room, src: &mut Src, c: V, n: V, z: f64) {
    let (s, t, _) = frame(n, src.range(0., 6.28));
    let l = color(src, 4.);
    let m = if src.pct(30) { material(src, false) } else { (black(), None) };
    if src.bool() {
        let mut tri = Tri::new(c + s * z, c + t * z - s * (0.5 * z), c - t * z - s * (0.5 * z));
        if emit_normal(&tri).dot(n) < 0. {
            tri.rev = !tri.rev;
        }
        room.add(Sh::T(tri), &m, Some(l));
    } else {
        quad(room, src, [c + s * z + t * z, c - s * z + t * z, c - s * z - t * z, c + s * z - t * z], &m, Some(l), n);
    }
}

fn things(room: &mut Room, src: &mut Src, n: usize, mid: V, reach: f64, lo: f64, hi: f64) {
    for _ in 0..n {
        let c = mid + V(src.range(-1., 1.), src.range(-1., 1.), src.range(-1., 1.)) * reach;
        let size = src.logrange(lo, hi);
        match src.weighted(&[4, 3, 3]) {
            0 => {
                let m = material(src, true);
                room.add(Sh::S(c.p(), size as f32), &m, None);
            }
            1 => {
                // a block
                let m = material(src, true);
                let (a, b, n) = frame(unit_dir(src), src.range(0., 6.28));
                let (x, y, z) = (src.range(0.3, 1.) * size, src.range(0.3, 1.) * size, src.range(0.3, 1.) * size);
                for t in box_tris(V(-x, -y, -z), V(x, y, z)) {
                    let v: Vec<V> = t.d().iter().map(|p| c + a * p.0 + b * p.1 + n * p.2).collect();
                    let mut t = Tri::new(v[0], v[1], v[2]);
                    if emit_normal(&t).dot(t.centroid() - c) < 0. {
                        t.rev = !t.rev;
                    }
                    room.add(Sh::T(t), &m, None);
                }
            }
            _ => {
                let smooth = src.bool();
                let m = if smooth { calm_material(src) } else { material(src, false) };
                let mut t = tri_at(src, c, size * 1.5);
                t.vn = None;
                if smooth {
                    bend(src, &mut t);
                }
                if t.quality() < 0.05 {
                    continue;
                }
                room.add(Sh::T(t), &m, None);
            }
        }
    }
}

/// the radiance along a ray, to a relative error of `goal`, or of `most` if it takes more than `max` paths
fn reference(room: &Room, o: V, d: V, lamps: &[usize], seed: u64, goal: f64, most: f64, max: f64) -> Result<[Stat; 3], &'static str> {
    let mut r = Rng::new(seed);
    let mut st = [Stat::default(), Stat::default(), Stat::default()];
    let mut n = 3_000;
    let mut m;
    loop {
        for _ in 0..n {
            let l = room.path(o, d, lamps, &mut r);
            for c in 0..3 {
                st[c].add(l[c]);
            }
        }
        m = st.iter().map(|s| s.mean).fold(0., f64::max);
        if m < 1e-5 {
            break;
        }
        let rel = st.iter().map(|s| s.se()).fold(0., f64::max) / m;
        if rel < goal {
            break;
        }
        if rel * (st[0].n / max).sqrt() > 1.5 * most || st[0].n >= max && rel > most {
            return Err("too noisy");
        }
        if st[0].n >= max {
            break;
        }
        n = (st[0].n as usize).min(100_000);
    }
    // one path must not decide
    if st.iter().any(|s| s.max / s.n > 2. * s.se() && s.se() > 0.001 * m) {
        return Err("rare bright paths");
    }
    Ok(st)
}

fn c38_scene(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut room = Room { w: World::default(), flat: vec![], checks: vec![] };
    let closed = src.bool();
    let (mid, reach);
    if closed {
        let h = V(src.range(1.5, 3.), src.range(1.5, 3.), src.range(1.2, 2.5));
        let base = material(src, false);
        for k in 0..6 {
            let m = if src.pct(50) { material(src, false) } else { base.clone() };
            let at = |x: f64, y: f64| -> V {
                let e = if k < 3 { 1. } else { -1. };
                match k % 3 {
                    0 => V(e * h.0, x * h.1, y * h.2),
                    1 => V(x * h.0, e * h.1, y * h.2),
                    _ => V(x * h.0, y * h.1, e * h.2),
                }
            };
            let v = [at(-1., -1.), at(1., -1.), at(1., 1.), at(-1., 1.)];
            let le = if src.pct(12) { Some(color(src, 0.6)) } else { None };
            let n = at(0., 0.) * -1.;
            quad(&mut room, src, v, &m, le, n);
        }
        for _ in 0..src.usize(1, 2) {
            let n = (V(0., 0., -1.) + unit_dir(src) * 0.5).norm();
            let c = V(src.range(-0.4, 0.4) * h.0, src.range(-0.4, 0.4) * h.1, h.2 * src.range(0.5, 0.7));
            let z = src.range(0.3, 0.6);
            lamp(&mut room, src, c, n, z);
        }
        mid = V(0., 0., -0.2 * h.2);
        reach = 1.;
        let n = src.usize(0, 3);
        things(&mut room, src, n, mid, reach, 0.3, 0.8);
    } else {
        let m = material(src, false);
        let (k, z) = (src.range(3., 8.), -src.range(1., 2.5));
        quad(&mut room, src, [V(-k, -k, z), V(k, -k, z), V(k, k, z), V(-k, k, z)], &m, None, V(0., 0., 1.));
        mid = V(0., 0., 0.);
        reach = 1.5;
        let n = src.usize(1, 5);
        things(&mut room, src, n, mid, reach, 0.3, 1.2);
        for _ in 0..src.usize(0, 2) {
            let n = (V(0., 0., -1.) + unit_dir(src) * 0.6).norm();
            let c = V(src.range(-3., 3.), src.range(-3., 3.), src.range(1.5, 4.));
            let z = src.range(0.4, 1.2);
            lamp(&mut room, src, c, n, z);
        }
        for _ in 0..src.weighted(&[2, 2, 1]) {
            let l = color(src, 1.);
            room.w.dist.push((l, (V(0., 0., 1.) + unit_dir(src) * 0.8).norm()));
        }
    }
    for (o, c) in room.w.objs.iter().zip(&room.checks) {
        if let (Sh::T(t), Some(Checks::Space(_, _, f))) = (&o.sh, c) {
            if undecided(t, *f) {
                discard!();
            }
        }
    }
    let lamps: Vec<usize> = (0..room.w.objs.len()).filter(|k| room.w.objs[*k].le.is_some()).collect();
    if lamps.is_empty() && room.w.dist.is_empty() {
        discard!();
    }
    // f32 directions are what the scene gets
    for x in room.w.dist.iter_mut() {
        x.1 = x.1.v().d();
    }
    // a view
    let k = src.usize(0, room.w.objs.len() - 1);
    let target = room.w.objs[k].sh.surf(src);
    let o = if closed { mid + V(src.range(-1., 1.), src.range(-1., 1.), src.range(-0.8, 1.)) * 1.1 } else { V(src.range(-5., 5.), src.range(-5., 5.), src.range(-0.8, 4.)) };
    let d = target - o;
    if d.len() < 1e-2 {
        discard!();
    }
    let (o, d) = (o.p().d(), d.norm().v().d().norm());
    match room.w.nearest(o, d, None, 1.) {
        Ok(Some(h)) if d.dot(h.n).abs() > 0.02 => {}
        _ => discard!(),
    }
    let seed = src.seed();
    let smp = sampler_kind(src);
    let kd = src.bool();
    // some cases precisely, most fast
    let fine = src.pct(12);
    let st = match if fine { reference(&room, o, d, &lamps, seed, 0.003, 0.01, 200_000.) } else { reference(&room, o, d, &lamps, seed, 0.006, 0.015, 50_000.) } {
        Ok(st) => st,
        Err(why) => {
            ctx.label(why);
            discard!();
        }
    };
    let m = st.iter().map(|s| s.mean).fold(0., f64::max);
    if m < 1e-5 {
        discard!();
    }
    let wide = st.iter().any(|s| s.var().sqrt() > 2.5 * m);
    let k = if wide { 0.12 } else { 0.3 } / m;
    let expect = |st: &[Stat; 3], z: f64| {
        let mut e = [0.; 3];
        let mut slack = [0.; 3];
        for c in 0..3 {
            e[c] = st[c].mean * k;
            slack[c] = (z * st[c].se() + 0.002 * st[c].mean) * k + 1e-4;
        }
        (e, slack)
    };
    let (e, slack) = expect(&st, 3.);
    ctx.desc(|| format!("{}: along {:?} from {:?} {:?} (+-{:?})", room.w.name(), d, o, e, slack));
    let mut verdict = decide(ctx, |seed, spp| block_image(&room.w, [k; 3], o, d, smp, seed, spp, kd), e, slack, mix(&[seed, 9]), 16, if fine { 256 } else { 64 })?;
    if let Some(Err(_)) = verdict {
        // once more, with a better reference
        ctx.label("second reference");
        verdict = match reference(&room, o, d, &lamps, mix(&[seed, 3]), 0.0015, 0.01, 1_500_000.) {
            Ok(st) => {
                let (e, slack) = expect(&st, 6.);
                decide(ctx, |seed, spp| block_image(&room.w, [k; 3], o, d, smp, seed, spp, kd), e, slack, mix(&[seed, 10]), 64, 256)?
            }
            Err(_) => None,
        };
    }
    match verdict {
        None => discard!(),
        Some(Ok(())) => {
            ctx.nontrivial();
            ctx.label(if closed { "closed" } else { "open" });
            ctx.label(&format!("sees {}", {
                let h = room.hit(o, d, None).unwrap();
                let name = &room.w.objs[h.k].mat.name;
                name.split(' ').next().unwrap_or("").to_string()
            }));
        }
        Some(Err(m)) => fail!("{}: along {:?} from {:?}: {} (in units of 1/{})", room.w.name(), d, o, m, k),
    }
    Ok(())
}

pub static C38: Prop = Prop {
    id: "C38",
    rule: "case: a view of a lit scene whose average was compared with the independent path tracer's",
    assumptions: &[
        "roughness of 0.2 or more (the same in both directions or not) or none at all, lamps that are triangles; interpolated normals on diffuse and smooth surfaces",
        "averages are compared up to half a level of the written image, 0.2 percent, 5 standard errors of the reference and 4.5 of the picture, deviations confirmed twice at 7",
        "views whose reference stays noisy (more than 1.2 percent after 150000 paths) or depends on single paths are left out",
    ],
    subs: &[Sub { name: "scene", quick: 1_000, thorough: 60_000, f: c38_scene }],
};
