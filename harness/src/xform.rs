//! C08, C09: transforms and the camera against f64 matrices.
use crate::engine::*;
use crate::gen::*;
use crate::m::*;
use crate::{discard, ensure, fail};
use pt::api::*;
use pt::verif::{BBox3f, Camera, CameraSample, Interaction, Normal3f, Ray};

/// f64 model of a transform: matrix, inverse, and elementwise error bounds of the f32 versions.
#[derive(Clone)]
pub struct Model {
    pub m: M4,
    pub i: M4,
    pub em: M4,
    pub ei: M4,
}

fn absm(a: &M4) -> M4 {
    let mut r = *a;
    for x in r.0.iter_mut() {
        for y in x.iter_mut() {
            *y = y.abs();
        }
    }
    r
}
fn addm(a: &M4, b: &M4) -> M4 {
    let mut r = *a;
    for i in 0..4 {
        for j in 0..4 {
            r.0[i][j] += b.0[i][j];
        }
    }
    r
}
fn scalem(a: &M4, k: f64) -> M4 {
    let mut r = *a;
    for x in r.0.iter_mut() {
        for y in x.iter_mut() {
            *y *= k;
        }
    }
    r
}

/// error bound of a cofactor inverse computed in f32
fn inv_err(a: &M4) -> Option<(M4, M4)> {
    let inv = a.inv()?;
    let m = absm(a).0;
    // permanents of the minors bound the rounding of the cofactors
    let idx = |k: usize| -> [usize; 3] {
        match k {
            0 => [1, 2, 3],
            1 => [0, 2, 3],
            2 => [0, 1, 3],
            _ => [0, 1, 2],
        }
    };
    let perm3 = |r: [usize; 3], c: [usize; 3]| -> f64 {
        let mut s = 0.;
        for p in &[[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] {
            s += m[r[0]][c[p[0]]] * m[r[1]][c[p[1]]] * m[r[2]][c[p[2]]];
        }
        s
    };
    let mut perm4 = 0.;
    for j in 0..4 {
        perm4 += m[0][j] * perm3(idx(0), idx(j));
    }
    // determinant
    let b = a.0;
    let det3 = |r: [usize; 3], c: [usize; 3]| -> f64 {
        b[r[0]][c[0]] * (b[r[1]][c[1]] * b[r[2]][c[2]] - b[r[1]][c[2]] * b[r[2]][c[1]]) - b[r[0]][c[1]] * (b[r[1]][c[0]] * b[r[2]][c[2]] - b[r[1]][c[2]] * b[r[2]][c[0]])
            + b[r[0]][c[2]] * (b[r[1]][c[0]] * b[r[2]][c[1]] - b[r[1]][c[1]] * b[r[2]][c[0]])
    };
    let mut det = 0.;
    for j in 0..4 {
        det += if j % 2 == 0 { 1. } else { -1. } * b[0][j] * det3(idx(0), idx(j));
    }
    let mut e = M4([[0.; 4]; 4]);
    // rounding of the model itself
    let top = inv.0.iter().flatten().fold(0f64, |m, x| m.max(x.abs()));
    for i in 0..4 {
        for j in 0..4 {
            e.0[i][j] = 1e-13 * top + 12. * U * perm3(idx(j), idx(i)) / det.abs() + inv.0[i][j].abs() * (32. * U * perm4 / det.abs() + 2. * U);
        }
    }
    Some((inv, e))
}

fn from_f32(m: [[f32; 4]; 4]) -> M4 {
    let mut r = M4::id();
    for i in 0..4 {
        for j in 0..4 {
            r.0[i][j] = m[i][j] as f64;
        }
    }
    r
}

fn rows(a: [f64; 16]) -> M4 {
    let mut r = M4::id();
    for i in 0..16 {
        r.0[i / 4][i % 4] = a[i];
    }
    r
}

/// One factor: the transform under test, its model, a name, and whether it is affine.
pub fn factor(src: &mut Src, allow_projective: bool) -> (Transform, Model, String, bool) {
    let kinds: &[u64] = if allow_projective { &[3, 3, 3, 3, 3, 2, 3, 3, 2] } else { &[3, 3, 3, 3, 3, 2, 3, 0, 0] };
    let s = src.pick(&[1., 10., 100.]);
    match src.weighted(kinds) {
        0 => {
            let v = point(src, s).p();
            let d = v.d();
            let m = rows([1., 0., 0., d.0, 0., 1., 0., d.1, 0., 0., 1., d.2, 0., 0., 0., 1.]);
            let i = rows([1., 0., 0., -d.0, 0., 1., 0., -d.1, 0., 0., 1., -d.2, 0., 0., 0., 1.]);
            let z = scalem(&m, 0.);
            (Transform::translate(v.x, v.y, v.z), Model { m, i, em: z, ei: z }, format!("translate{:?}", d), true)
        }
        1 => {
            let mut f = |src: &mut Src| -> f32 {
                let k = match src.weighted(&[3, 2, 2]) {
                    0 => src.logrange(0.05, 20.),
                    1 => src.pick(&[1., 2., 0.5]),
                    _ => -src.logrange(0.05, 20.),
                };
                k as f32
            };
            let (x, y, z) = (f(src), f(src), f(src));
            let (a, b, c) = (x as f64, y as f64, z as f64);
            let m = rows([a, 0., 0., 0., 0., b, 0., 0., 0., 0., c, 0., 0., 0., 0., 1.]);
            let i = rows([1. / a, 0., 0., 0., 0., 1. / b, 0., 0., 0., 0., 1. / c, 0., 0., 0., 0., 1.]);
            (Transform::scale(x, y, z), Model { em: scalem(&m, 0.), ei: scalem(&absm(&i), U), m, i }, format!("scale({},{},{})", x, y, z), true)
        }
        k @ 2..=4 => {
            let deg = match src.weighted(&[3, 2]) {
                0 => src.range(-400., 400.),
                _ => src.int(-8, 8) as f64 * 45.,
            } as f32;
            let th = (deg as f64).to_radians();
            let (sn, cs) = (th.sin(), th.cos());
            let (m, t, n) = match k {
                2 => (rows([1., 0., 0., 0., 0., cs, -sn, 0., 0., sn, cs, 0., 0., 0., 0., 1.]), Transform::rotate_x(deg), "x"),
                3 => (rows([cs, 0., sn, 0., 0., 1., 0., 0., -sn, 0., cs, 0., 0., 0., 0., 1.]), Transform::rotate_y(deg), "y"),
                _ => (rows([cs, -sn, 0., 0., sn, cs, 0., 0., 0., 0., 1., 0., 0., 0., 0., 1.]), Transform::rotate_z(deg), "z"),
            };
            let i = m.inv().unwrap();
            let e = rows([1., 1., 1., 0., 1., 1., 1., 0., 1., 1., 1., 0., 0., 0., 0., 0.]);
            let e = scalem(&e, U * (2. * th.abs() + 4.));
            (t, Model { m, i, em: e, ei: e }, format!("rotate_{}({})", n, deg), true)
        }
        5 => {
            // look-at
            let pos = point(src, s).p();
            let look = (pos.d() + dir(src) * src.logrange(0.1, 10.)).p();
            let up = loop {
                let u = dir(src) * src.pick(&[1., 3., 0.2]);
                let d = (look.d() - pos.d()).norm();
                if u.norm().cross(d).len() > 0.1 {
                    break u;
                }
                if src.exhausted() {
                    break perp(d);
                }
            }
            .v();
            let d = (look.d() - pos.d()).norm();
            let c = up.d().norm().cross(d);
            let left = c.norm();
            let up2 = d.cross(left);
            let p = pos.d();
            let m = rows([left.0, up2.0, d.0, p.0, left.1, up2.1, d.1, p.1, left.2, up2.2, d.2, p.2, 0., 0., 0., 1.]);
            // direction error from the subtraction of nearby points, and the cross product
            let de = 8. * U * (1. + p.maxabs() / (look.d() - p).len()) / c.len();
            let mut em = scalem(&rows([1., 1., 1., 0., 1., 1., 1., 0., 1., 1., 1., 0., 0., 0., 0., 0.]), de);
            for r in 0..3 {
                em.0[r][3] = 0.;
            }
            let (i, mut ei) = inv_err(&m).unwrap();
            let pe = absm(&i).mul(&em).mul(&absm(&i));
            ei = addm(&ei, &scalem(&pe, 1.5));
            (Transform::look_at(pos, look, up), Model { m, i, em, ei }, format!("look_at({:?},{:?},{:?})", pos, look, up), true)
        }
        k @ 6..=7 => {
            // arbitrary matrix, affine (6) or not (7), well conditioned
            let mut a = [[0f32; 4]; 4];
            // of determinant one or minus one, or with many zeros and ones
            let special = src.weighted(&[3, 1, 1]);
            loop {
                if special > 0 {
                    for r in 0..3 {
                        for c in 0..3 {
                            a[r][c] = match special {
                                1 if r == c => src.pick(&[1., 1., -1.]) as f32,
                                1 if r < c => src.pick(&[0., 1., 0.5, -1., 2.]) as f32,
                                1 => 0.,
                                _ => src.pick(&[0., 1., 0., -1., 2., 0.5]) as f32,
                            };
                        }
                        a[r][3] = src.pick(&[0., 0., 0., 1., s]) as f32;
                    }
                    if special == 1 {
                        if src.bool() {
                            let (i, j) = (src.usize(0, 2), src.usize(0, 2));
                            a.swap(i, j);
                        }
                        if src.bool() {
                            // one axis longer, another one shorter
                            let (i, j, k) = (src.usize(0, 2), src.usize(0, 2), src.pick(&[2., 4., 3.]) as f32);
                            for c in 0..3 {
                                a[i][c] *= k;
                                a[j][c] /= k;
                            }
                        }
                    }
                }
                for r in 0..if special > 0 { 0 } else { 3 } {
                    for c in 0..3 {
                        a[r][c] = src.range(-2., 2.) as f32;
                    }
                    a[r][3] = coord(src, s) as f32;
                }
                a[3][3] = 1.;
                if k == 7 {
                    for c in 0..4 {
                        a[3][c] = src.range(-1., 1.) as f32;
                    }
                }
                let m = from_f32(a);
                if let Some(i) = m.inv() {
                    let d = if k == 7 { 4 } else { 3 };
                    let n3 = |x: &M4| (0..d).map(|r| (0..d).map(|c| x.0[r][c].abs()).sum::<f64>()).fold(0., f64::max);
                    if n3(&m) * n3(&i) < if k == 7 { 400. } else { 40. } {
                        break;
                    }
                }
                if src.exhausted() {
                    for r in 0..4 {
                        for c in 0..4 {
                            a[r][c] = if r == c { 1. } else { 0. };
                        }
                    }
                    break;
                }
            }
            let m = from_f32(a);
            let (i, ei) = inv_err(&m).unwrap();
            (Transform::from(a), Model { em: scalem(&m, 0.), ei, m, i }, if k == 7 { format!("matrix {:?}", a) } else { "affine".to_string() }, k == 6)
        }
        _ => {
            let fov = if src.pct(25) { 180. - src.logrange(1., 30.) } else { src.range(3., 150.) } as f32;
            let n = src.logrange(0.05, 5.) as f32;
            let f = n * src.logrange(2., 1000.) as f32;
            let (nd, fd) = (n as f64, f as f64);
            let k = 1. / ((fov as f64).to_radians() / 2.).tan();
            let p = rows([1., 0., 0., 0., 0., 1., 0., 0., 0., 0., fd / (fd - nd), -fd * nd / (fd - nd), 0., 0., 1., 0.]);
            let sc = rows([k, 0., 0., 0., 0., k, 0., 0., 0., 0., 1., 0., 0., 0., 0., 1.]);
            let m = sc.mul(&p);
            let (_, pie) = inv_err(&p).unwrap();
            let (pa, pb) = (fd / (fd - nd), -fd * nd / (fd - nd));
            let pi = rows([1., 0., 0., 0., 0., 1., 0., 0., 0., 0., 0., 1., 0., 0., 1. / pb, -pa / pb]);
            let sci = rows([1. / k, 0., 0., 0., 0., 1. / k, 0., 0., 0., 0., 1., 0., 0., 0., 0., 1.]);
            let i = pi.mul(&sci);
            let cnd = (1. + k) * 8. + 8. / (fov as f64).to_radians().sin();
            let em = scalem(&absm(&m), U * (cnd + 8. * fd / (fd - nd)));
            let ei = addm(&pie.mul(&absm(&sci)), &scalem(&absm(&i), U * (cnd + 8. * fd / (fd - nd) + 8. / k)));
            let ei = addm(&ei, &scalem(&absm(&i).mul(&em).mul(&absm(&i)), 1.));
            (Transform::perspective(fov, n, f), Model { m, i, em, ei }, format!("perspective({},{},{})", fov, n, f), false)
        }
    }
}

pub fn compose(a: &Model, b: &Model) -> Model {
    let e = |x: &M4, ex: &M4, y: &M4, ey: &M4| {
        let (ax, ay) = (absm(x), absm(y));
        let axe = addm(&ax, ex);
        let mut r = ex.mul(&ay);
        r = addm(&r, &axe.mul(ey));
        addm(&r, &scalem(&axe.mul(&addm(&ay, ey)), 4. * U))
    };
    Model { m: a.m.mul(&b.m), i: b.i.mul(&a.i), em: e(&a.m, &a.em, &b.m, &b.em), ei: e(&b.i, &b.ei, &a.i, &a.ei) }
}

/// model result and error of mapping a point
pub fn mpoint(m: &M4, e: &M4, p: V) -> Option<(V, V)> {
    let h = [p.0, p.1, p.2, 1.];
    let mut r = [0.; 4];
    let mut er = [0.; 4];
    for i in 0..4 {
        for j in 0..4 {
            r[i] += m.0[i][j] * h[j];
            er[i] += e.0[i][j] * h[j].abs() + 4. * U * m.0[i][j].abs() * h[j].abs();
        }
    }
    let w = r[3];
    if w.abs() < 20. * er[3] || w.abs() < 1e-6 {
        return None;
    }
    let f = |i: usize| (er[i] + (r[i] / w).abs() * er[3]) / w.abs() * 1.2 + 2. * U * (r[i] / w).abs();
    Some((V(r[0] / w, r[1] / w, r[2] / w), V(f(0), f(1), f(2))))
}

fn mvec(m: &M4, e: &M4, p: V) -> (V, V) {
    let h = [p.0, p.1, p.2];
    let mut r = [0.; 3];
    let mut er = [0.; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i] += m.0[i][j] * h[j];
            er[i] += e.0[i][j] * h[j].abs() + 4. * U * m.0[i][j].abs() * h[j].abs();
        }
    }
    (V(r[0], r[1], r[2]), V(er[0], er[1], er[2]))
}

fn tr(m: &M4) -> M4 {
    let mut r = *m;
    for i in 0..4 {
        for j in 0..4 {
            r.0[i][j] = m.0[j][i];
        }
    }
    r
}

fn within(got: V, want: V, err: V) -> bool {
    (0..3).all(|k| (got.get(k) - want.get(k)).abs() <= 2. * err.get(k) + 1e-13 * want.maxabs() + 1e-30)
}

fn c08_maps(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = match src.weighted(&[3, 3, 2]) {
        0 => 1,
        1 => 2,
        _ => src.usize(3, 6),
    };
    let proj = src.pct(25);
    let (mut t, mut md, mut name, mut affine) = factor(src, proj);
    for _ in 1..n {
        let (t2, m2, n2, a2) = factor(src, proj);
        if src.bool() {
            t = t * t2;
            md = compose(&md, &m2);
            name = format!("{} * {}", name, n2);
        } else {
            t = t2 * t;
            md = compose(&m2, &md);
            name = format!("{} * {}", n2, name);
        }
        affine = affine && a2;
    }
    ctx.desc(|| name.clone());
    ctx.label(if affine { "affine" } else { "projective" });
    if n > 1 {
        ctx.nontrivial();
    }
    let ti = t.inverse();
    for _ in 0..4 {
        let s = src.pick(&[1., 10., 100.]);
        // points
        let p = point(src, s).p();
        if mpoint(&md.m, &md.em, p.d()).is_none() || mpoint(&md.i, &md.ei, p.d()).is_none() {
            // (nearly) mapped to infinity
            ctx.label("infinite-point");
            continue;
        }
        let fw = t.apply(&p);
        let bw = t.inverse_apply(&p);
        ctx.cmp();
        ensure!(ti.apply(&p) == bw || bw.x.is_nan(), "inverse() and inverse_apply differ on {:?} for {}", p, name);
        ensure!(ti.inverse_apply(&p) == fw || fw.x.is_nan(), "inverse().inverse_apply and apply differ on {:?} for {}", p, name);
        if let Some((w, e)) = mpoint(&md.m, &md.em, p.d()) {
            ensure!(within(fw.d(), w, e), "{}: point {:?} maps to {:?}, should be {:?}", name, p, fw, w);
            // undone by the inverse
            if mpoint(&md.i, &md.ei, fw.d()).is_none() {
                continue;
            }
            let back = t.inverse_apply(&fw);
            if let (Some((_, e1)), Some((_, e2))) = (mpoint(&md.i, &md.ei, w), mpoint(&md.i, &scalem(&absm(&md.i), 0.), w)) {
                let (_, e3) = mvec(&absm(&md.i), &scalem(&md.i, 0.), e);
                let k = if affine { 1. } else { 20. };
                let e = (e1 + e2 + mvec(&absm(&md.i), &scalem(&md.i, 0.), e).0 + e3) * k;
                if affine {
                    ensure!(within(back.d(), p.d(), e), "{}: point {:?} maps to {:?} and back to {:?}", name, p, fw, back);
                } else if e.maxabs() < 1e-3 * s {
                    ctx.label("projective-roundtrip");
                    ensure!((back.d() - p.d()).maxabs() <= 1e-2 * s, "{}: point {:?} maps to {:?} and back to {:?}", name, p, fw, back);
                }
            }
        }
        if let Some((w, e)) = mpoint(&md.i, &md.ei, p.d()) {
            ensure!(within(bw.d(), w, e), "{}: point {:?} inversely maps to {:?}, should be {:?}", name, p, bw, w);
        }
        // vectors
        let v = (dir(src) * src.logrange(1e-2, 1e2)).v();
        let (w, e) = mvec(&md.m, &md.em, v.d());
        let fv = t.apply(&v);
        ensure!(within(fv.d(), w, e), "{}: vector {:?} maps to {:?}, should be {:?}", name, v, fv, w);
        let (w, e) = mvec(&md.i, &md.ei, v.d());
        let bv = t.inverse_apply(&v);
        ensure!(within(bv.d(), w, e), "{}: vector {:?} inversely maps to {:?}, should be {:?}", name, v, bv, w);
        // normals: transposed inverse
        let nn = (dir(src) * src.pick(&[1., 2.])).n();
        let (w, e) = mvec(&tr(&md.i), &tr(&md.ei), nn.d());
        let fnn = t.apply(&nn);
        ensure!(within(fnn.d(), w, e), "{}: normal {:?} maps to {:?}, should be {:?}", name, nn, fnn, w);
        let (w, e) = mvec(&tr(&md.m), &tr(&md.em), nn.d());
        let bnn = t.inverse_apply(&nn);
        ensure!(within(bnn.d(), w, e), "{}: normal {:?} inversely maps to {:?}, should be {:?}", name, nn, bnn, w);
        if affine {
            // normal stays perpendicular to tangents
            let tg = perp(nn.d().norm());
            let tv = tg.v();
            let slack = tv.d().dot(nn.d());
            let (_, e1) = mvec(&md.m, &md.em, tv.d());
            let (_, e2) = mvec(&tr(&md.i), &tr(&md.ei), nn.d());
            let a = t.apply(&tv).d();
            let b = fnn.d();
            let tol = 2. * (0..3).map(|k| e1.get(k) * b.get(k).abs() + e2.get(k) * a.get(k).abs()).sum::<f64>() + slack.abs();
            ensure!(a.dot(b).abs() <= tol + 1e-30, "{}: mapped normal {:?} is not perpendicular to the mapped tangent {:?}", name, fnn, a);
            // rays
            let r = Ray { origin: p, direction: v, t_max: src.pick(&[std::f32::INFINITY, 1., 37.5]) };
            for inv in &[false, true] {
                let (m, em) = if *inv { (&md.i, &md.ei) } else { (&md.m, &md.em) };
                let q = if *inv { t.inverse_apply(&r) } else { t.apply(&r) };
                ensure!(q.t_max == r.t_max, "{}: ray limit {} becomes {}", name, r.t_max, q.t_max);
                let (w, e) = mpoint(m, em, p.d()).unwrap();
                ensure!(within(q.origin.d(), w, e), "{}: ray origin {:?} maps to {:?}, should be {:?}", name, p, q.origin, w);
                let (w, e) = mvec(m, em, v.d());
                ensure!(within(q.direction.d(), w, e), "{}: ray direction {:?} maps to {:?}, should be {:?}", name, v, q.direction, w);
            }
        }
    }
    Ok(())
}

fn c08_boxes(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.usize(1, 3);
    let (mut t, mut md, mut name, _) = factor(src, false);
    for _ in 1..n {
        let (t2, m2, n2, _) = factor(src, false);
        t = t * t2;
        md = compose(&md, &m2);
        name = format!("{} * {}", name, n2);
    }
    let s = src.pick(&[1., 10.]);
    let (a, b) = (point(src, s).p(), point(src, s).p());
    let bx = BBox3f::new(a, b);
    ctx.desc(|| format!("{} on {:?}..{:?}", name, bx.min, bx.max));
    for inv in &[false, true] {
        let (m, em) = if *inv { (&md.i, &md.ei) } else { (&md.m, &md.em) };
        let o = if *inv { t.inverse_apply(&bx) } else { t.apply(&bx) };
        let (mut lo, mut hi, mut er) = (V(1e30, 1e30, 1e30), V(-1e30, -1e30, -1e30), V(0., 0., 0.));
        for k in 0..8 {
            let c = V(
                if k & 1 == 0 { bx.min.x } else { bx.max.x } as f64,
                if k & 2 == 0 { bx.min.y } else { bx.max.y } as f64,
                if k & 4 == 0 { bx.min.z } else { bx.max.z } as f64,
            );
            let (w, e) = mpoint(m, em, c).unwrap();
            lo = V(lo.0.min(w.0), lo.1.min(w.1), lo.2.min(w.2));
            hi = V(hi.0.max(w.0), hi.1.max(w.1), hi.2.max(w.2));
            er = V(er.0.max(e.0), er.1.max(e.1), er.2.max(e.2));
        }
        ctx.cmp();
        ctx.nontrivial();
        for k in 0..3 {
            let e = 2. * er.get(k) + 1e-30;
            ensure!(
                (o.min[k] as f64) <= lo.get(k) + e && (o.max[k] as f64) >= hi.get(k) - e,
                "{}: box {:?}..{:?} maps to {:?}..{:?} which does not contain all of its contents ({:?}..{:?})", name, bx.min, bx.max, o.min, o.max, lo, hi
            );
        }
    }
    Ok(())
}

fn c08_hits(src: &mut Src, ctx: &mut Ctx) -> R {
    let (t, md, name, _) = factor(src, false);
    let i = Interaction {
        p: point(src, 5.).p(),
        p_err: V(1e-6, 2e-6, 3e-6).v(),
        uv: Point2f::new(src.unit() as f32, src.unit() as f32),
        n: dir(src).n(),
        sn: dir(src).n(),
        dpdu: dir(src).v(),
        dpdv: (dir(src) * 2.).v(),
        wo: dir(src).v(),
        shape: None,
    };
    ctx.desc(|| format!("{} on hit {:?}", name, i.p));
    ctx.nontrivial();
    for inv in &[false, true] {
        let (m, em, mi, emi) = if *inv { (&md.i, &md.ei, &md.m, &md.em) } else { (&md.m, &md.em, &md.i, &md.ei) };
        let o = if *inv { t.inverse_apply(&i) } else { t.apply(&i) };
        ctx.cmp();
        let (w, e) = mpoint(m, em, i.p.d()).unwrap();
        ensure!(within(o.p.d(), w, e), "{}: hit point {:?} maps to {:?}", name, i.p, o.p);
        ensure!(o.uv == i.uv, "{}: hit uv changed", name);
        let nv = |x: &Normal3f, y: &Normal3f| {
            let (w, e) = mvec(&tr(mi), &tr(emi), x.d());
            within(y.d(), w, e)
        };
        let vv = |x: &Vector3f, y: &Vector3f| {
            let (w, e) = mvec(m, em, x.d());
            within(y.d(), w, e)
        };
        ensure!(nv(&i.n, &o.n) && nv(&i.sn, &o.sn), "{}: hit normals {:?} {:?} map to {:?} {:?}", name, i.n, i.sn, o.n, o.sn);
        ensure!(vv(&i.dpdu, &o.dpdu) && vv(&i.dpdv, &o.dpdv) && vv(&i.wo, &o.wo), "{}: hit tangents or direction map wrongly", name);
    }
    Ok(())
}

// ------------------------------------------------------------------ C09

fn c09_rays(src: &mut Src, ctx: &mut Ctx) -> R {
    let s = src.pick(&[1., 10., 100.]);
    // rigid pose
    let (pose, pm, pname) = match src.weighted(&[3, 2, 1]) {
        0 => {
            let pos = point(src, s).p();
            let look = (pos.d() + dir(src) * (s * src.logrange(0.1, 10.))).p();
            let d = (look.d() - pos.d()).norm();
            let up = if src.bool() {
                (perp(d) * src.range(0.3, 2.) + d * src.range(-1., 1.)).v()
            } else {
                let u = src.pick(&[V(0., 1., 0.), V(0., 0., 1.), V(1., 0., 0.)]);
                if u.cross(d).len() < 0.2 { perp(d).v() } else { u.v() }
            };
            let left = up.d().norm().cross(d).norm();
            let up2 = d.cross(left);
            let p = pos.d();
            let m = rows([left.0, up2.0, d.0, p.0, left.1, up2.1, d.1, p.1, left.2, up2.2, d.2, p.2, 0., 0., 0., 1.]);
            (Transform::look_at(pos, look, up), m, format!("look_at({:?},{:?},{:?})", pos, look, up))
        }
        1 => {
            let (x, y, z) = (src.range(-180., 180.) as f32, src.range(-180., 180.) as f32, src.range(-180., 180.) as f32);
            let v = point(src, s).p();
            let rad = |d: f32| (d as f64).to_radians();
            let (sx, cx, sy, cy, sz, cz) = (rad(x).sin(), rad(x).cos(), rad(y).sin(), rad(y).cos(), rad(z).sin(), rad(z).cos());
            let rx = rows([1., 0., 0., 0., 0., cx, -sx, 0., 0., sx, cx, 0., 0., 0., 0., 1.]);
            let ry = rows([cy, 0., sy, 0., 0., 1., 0., 0., -sy, 0., cy, 0., 0., 0., 0., 1.]);
            let rz = rows([cz, -sz, 0., 0., sz, cz, 0., 0., 0., 0., 1., 0., 0., 0., 0., 1.]);
            let d = v.d();
            let tm = rows([1., 0., 0., d.0, 0., 1., 0., d.1, 0., 0., 1., d.2, 0., 0., 0., 1.]);
            (
                Transform::translate(v.x, v.y, v.z) * Transform::rotate_x(x) * Transform::rotate_y(y) * Transform::rotate_z(z),
                tm.mul(&rx).mul(&ry).mul(&rz),
                format!("translate{:?} rx{} ry{} rz{}", d, x, y, z),
            )
        }
        _ => (Transform::translate(0., 0., 0.), M4::id(), "identity".to_string()),
    };
    let fov = match src.weighted(&[3, 1, 1]) {
        0 => src.pick(&[90., 45., 20., 120.]) + src.range(-5., 5.),
        1 => 180. - src.logrange(0.5, 60.),
        _ => src.logrange(0.2, 20.),
    };
    let fov = fov as f32;
    let near = src.logrange(1e-2, 1.) as f32;
    let far = near * src.logrange(10., 1e4) as f32;
    let cts = Transform::perspective(fov, near, far);
    let res = Point2u::new(src.usize(1, 2000) as u32, src.usize(1, 2000) as u32);
    let (x0, x1, y0, y1) = match src.weighted(&[3, 3]) {
        0 => {
            let a = res.x as f64 / res.y as f64;
            if a > 1. { (-a, a, -1., 1.) } else { (-1., 1., -1. / a, 1. / a) }
        }
        _ => {
            let (x, y) = (src.range(-2., 1.), src.range(-2., 1.));
            (x, x + src.range(0.2, 3.), y, y + src.range(0.2, 3.))
        }
    };
    let win = BBox2f::new(Point2f::new(x0 as f32, y0 as f32), Point2f::new(x1 as f32, y1 as f32));
    let cam = PerspectiveCamera::new(pose, cts, win, res);
    let tan = ((fov as f64).to_radians() / 2.).tan();
    let (wx0, wx1, wy0, wy1) = (win.min.x as f64, win.max.x as f64, win.min.y as f64, win.max.y as f64);
    for _ in 0..12 {
        let px = match src.weighted(&[4, 1, 1]) {
            0 => src.unit(),
            1 => src.pick(&[0., 1., 0.5]),
            _ => src.range(-0.1, 1.1),
        } * res.x as f64;
        let py = match src.weighted(&[4, 1, 1]) {
            0 => src.unit(),
            1 => src.pick(&[0., 1., 0.5]),
            _ => src.range(-0.1, 1.1),
        } * res.y as f64;
        let pf = Point2f::new(px as f32, py as f32);
        let r = cam.generate_ray(&CameraSample { p_film: pf });
        ctx.cmp();
        ctx.nontrivial();
        ctx.desc(|| format!("{} fov {} window {:?}..{:?} res {:?} film {:?}", pname, fov, win.min, win.max, res, pf));
        let sx = wx0 + pf.x as f64 / res.x as f64 * (wx1 - wx0);
        let sy = wy1 - pf.y as f64 / res.y as f64 * (wy1 - wy0);
        let dc = V(sx * tan, sy * tan, 1.);
        let want = pm.vector(dc.norm());
        let got = r.direction.d();
        let scr = (wx0.abs() + wx1.abs() + wy0.abs() + wy1.abs() + 1.) * tan;
        let tol = U * (64. + 48. * scr) + 16. * U / (fov as f64).to_radians().sin() + 24. * U * far as f64 / (far as f64 - near as f64);
        // rounding of the pose itself
        let tol = tol + 32. * U;
        let what = || format!("{} fov {} near {} far {} window {:?}..{:?} resolution {:?} film position {:?}", pname, fov, near, far, win.min, win.max, res, pf);
        ensure!((got.len() - 1.).abs() < 64. * U, "camera ray direction {:?} is not a unit vector; {}", r.direction, what());
        let org = V(pm.0[0][3], pm.0[1][3], pm.0[2][3]);
        ensure!((r.origin.d() - org).maxabs() <= 4. * U * org.maxabs(), "camera ray starts at {:?}, camera is at {:?}; {}", r.origin, org, what());
        ensure!(r.t_max == f32::INFINITY, "camera ray is limited; {}", what());
        let pose_tol = if pname.starts_with("look") { 64. * U * 100. } else { 16. * U * 4. };
        ensure!((got - want).len() <= tol + pose_tol, "camera ray direction {:?}, should be {:?} (off by {:e}, tolerance {:e}); {}", r.direction, want, (got - want).len(), tol + pose_tol, what());
        // clone generates the same ray
        let r2 = cam.clone().generate_ray(&CameraSample { p_film: pf });
        ensure!(r2.direction == r.direction && r2.origin == r.origin, "cloned camera generates another ray; {}", what());
    }
    let _ = || -> R { discard!() };
    if false {
        fail!("");
    }
    Ok(())
}

pub static C08: Prop = Prop {
    id: "C08",
    rule: "a composition of at least two factors (maps), a mapped box, or a mapped surface interaction",
    assumptions: &["tolerances follow an elementwise running error bound of f32 arithmetic", "matrices are well conditioned", "boxes and rays are mapped by affine transforms only"],
    subs: &[
        Sub { name: "maps", quick: 4_000_000, thorough: 32_000_000, f: c08_maps },
        Sub { name: "boxes", quick: 4_000_000, thorough: 32_000_000, f: c08_boxes },
        Sub { name: "hits", quick: 2_000_000, thorough: 16_000_000, f: c08_hits },
    ],
};
pub static C09: Prop = Prop {
    id: "C09",
    rule: "a generated camera ray compared with the f64 pinhole model",
    assumptions: &["poses are rigid, screen windows are non-empty"],
    subs: &[Sub { name: "rays", quick: 6_000_000, thorough: 48_000_000, f: c09_rays }],
};
