//! C33-C36: vector and colour arithmetic, scalar helpers, pixel boxes, random numbers.
use crate::engine::*;
use crate::m::U;
use crate::{discard, ensure, fail};
use pt::api::{RandomSampler, Spectrum};
use pt::verif as pv;
use pt::verif::{Axis, BBox2, BBox2f, BBox2i, BBox2u, Normal3f, Point2, Point2f, Point2i, Point2u, Point3f, Sampler, Vector2, Vector3f};

// ---------------------------------------------------------------- C33

/// A component: small integers, zeros of both signs, anything between 1e-12 and 1e12.
fn comp(src: &mut Src) -> f32 {
    let m = match src.weighted(&[4, 1, 4, 6, 1]) {
        0 => src.int(0, 9) as f64,
        1 => 0.,
        2 => src.range(0., 10.),
        3 => src.logrange(1e-12, 1e12),
        _ => src.pick(&[1., 0.5, 16777216., 1. + 1.2e-7, 1. - 6e-8, 1e-12, 1e12]),
    } as f32;
    if src.bool() { -m } else { m }
}

fn three(src: &mut Src) -> [f32; 3] {
    let mut a = [comp(src), comp(src), comp(src)];
    if src.pct(15) {
        // equal components
        let (i, j) = (src.usize(0, 2), src.usize(0, 2));
        a[i] = if src.bool() { -a[j] } else { a[j] };
    }
    a
}

/// got is want, correctly rounded up to k units
fn near(got: f32, want: f64, k: f64) -> bool {
    (got as f64 - want).abs() <= k * U * want.abs() + 1e-40
}

fn all3(got: [f32; 3], want: [f64; 3], k: f64) -> bool {
    (0..3).all(|i| near(got[i], want[i], k))
}

fn w3(f: impl Fn(usize) -> f64) -> [f64; 3] {
    [f(0), f(1), f(2)]
}

macro_rules! scalar_ops {
    ($name:ident, $t:ident, $x:ident, $y:ident, $z:ident) => {
        fn $name(a: [f32; 3], s: f32) -> R {
            let t = stringify!($t);
            let arr = |v: $t| [v.$x, v.$y, v.$z];
            let v = $t::new(a[0], a[1], a[2]);
            ensure!(arr(v) == a, "{}::new{:?} holds {:?}", t, a, v);
            let d = |i: usize| a[i] as f64;
            let s64 = s as f64;
            let z = arr($t::default());
            ensure!(z == [0.; 3], "{}::default() is {:?}", t, z);
            for (what, got, want) in [
                ("-v", arr(-v), w3(|i| -d(i))),
                ("abs", arr(v.abs()), w3(|i| d(i).abs())),
                ("v + s", arr(v + s), w3(|i| d(i) + s64)),
                ("v - s", arr(v - s), w3(|i| d(i) - s64)),
                ("v * s", arr(v * s), w3(|i| d(i) * s64)),
            ] {
                ensure!(all3(got, want, 1.01), "{} of the {} {:?} with s = {}: {:?}, expected {:?}", what, t, a, s, got, want);
            }
            let (mut p, mut q, mut r) = (v, v, v);
            p += s;
            q -= s;
            r *= s;
            ensure!(arr(p) == arr(v + s) && arr(q) == arr(v - s) && arr(r) == arr(v * s), "{} {:?}: +=, -=, *= {} give {:?} {:?} {:?}", t, a, s, p, q, r);
            if s != 0. {
                let got = arr(v / s);
                ensure!(all3(got, w3(|i| d(i) / s64), 3.), "the {} {:?} / {} is {:?}", t, a, s, got);
                let mut p = v;
                p /= s;
                ensure!(all3(arr(p), w3(|i| d(i) / s64), 3.), "the {} {:?} /= {} gives {:?}", t, a, s, p);
            }
            let len = (d(0) * d(0) + d(1) * d(1) + d(2) * d(2)).sqrt();
            ensure!(near(v.length(), len, 8.), "the length of the {} {:?} is {}, expected {}", t, a, v.length(), len);
            if len > 0. {
                let got = arr(v.normalize());
                ensure!(all3(got, w3(|i| d(i) / len), 12.), "the {} {:?} normalized is {:?}", t, a, got);
            }
            Ok(())
        }
    };
}
scalar_ops!(scalar_v, Vector3f, x, y, z);
scalar_ops!(scalar_n, Normal3f, x, y, z);
scalar_ops!(scalar_p, Point3f, x, y, z);
scalar_ops!(scalar_s, Spectrum, r, g, b);

fn c33_scalar(src: &mut Src, ctx: &mut Ctx) -> R {
    let a = three(src);
    let s = comp(src);
    match src.usize(0, 3) {
        0 => scalar_v(a, s)?,
        1 => scalar_n(a, s)?,
        2 => scalar_p(a, s)?,
        _ => scalar_s(a, s)?,
    }
    ctx.cmp();
    if a[0] != a[1] && a[1] != a[2] && a[0] != a[2] && s != 0. {
        ctx.nontrivial();
    }
    ctx.desc(|| format!("{:?} and {}", a, s));
    Ok(())
}

macro_rules! pair {
    ($what:expr, $a:expr, $b:expr, $op:tt, $opa:tt, $x:ident $y:ident $z:ident, $assign:expr) => {{
        let r = $a $op $b;
        let (ga, gb) = ([$a.$x, $a.$y, $a.$z], [$b.$x, $b.$y, $b.$z]);
        let got = [r.$x, r.$y, r.$z];
        let want = w3(|i| ga[i] as f64 $op gb[i] as f64);
        ensure!(all3(got, want, 3.), "{}: {:?} {} {:?} is {:?}", $what, ga, stringify!($op), gb, got);
        if $assign {
            let mut m = $a;
            m $opa $b;
            ensure!(all3([m.$x, m.$y, m.$z], want, 3.), "{}: {:?} {} {:?} gives {:?}", $what, ga, stringify!($opa), gb, [m.$x, m.$y, m.$z]);
        }
    }};
}

fn axis_of(k: usize) -> Axis {
    [Axis::X, Axis::Y, Axis::Z][k]
}
fn axis_no(a: Axis) -> usize {
    match a {
        Axis::X => 0,
        Axis::Y => 1,
        Axis::Z => 2,
    }
}

fn c33_pairs(src: &mut Src, ctx: &mut Ctx) -> R {
    let (a, b) = (three(src), three(src));
    let (va, vb) = (Vector3f::new(a[0], a[1], a[2]), Vector3f::new(b[0], b[1], b[2]));
    let (pa, pb) = (Point3f::new(a[0], a[1], a[2]), Point3f::new(b[0], b[1], b[2]));
    let (na, nb) = (Normal3f::new(a[0], a[1], a[2]), Normal3f::new(b[0], b[1], b[2]));
    let (sa, sb) = (Spectrum::new(a[0], a[1], a[2]), Spectrum::new(b[0], b[1], b[2]));
    let (da, db) = (w3(|i| a[i] as f64), w3(|i| b[i] as f64));
    ctx.desc(|| format!("{:?} {:?}", a, b));
    pair!("vector and vector", va, vb, +, +=, x y z, true);
    pair!("vector and vector", va, vb, -, -=, x y z, true);
    pair!("normal and normal", na, nb, +, +=, x y z, true);
    pair!("point and point", pa, pb, +, +=, x y z, true);
    pair!("point and vector", pa, vb, +, +=, x y z, true);
    pair!("point and vector", pa, vb, -, -=, x y z, true);
    {
        let v: Vector3f = pa - pb;
        ensure!(all3([v.x, v.y, v.z], w3(|i| da[i] - db[i]), 1.01), "the vector between the points {:?} and {:?} is {:?}", b, a, v);
    }
    pair!("colour and colour", sa, sb, +, +=, r g b, true);
    pair!("colour and colour", sa, sb, -, -=, r g b, true);
    pair!("colour and colour", sa, sb, *, *=, r g b, true);
    if b.iter().all(|x| *x != 0.) {
        pair!("colour and colour", sa, sb, /, /=, r g b, true);
    }
    // products
    let dot = (0..3).map(|i| da[i] * db[i]).sum::<f64>();
    let mag = (0..3).map(|i| (da[i] * db[i]).abs()).sum::<f64>();
    for (what, got) in [("vectors", va.dot(vb)), ("vector and normal", va.dot_n(nb)), ("normals", na.dot(nb))] {
        ensure!((got as f64 - dot).abs() <= 4. * U * mag + 1e-38, "dot of {} {:?} {:?} is {}, expected {}", what, a, b, got, dot);
    }
    let c = va.cross(vb);
    for i in 0..3 {
        let (j, k) = ((i + 1) % 3, (i + 2) % 3);
        let want = da[j] * db[k] - da[k] * db[j];
        let tol = 3. * U * ((da[j] * db[k]).abs() + (da[k] * db[j]).abs()) + 1e-38;
        ensure!(([c.x, c.y, c.z][i] as f64 - want).abs() <= tol, "{:?} x {:?} is {:?}: component {} should be {}", a, b, c, i, want);
    }
    // points
    let (lo, hi) = (pa.min(pb), pa.max(pb));
    for i in 0..3 {
        ensure!(lo[i] == a[i].min(b[i]) && hi[i] == a[i].max(b[i]), "points {:?} {:?}: min {:?} max {:?}", a, b, lo, hi);
    }
    let dist = w3(|i| (a[i] - b[i]) as f64).iter().map(|x| x * x).sum::<f64>().sqrt();
    ensure!(near(pa.distance(pb), dist, 8.), "distance of {:?} and {:?} is {}, expected {}", a, b, pa.distance(pb), dist);
    ctx.cmp();
    if (0..3).all(|i| a[i] != b[i] && a[i] != 0. && b[i] != 0.) {
        ctx.nontrivial();
    }
    Ok(())
}

fn c33_parts(src: &mut Src, ctx: &mut Ctx) -> R {
    let a = three(src);
    let mut v = Vector3f::new(a[0], a[1], a[2]);
    let mut p = Point3f::new(a[0], a[1], a[2]);
    let mut s = Spectrum::new(a[0], a[1], a[2]);
    ctx.desc(|| format!("{:?}", a));
    for k in 0..3 {
        let x = axis_of(k);
        ensure!(v[k] == a[k] && p[k] == a[k] && s[k] == a[k], "component {} of {:?} reads as {} {} {}", k, a, v[k], p[k], s[k]);
        ensure!(v[x] == a[k] && p[x] == a[k], "component {} of {:?} reads as {} {} by axis", k, a, v[x], p[x]);
        let (n, pr, (o1, o2)) = (axis_no(x.next()), axis_no(x.prev()), x.others());
        ensure!(n == (k + 1) % 3 && pr == (k + 2) % 3, "axis {}: next {} previous {}", k, n, pr);
        let (o1, o2) = (axis_no(o1), axis_no(o2));
        ensure!(o1 != k && o2 != k && o1 != o2, "axis {}: others {} {}", k, o1, o2);
    }
    // largest component
    let m = axis_no(v.max_abs_axis());
    ensure!((0..3).all(|i| a[m].abs() >= a[i].abs()), "the largest component of {:?} should be number {}", a, m);
    let mc = v.max_component();
    ensure!(mc == a[0].max(a[1]).max(a[2]), "the greatest component of {:?} should be {}", a, mc);
    // permutations
    let (i, j, k) = (src.usize(0, 2), src.usize(0, 2), src.usize(0, 2));
    let (q, r) = (v.permute(axis_of(i), axis_of(j), axis_of(k)), p.permute(axis_of(i), axis_of(j), axis_of(k)));
    let want = [a[i], a[j], a[k]];
    ensure!([q.x, q.y, q.z] == want && [r.x, r.y, r.z] == want, "{:?} permuted by {} {} {}: {:?} {:?}", a, i, j, k, q, r);
    // conversions
    let n = Normal3f::new(a[0], a[1], a[2]);
    let (v1, v2, n1, n2, p1) = (Vector3f::from(p), Vector3f::from(n), Normal3f::from(v), Normal3f::from(p), Point3f::from(v));
    for (what, g) in [("vector of point", [v1.x, v1.y, v1.z]), ("vector of normal", [v2.x, v2.y, v2.z]), ("normal of vector", [n1.x, n1.y, n1.z]), ("normal of point", [n2.x, n2.y, n2.z]), ("point of vector", [p1.x, p1.y, p1.z])] {
        ensure!(g == a, "{} {:?} is {:?}", what, a, g);
    }
    // writing one component leaves the others
    let (w, x) = (src.usize(0, 2), comp(src));
    let mut e = a;
    e[w] = x;
    let (mut v3, mut p3) = (v, p);
    v[w] = x;
    p[w] = x;
    s[w] = x;
    v3[axis_of(w)] = x;
    p3[axis_of(w)] = x;
    for g in [[v.x, v.y, v.z], [p.x, p.y, p.z], [s.r, s.g, s.b], [v3.x, v3.y, v3.z], [p3.x, p3.y, p3.z]] {
        ensure!(g == e, "{:?} with component {} set to {} is {:?}", a, w, x, g);
    }
    // spherical coordinates
    let (th, ph) = (src.range(0., 3.1415), src.range(-7., 7.) as f32);
    let (st, ct) = (th.sin() as f32, th.cos() as f32);
    let d = Vector3f::from_spherical_direction(st, ct, ph);
    let (f, st, ct) = (ph as f64, st as f64, ct as f64);
    let want = [st * f.cos(), st * f.sin(), ct];
    for i in 0..3 {
        ensure!((d[i] as f64 - want[i]).abs() <= 4. * U, "direction of sin, cos {} {} at angle {}: {:?}, expected {:?}", st, ct, ph, d, want);
    }
    ctx.cmp();
    if a[0].abs() != a[1].abs() && a[1].abs() != a[2].abs() && a[0].abs() != a[2].abs() {
        ctx.nontrivial();
    } else {
        ctx.label("ties");
    }
    Ok(())
}

fn c33_colour(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut a = three(src);
    if src.pct(30) {
        // mostly black
        for k in 0..3 {
            if src.pct(75) {
                a[k] = src.pick(&[0., -0.]);
            } else if src.bool() {
                a[k] = src.pick(&[1e-45, 1e-40, 1e-30, 1e-12, -1e-30]);
            }
        }
    }
    let s = Spectrum::new(a[0], a[1], a[2]);
    ctx.desc(|| format!("{:?}", s));
    let black = a.iter().all(|x| *x == 0.);
    ensure!(s.is_black() == black, "is_black of {:?} is {}", a, s.is_black());
    let wt = [0.212671, 0.715160, 0.072169];
    let y = (0..3).map(|i| wt[i] * a[i] as f64).sum::<f64>();
    let mag = (0..3).map(|i| (wt[i] * a[i] as f64).abs()).sum::<f64>();
    ensure!((s.y() as f64 - y).abs() <= 6. * U * mag + 1e-38, "the luminance of {:?} is {}, expected {}", a, s.y(), y);
    let q = s.abs().sqrt();
    ensure!(all3([q.r, q.g, q.b], w3(|i| (a[i].abs() as f64).sqrt()), 2.), "the root of |{:?}| is {:?}", a, q);
    let (x, y) = (comp(src), comp(src));
    let (lo, hi) = (x.min(y), x.max(y));
    let c = s.clamp(lo, hi);
    let want = [a[0].max(lo).min(hi), a[1].max(lo).min(hi), a[2].max(lo).min(hi)];
    ensure!([c.r, c.g, c.b] == want, "{:?} limited to {} .. {} is {:?}", a, lo, hi, c);
    let f = Spectrum::from(x);
    ensure!([f.r, f.g, f.b] == [x; 3], "the grey {} is {:?}", x, f);
    ctx.cmp();
    if want != a {
        ctx.nontrivial();
    }
    ctx.label(if black { "black" } else { "not black" });
    Ok(())
}

macro_rules! plane {
    ($name:ident, $num:ty, $wide:ty, $close:expr) => {
        fn $name(a: [$num; 2], b: [$num; 2], s: $num) -> R {
            let (va, vb) = (Vector2::new(a[0], a[1]), Vector2::new(b[0], b[1]));
            let (pa, pb) = (Point2::new(a[0], a[1]), Point2::new(b[0], b[1]));
            let close: fn($num, $wide) -> bool = $close;
            macro_rules! chk {
                ($what:expr, $r:expr, $f:expr) => {{
                    let r = $r;
                    for i in 0..2 {
                        let want: $wide = $f(a[i] as $wide, b[i] as $wide, s as $wide);
                        ensure!(close([r.x, r.y][i], want), "{} of {:?} {:?} {:?}: {:?}, component {} should be {:?}", $what, a, b, s, r, i, want);
                    }
                }};
            }
            type W = $wide;
            let add = |a: W, b: W, _: W| a + b;
            let sub = |a: W, b: W, _: W| a - b;
            chk!("vector + vector", va + vb, add);
            chk!("vector - vector", va - vb, sub);
            chk!("point + point", pa + pb, add);
            chk!("point + vector", pa + vb, add);
            chk!("point - vector", pa - vb, sub);
            let d: Vector2<$num> = pa - pb;
            chk!("point - point", d, sub);
            chk!("vector + n", va + s, |a: W, _: W, s: W| a + s);
            chk!("vector - n", va - s, |a: W, _: W, s: W| a - s);
            chk!("vector * n", va * s, |a: W, _: W, s: W| a * s);
            chk!("point + n", pa + s, |a: W, _: W, s: W| a + s);
            chk!("point - n", pa - s, |a: W, _: W, s: W| a - s);
            chk!("point * n", pa * s, |a: W, _: W, s: W| a * s);
            let zero = s as f64 == 0.;
            if !zero {
                chk!("vector / n", va / s, |a: W, _: W, s: W| a / s);
                chk!("point / n", pa / s, |a: W, _: W, s: W| a / s);
            }
            let (mut v1, mut v2, mut v3, mut v4) = (va, va, va, va);
            let (mut p1, mut p2, mut p3, mut p4) = (pa, pa, pa, pa);
            v1 += vb;
            v2 -= vb;
            v3 += s;
            v4 -= s;
            p1 += vb;
            p2 -= vb;
            p3 += s;
            p4 -= s;
            chk!("vector += vector", v1, add);
            chk!("vector -= vector", v2, sub);
            chk!("vector += n", v3, |a: W, _: W, s: W| a + s);
            chk!("vector -= n", v4, |a: W, _: W, s: W| a - s);
            chk!("point += vector", p1, add);
            chk!("point -= vector", p2, sub);
            chk!("point += n", p3, |a: W, _: W, s: W| a + s);
            chk!("point -= n", p4, |a: W, _: W, s: W| a - s);
            let (mut v1, mut p1) = (va, pa);
            v1 *= s;
            p1 *= s;
            chk!("vector *= n", v1, |a: W, _: W, s: W| a * s);
            chk!("point *= n", p1, |a: W, _: W, s: W| a * s);
            if !zero {
                let (mut v1, mut p1) = (va, pa);
                v1 /= s;
                p1 /= s;
                chk!("vector /= n", v1, |a: W, _: W, s: W| a / s);
                chk!("point /= n", p1, |a: W, _: W, s: W| a / s);
            }
            let c: Point2<$num> = Point2::from(va);
            let (lo, hi) = (pa.min(pb), pa.max(pb));
            for i in 0..2 {
                ensure!(va[i] == a[i] && pa[i] == a[i] && c[i] == a[i], "component {} of {:?} reads {:?} {:?} {:?}", i, a, va[i], pa[i], c[i]);
                let (l, h) = if a[i] < b[i] { (a[i], b[i]) } else { (b[i], a[i]) };
                ensure!([lo.x, lo.y][i] == l && [hi.x, hi.y][i] == h, "points {:?} {:?}: min {:?} max {:?}", a, b, lo, hi);
                let (mut m, mut n) = (va, pa);
                m[i] = s;
                n[i] = s;
                let mut want = a;
                want[i] = s;
                ensure!([m.x, m.y] == want && [n.x, n.y] == want, "{:?} with component {} set to {:?}: {:?} {:?}", a, i, s, m, n);
            }
            Ok(())
        }
    };
}
plane!(plane_f, f32, f64, |g, w| near(g, w, 3.));
plane!(plane_i, i32, i64, |g, w| g as i64 == w);

fn c33_plane(src: &mut Src, ctx: &mut Ctx) -> R {
    if src.bool() {
        let (a, b, s) = ([comp(src), comp(src)], [comp(src), comp(src)], comp(src));
        ctx.desc(|| format!("{:?} {:?} {}", a, b, s));
        plane_f(a, b, s)?;
        let v = Vector2::new(a[0], a[1]);
        ensure!([(-v).x, (-v).y] == [-a[0], -a[1]], "-{:?} is {:?}", a, -v);
        let p = Point2f::new(a[0], a[1]);
        let (f, c) = (p.floor(), p.ceil());
        for i in 0..2 {
            let (f, c) = ([f.x, f.y][i] as f64, [c.x, c.y][i] as f64);
            let x = a[i] as f64;
            ensure!(f.fract() == 0. && f <= x && x < f + 1., "floor of {:?} is {:?}", a, p.floor());
            ensure!(c.fract() == 0. && c >= x && x > c - 1., "ceil of {:?} is {:?}", a, p.ceil());
        }
        if a[0] != b[0] && a[1] != b[1] && a[0] != a[1] {
            ctx.nontrivial();
        }
    } else {
        let mut int = |src: &mut Src| match src.weighted(&[3, 2]) {
            0 => src.int(-20, 20) as i32,
            _ => src.int(-30000, 30000) as i32,
        };
        let (a, b, s) = ([int(src), int(src)], [int(src), int(src)], int(src));
        ctx.desc(|| format!("{:?} {:?} {}", a, b, s));
        plane_i(a, b, s)?;
        let v = Vector2::new(a[0], a[1]);
        ensure!([(-v).x, (-v).y] == [-a[0], -a[1]], "-{:?} is {:?}", a, -v);
        if a[0] != b[0] && a[1] != b[1] && a[0] != a[1] {
            ctx.nontrivial();
        }
        // conversions between kinds of points
        let (x, y) = (a[0].abs(), a[1].abs());
        let fr = src.range(0., 0.999);
        let f = Point2f::new((x as f64 + fr) as f32, (y as f64 + fr) as f32);
        let (ui, uf, iu, iff, fu, fi) = (Point2u::from(Point2i::new(x, y)), Point2u::from(f), Point2i::from(Point2u::new(x as u32, y as u32)), Point2i::from(f), Point2f::from(Point2u::new(x as u32, y as u32)), Point2f::from(Point2i::new(a[0], a[1])));
        ensure!([ui.x, ui.y] == [x as u32, y as u32], "unsigned of {} {} is {:?}", x, y, ui);
        let t = [f.x.trunc() as i64, f.y.trunc() as i64];
        ensure!([uf.x as i64, uf.y as i64] == t, "unsigned of {:?} is {:?}", f, uf);
        ensure!([iff.x as i64, iff.y as i64] == t, "integer of {:?} is {:?}", f, iff);
        ensure!([iu.x, iu.y] == [x, y], "signed of {} {} is {:?}", x, y, iu);
        ensure!([fu.x, fu.y] == [x as f32, y as f32] && [fi.x, fi.y] == [a[0] as f32, a[1] as f32], "float of {:?}: {:?} {:?}", a, fu, fi);
        let neg = Point2i::from(-f.floor());
        ensure!([neg.x as i64, neg.y as i64] == [-t[0], -t[1]], "integer of {:?} is {:?}", -f.floor(), neg);
    }
    ctx.cmp();
    Ok(())
}

pub static C33: Prop = Prop {
    id: "C33",
    rule: "case: components that differ from one another, so that mixing them up shows (colour: a limit that changes the colour)",
    assumptions: &["components between 1e-12 and 1e12 or zero, so that no intermediate result leaves the range of f32", "results may be rounded differently by a few units in the last place"],
    subs: &[
        Sub { name: "scalar", quick: 3_000_000, thorough: 300_000_000, f: c33_scalar },
        Sub { name: "pairs", quick: 2_000_000, thorough: 200_000_000, f: c33_pairs },
        Sub { name: "parts", quick: 2_000_000, thorough: 200_000_000, f: c33_parts },
        Sub { name: "colour", quick: 2_000_000, thorough: 200_000_000, f: c33_colour },
        Sub { name: "plane", quick: 2_000_000, thorough: 200_000_000, f: c33_plane },
    ],
};

// ---------------------------------------------------------------- C34

/// consecutive numbers for consecutive floats; both zeros are 0
fn rank(x: f32) -> i64 {
    let b = x.to_bits();
    let m = (b & 0x7fff_ffff) as i64;
    if b >> 31 == 1 { -m } else { m }
}

fn c34_next(src: &mut Src, ctx: &mut Ctx) -> R {
    let b0 = match src.weighted(&[6, 1, 1, 1]) {
        0 => src.below(1 << 32),
        1 => (src.below(2) << 31) | (src.below(256) << 23),
        2 => src.below(2) << 31,
        _ => (src.below(2) << 31) | 0x7f7f_ff00,
    };
    ctx.desc(|| format!("64 floats from bit pattern {:#x}", b0));
    for k in 0..64u64 {
        let x = f32::from_bits((b0 + k) as u32);
        if x.is_nan() {
            continue;
        }
        let (up, down) = (pv::next_float_up(x), pv::next_float_down(x));
        if x == f32::INFINITY {
            ensure!(up == x, "the float above infinity is {}", up);
        } else {
            ensure!(!up.is_nan() && rank(up) == rank(x) + 1 && up > x, "the float above {:e} ({:#x}) is {:e} ({:#x})", x, x.to_bits(), up, up.to_bits());
        }
        if x == f32::NEG_INFINITY {
            ensure!(down == x, "the float below -infinity is {}", down);
        } else {
            ensure!(!down.is_nan() && rank(down) == rank(x) - 1 && down < x, "the float below {:e} ({:#x}) is {:e} ({:#x})", x, x.to_bits(), down, down.to_bits());
        }
        ctx.cmp();
        if x.is_finite() {
            ctx.nontrivial();
        }
    }
    Ok(())
}

fn c34_scalar(src: &mut Src, ctx: &mut Ctx) -> R {
    let (x, y, z) = (comp(src), comp(src), comp(src));
    let (lo, hi) = (x.min(y), x.max(y));
    let c = pv::clamp(z, lo, hi);
    ensure!(c == z.max(lo).min(hi), "{} limited to {} .. {} is {}", z, lo, hi, c);
    let (i, j, k) = (src.int(-20, 20) as i32, src.int(-20, 20) as i32, src.int(-20, 20) as i32);
    let ci = pv::clamp(k, i.min(j), i.max(j));
    ensure!(ci == k.max(i.min(j)).min(i.max(j)), "{} limited to {} .. {} is {}", k, i.min(j), i.max(j), ci);
    let t = src.pick(&[0., 1., 0.5, 0.25, -1.]) + if src.bool() { src.unit() } else { 0. };
    let t = t as f32;
    let want = (1. - t as f64) * x as f64 + t as f64 * y as f64;
    let mag = x.abs() as f64 + y.abs() as f64;
    let got = pv::lerp(t, x, y);
    ensure!((got as f64 - want).abs() <= 8. * U * mag * (1. + t.abs() as f64), "mix of {} and {} at {} is {}, expected {}", x, y, t, got, want);
    let n = if src.bool() { src.int(0, 200) as f64 } else { src.range(0., 1e4) } as f32;
    let g = pv::gamma(n) as f64;
    let want = n as f64 * U / (1. - n as f64 * U);
    ensure!((g - want).abs() <= 4. * U * want, "gamma({}) is {}, expected {}", n, g, want);
    ctx.desc(|| format!("{} in {} .. {}; gamma({})", z, lo, hi, n));
    ctx.cmp();
    if z < lo || z > hi {
        ctx.nontrivial();
    }
    Ok(())
}

fn c34_quadratic(src: &mut Src, ctx: &mut Ctx) -> R {
    // coefficients by roots, by integers or at random
    let sgn = |src: &mut Src, m: f64| if src.bool() { -m } else { m };
    let kind = src.weighted(&[5, 3, 3]);
    let (a, b, c, exact) = match kind {
        0 => {
            let a = src.logrange(1e-6, 1e6);
            let a = sgn(src, a);
            let r = src.logrange(1e-9, 1e9);
            let r1 = sgn(src, r);
            let r2 = match src.weighted(&[3, 3, 2, 1, 1]) {
                0 => { let r = src.logrange(1e-9, 1e9); sgn(src, r) }
                1 => r1 * (1. + src.range(-0.5, 0.5)),
                2 => r1 * (1. + src.pick(&[1e-4, 1e-7, 1e-10, 0.])),
                3 => -r1,
                _ => 0.,
            };
            (a, -a * (r1 + r2), a * r1 * r2, None)
        }
        1 => {
            // exact discriminant
            let k = src.pick(&[10, 1000, 1_000_000]);
            let mut a = src.int(-k, k);
            if a == 0 {
                a = 1;
            }
            let (b, c) = (src.int(-k, k), src.int(-k, k));
            let disc = b as i128 * b as i128 - 4 * a as i128 * c as i128;
            (a as f64, b as f64, c as f64, Some(disc))
        }
        _ => {
            let mut v = || { let m = src.logrange(1e-6, 1e6); sgn(src, m) };
            (v(), v(), v(), None)
        }
    };
    if b == 0. && c == 0. {
        discard!();
    }
    let got = pv::quadratic(a, b, c);
    ctx.desc(|| format!("{:e} t^2 + {:e} t + {:e}: {:?}", a, b, c, got));
    let eps = 2.3e-16;
    let disc = b * b - 4. * a * c;
    let err = 4. * eps * (b * b + 4. * (a * c).abs());
    let (yes, no) = match exact {
        Some(d) => (d >= 0, d < 0),
        None => (disc > err, disc < -err),
    };
    ctx.cmp();
    match got {
        None => ensure!(!yes, "{:e} t^2 + {:e} t + {:e} has real roots, none found", a, b, c),
        Some((t0, t1)) => {
            ensure!(!no, "{:e} t^2 + {:e} t + {:e} has no real roots, found {:e} {:e}", a, b, c, t0, t1);
            ensure!(t0 <= t1, "{:e} t^2 + {:e} t + {:e}: roots {:e} {:e} are not in order", a, b, c, t0, t1);
            // tiny residuals; sum and product are those of the coefficients
            for t in [t0, t1] {
                let r = (a * t + b) * t + c;
                let mag = (a * t * t).abs() + (b * t).abs() + c.abs();
                ensure!(r.abs() <= 64. * eps * mag, "{:e} t^2 + {:e} t + {:e}: at its root {:e} the value is {:e}", a, b, c, t, r);
            }
            let (s, p) = (t0 + t1, t0 * t1);
            ensure!((s + b / a).abs() <= 64. * eps * (t0.abs() + t1.abs()), "{:e} t^2 + {:e} t + {:e}: roots {:e} {:e} sum to {:e}, expected {:e}", a, b, c, t0, t1, s, -b / a);
            ensure!((p - c / a).abs() <= 64. * eps * (c / a).abs(), "{:e} t^2 + {:e} t + {:e}: the product of the roots {:e} {:e} is {:e}, expected {:e}", a, b, c, t0, t1, p, c / a);
            ctx.nontrivial();
            ctx.label(if t0 > 0. { "both positive" } else if t1 < 0. { "both negative" } else { "mixed" });
        }
    }
    Ok(())
}

pub static C34: Prop = Prop {
    id: "C34",
    rule: "case: a finite float (next), a value outside the limits (scalar), a quadratic with real roots",
    assumptions: &["quadratic: a is not zero, b and c are not both zero; presence of roots is judged where f64 rounding of the discriminant cannot change its sign"],
    subs: &[
        Sub { name: "next", quick: 1_500_000, thorough: 200_000_000, f: c34_next },
        Sub { name: "scalar", quick: 4_000_000, thorough: 400_000_000, f: c34_scalar },
        Sub { name: "quadratic", quick: 6_000_000, thorough: 600_000_000, f: c34_quadratic },
    ],
};

// ---------------------------------------------------------------- C35

fn c35_iter(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut at = |src: &mut Src| -> i64 {
        match src.weighted(&[5, 3, 2, 1]) {
            0 => src.int(-8, 8),
            1 => src.int(-300, 300),
            2 => src.int(-100_000, 100_000),
            _ => src.pick(&[i32::MAX as i64 - 40, i32::MIN as i64 + 40]) + src.int(-39, 0),
        }
    };
    let (x0, y0) = (at(src), at(src));
    let mut side = |src: &mut Src| match src.weighted(&[6, 2, 1]) {
        0 => src.int(0, 6),
        1 => src.int(0, 40),
        _ => 0,
    };
    let (w, h) = (side(src), side(src));
    c35_iter_of((x0, y0), (w, h), src, ctx)
}
fn c35_large(src: &mut Src, ctx: &mut Ctx) -> R {
    let x0 = src.int(-100_000, 100_000);
    let y0 = src.int(-100_000, 100_000);
    let w = src.logrange(1., 400_000.) as i64;
    let h = src.logrange(1., 2_000_000. / w as f64) as i64;
    let (w, h) = if src.bool() { (w, h) } else { (h, w) };
    c35_iter_of((x0, y0), (w, h), src, ctx)
}
fn c35_iter_of((x0, y0): (i64, i64), (w, h): (i64, i64), src: &mut Src, ctx: &mut Ctx) -> R {
    let (x1, y1) = ((x0 + w).min(i32::MAX as i64), (y0 + h).min(i32::MAX as i64));
    let (w, h) = (x1 - x0, y1 - y0);
    // any two opposite corners describe the same box
    let (fx, fy) = (src.bool(), src.bool());
    let (ax, bx) = if fx { (x1, x0) } else { (x0, x1) };
    let (ay, by) = if fy { (y1, y0) } else { (y0, y1) };
    let b = BBox2i::new(Point2i::new(ax as i32, ay as i32), Point2i::new(bx as i32, by as i32));
    ctx.desc(|| format!("box of ({}, {}) and ({}, {})", ax, ay, bx, by));
    ensure!([b.min.x as i64, b.min.y as i64, b.max.x as i64, b.max.y as i64] == [x0, y0, x1, y1], "the box of the corners ({}, {}) and ({}, {}) is {:?} .. {:?}", ax, ay, bx, by, b.min, b.max);
    let d = b.diagonal();
    ensure!([d.x as i64, d.y as i64] == [w, h] && b.area() as i64 == w * h, "the box {:?} .. {:?} has the diagonal {:?} and the area {}", b.min, b.max, d, b.area());
    let mut n = 0i64;
    let mut it = b.iter();
    while let Some(p) = it.next() {
        ensure!(n < w * h, "the box {:?} .. {:?} yields more than {} pixels: {:?}", b.min, b.max, w * h, p);
        let want = (x0 + n % w, y0 + n / w);
        ensure!((p.x as i64, p.y as i64) == want, "pixel {} of the box {:?} .. {:?} is {:?}", n, b.min, b.max, p);
        n += 1;
    }
    ensure!(n == w * h, "the box {:?} .. {:?} yields {} pixels", b.min, b.max, n);
    ensure!(it.next().is_none() && it.next().is_none(), "the exhausted pixels of the box {:?} .. {:?} go on", b.min, b.max);
    ensure!(b.iter().count() as i64 == n, "iterating twice over {:?} .. {:?} differs", b.min, b.max);
    ctx.cmp();
    ctx.label(if n == 0 { "empty" } else { "pixels" });
    if w > 1 && h > 1 {
        ctx.nontrivial();
    }
    Ok(())
}

fn c35_convert(src: &mut Src, ctx: &mut Ctx) -> R {
    let v: Vec<i64> = (0..4).map(|_| if src.bool() { src.int(0, 20) } else { src.int(0, 100_000) }).collect();
    let neg = src.bool();
    let k = if neg { -1 } else { 1 };
    let i = BBox2i::new(Point2i::new((k * v[0]) as i32, (k * v[1]) as i32), Point2i::new((k * v[2]) as i32, (k * v[3]) as i32));
    let (lo, hi) = ([(k * v[0]).min(k * v[2]), (k * v[1]).min(k * v[3])], [(k * v[0]).max(k * v[2]), (k * v[1]).max(k * v[3])]);
    ctx.desc(|| format!("{:?} .. {:?}", lo, hi));
    let f = BBox2f::from(i);
    ensure!([f.min.x as i64, f.min.y as i64, f.max.x as i64, f.max.y as i64] == [lo[0], lo[1], hi[0], hi[1]], "{:?} .. {:?} becomes {:?} .. {:?}", lo, hi, f.min, f.max);
    if !neg {
        let u = BBox2u::from(i);
        let uf = BBox2f::from(u);
        ensure!([u.min.x as i64, u.min.y as i64, u.max.x as i64, u.max.y as i64] == [lo[0], lo[1], hi[0], hi[1]], "{:?} .. {:?} becomes {:?} .. {:?}", lo, hi, u.min, u.max);
        ensure!([uf.min.x, uf.min.y, uf.max.x, uf.max.y] == [f.min.x, f.min.y, f.max.x, f.max.y], "{:?} .. {:?} becomes {:?} .. {:?}", lo, hi, uf.min, uf.max);
        let fr = [src.unit() * 0.99, src.unit() * 0.99, src.unit() * 0.99, src.unit() * 0.99];
        let g = BBox2f { min: Point2f::new((lo[0] as f64 + fr[0]) as f32, (lo[1] as f64 + fr[1]) as f32), max: Point2f::new((hi[0] as f64 + fr[2]) as f32, (hi[1] as f64 + fr[3]) as f32) };
        let t = [g.min.x.trunc() as i64, g.min.y.trunc() as i64, g.max.x.trunc() as i64, g.max.y.trunc() as i64];
        let (gi, gu) = (BBox2i::from(g), BBox2u::from(g));
        ensure!([gi.min.x as i64, gi.min.y as i64, gi.max.x as i64, gi.max.y as i64] == t, "{:?} .. {:?} becomes {:?} .. {:?}", g.min, g.max, gi.min, gi.max);
        ensure!([gu.min.x as i64, gu.min.y as i64, gu.max.x as i64, gu.max.y as i64] == t, "{:?} .. {:?} becomes {:?} .. {:?}", g.min, g.max, gu.min, gu.max);
    }
    // boxes of real numbers
    let (x, y, z, w) = (comp(src), comp(src), comp(src), comp(src));
    let b: BBox2<f32> = BBox2::new(Point2f::new(x, y), Point2f::new(z, w));
    ensure!([b.min.x, b.min.y, b.max.x, b.max.y] == [x.min(z), y.min(w), x.max(z), y.max(w)], "the box of ({}, {}) and ({}, {}) is {:?} .. {:?}", x, y, z, w, b.min, b.max);
    let (dx, dy) = ((x.max(z) - x.min(z)) as f64, (y.max(w) - y.min(w)) as f64);
    let d = b.diagonal();
    ensure!(near(d.x, dx, 2.) && near(d.y, dy, 2.) && near(b.area(), dx * dy, 4.), "the box {:?} .. {:?} has the diagonal {:?} and the area {}", b.min, b.max, d, b.area());
    ctx.cmp();
    if lo[0] < hi[0] && lo[1] < hi[1] {
        ctx.nontrivial();
    }
    Ok(())
}

pub static C35: Prop = Prop {
    id: "C35",
    rule: "case: a box at least two pixels wide and high (iter), a box with an inside (convert)",
    assumptions: &["conversions to unsigned boxes start from boxes without negative coordinates"],
    subs: &[Sub { name: "iter", quick: 6_000_000, thorough: 200_000_000, f: c35_iter }, Sub { name: "large", quick: 3_000, thorough: 200_000, f: c35_large }, Sub { name: "convert", quick: 9_000_000, thorough: 300_000_000, f: c35_convert }],
};

// ---------------------------------------------------------------- C36

/// z-score of a count against a binomial
fn chi2(counts: &[u64]) -> f64 {
    let n: u64 = counts.iter().sum();
    let e = n as f64 / counts.len() as f64;
    counts.iter().map(|c| (*c as f64 - e) * (*c as f64 - e) / e).sum()
}

/// far beyond anything chance produces (one in 1e15 or so)
fn limit(bins: usize) -> f64 {
    let k = bins as f64 - 1.;
    k + 9. * (2. * k).sqrt() + 45.
}

/// One sampler used like a renderer does: pixels, samples, mixed requests.
fn c36_uniform(src: &mut Src, ctx: &mut Ctx) -> R {
    let spp = src.pick(&[1u32, 2, 3, 7, 16]);
    let n1 = src.usize(0, 6);
    let n2 = src.usize(if n1 == 0 { 1 } else { 0 }, 4);
    let order = src.bool();
    let total = if ctx.thorough { 60_000 } else { 20_000 };
    let mut s = RandomSampler::new(spp);
    let mut seq: Vec<f32> = Vec::with_capacity(total + 16);
    // values by position in the request list, pairs of one request
    let slots = n1 + 2 * n2;
    let mut px = 0;
    let mut slot_bins = vec![[0u64; 16]; slots];
    let mut pair_bins = vec![[0u64; 64]; n2];
    'all: loop {
        s.start_pixel(Point2i::new(px % 16, px / 16));
        px += 1;
        loop {
            let mut k = 0;
            for step in 0..n1 + n2 {
                let one = if order { step < n1 } else { step >= n2 };
                if one {
                    let v = s.get_1d();
                    slot_bins[k][((v * 16.) as usize).min(15)] += 1;
                    seq.push(v);
                    k += 1;
                } else {
                    let p = s.get_2d();
                    let j = if order { step - n1 } else { step };
                    pair_bins[j][((p.x * 8.) as usize).min(7) * 8 + ((p.y * 8.) as usize).min(7)] += 1;
                    for v in [p.x, p.y] {
                        slot_bins[k][((v * 16.) as usize).min(15)] += 1;
                        seq.push(v);
                        k += 1;
                    }
                }
            }
            if seq.len() >= total {
                break 'all;
            }
            if !s.start_next_sample() {
                break;
            }
        }
    }
    ctx.desc(|| format!("{} samples per pixel of {} single and {} paired values, {} values", spp, n1, n2, seq.len()));
    for v in &seq {
        ensure!(*v >= 0. && *v < 1., "a random value is {}", v);
    }
    for (k, b) in slot_bins.iter().enumerate() {
        let c = chi2(b);
        ensure!(c < limit(16), "value {} of each sample ({} single, {} paired, {} per pixel) is not uniform: chi2 {:.1}, counts {:?}", k, n1, n2, spp, c, b);
    }
    for (k, b) in pair_bins.iter().enumerate() {
        let c = chi2(b);
        ensure!(c < limit(64), "pair {} of each sample ({} single, {} paired, {} per pixel) is not uniform in the square: chi2 {:.1}, counts {:?}", k, n1, n2, spp, c, b);
    }
    // fine structure and dependence on earlier values
    for scale in [65536f32, 4194304.] {
        let mut fine = [0u64; 256];
        for v in &seq {
            fine[((*v * scale) as usize) & 255] += 1;
        }
        let c = chi2(&fine);
        ensure!(c < limit(256), "the digits of the values below 1/{} are not uniform: chi2 {:.1}", scale / 256., c);
    }
    let lags: Vec<usize> = (1..=8).chain([slots, 2 * slots, slots * spp as usize, 2 * slots * spp as usize, 3 * slots * spp as usize]).collect();
    for lag in lags {
        if lag == 0 || lag * 20 > seq.len() {
            continue;
        }
        let mut b = [0u64; 64];
        let (mut eq, mut n) = (0u64, 0u64);
        for k in lag..seq.len() {
            b[((seq[k] * 8.) as usize).min(7) * 8 + ((seq[k - lag] * 8.) as usize).min(7)] += 1;
            eq += (seq[k] == seq[k - lag]) as u64;
            n += 1;
        }
        let c = chi2(&b);
        ensure!(c < limit(64), "values {} apart depend on one another ({} single, {} paired, {} per pixel): chi2 {:.1}", lag, n1, n2, spp, c);
        ensure!(eq < 12, "{} of {} values repeat the value {} before", eq, n, lag);
        ctx.cmp();
    }
    ctx.nontrivial();
    Ok(())
}

/// Two samplers are independent.
fn c36_two(src: &mut Src, ctx: &mut Ctx) -> R {
    let spp = src.pick(&[1u32, 4]);
    let (mut a, mut b) = (RandomSampler::new(spp), RandomSampler::new(spp));
    let n = 4096;
    let draw = |s: &mut RandomSampler| -> Vec<f32> {
        let mut v = vec![];
        let mut k = 0;
        while v.len() < n {
            s.start_pixel(Point2i::new(k, 0));
            k += 1;
            loop {
                v.push(s.get_1d());
                if !s.start_next_sample() {
                    break;
                }
            }
        }
        v
    };
    let (x, y) = (draw(&mut a), draw(&mut b));
    let mut bins = [0u64; 64];
    let mut eq = 0;
    for k in 0..n {
        bins[((x[k] * 8.) as usize).min(7) * 8 + ((y[k] * 8.) as usize).min(7)] += 1;
        eq += (x[k] == y[k]) as usize;
    }
    let c = chi2(&bins);
    ctx.desc(|| format!("two samplers: chi2 {:.1}", c));
    ctx.cmp();
    if eq > 12 {
        fail!("two random samplers created one after the other agree in {} of {} values", eq, n);
    }
    ensure!(c < limit(64), "the values of two random samplers depend on one another: chi2 {:.1}", c);
    ctx.nontrivial();
    Ok(())
}

pub static C36: Prop = Prop {
    id: "C36",
    rule: "case: some ten thousand values drawn from one sampler, or two samplers compared",
    assumptions: &["chi-square tests with limits chance exceeds about once in 1e12 runs; the generator is seeded by the operating system, so a failure replays as a statement about the distribution, not value by value"],
    subs: &[Sub { name: "uniform", quick: 16_000, thorough: 300_000, f: c36_uniform }, Sub { name: "two", quick: 16_000, thorough: 200_000, f: c36_two }],
};
