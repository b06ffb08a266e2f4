//! C25, C27, C28: textures, scene building and meshes.
use crate::engine::*;
use crate::gen::*;
use crate::geom::{crosses, vertex_normals};
use crate::m::*;
use crate::optics::{color, s3};
use crate::optics::S3;
use crate::render::spec3;
use crate::xform::{compose, factor, mpoint, Model};
use crate::{discard, ensure, fail};
use pt::api::*;
use pt::verif::{BBox3f, Container, Interaction, Normal3f, Ray, Scene, Texture, VisibilityTester};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- C25

/// floor of a value known up to e; None if too close to a boundary
fn cell1(v: f64, e: f64) -> Option<i64> {
    let (a, b) = ((v - e).floor(), (v + e).floor());
    if a == b { Some(a as i64) } else { None }
}

fn tex_num(src: &mut Src) -> f64 {
    match src.weighted(&[8, 6, 4, 2, 1]) {
        0 => src.range(-20., 20.),
        1 => src.int(-12, 12) as f64,
        4 => {
            // far away, where cell numbers exceed 24 or 32 bits
            let m = src.logrange(1e6, 1e15) as f32 as f64;
            if src.bool() { m } else { -m }
        }
        2 => {
            let m = src.logrange(1e-3, 1e6);
            if src.bool() { m } else { -m }
        }
        _ => src.int(-12, 12) as f64 + src.pick(&[0.5, 0.25, -1e-3, 1e-3]),
    }
}

fn inter(p: V, uv: (f64, f64)) -> Interaction {
    Interaction { p: p.p(), uv: Point2f::new(uv.0 as f32, uv.1 as f32), n: V(0., 0., 1.).n(), sn: V(0., 0., 1.).n(), ..Default::default() }
}

/// two different values of either type
enum Two {
    F(f32, f32),
    S(S3, S3),
}

fn two(src: &mut Src) -> Two {
    if src.bool() {
        let a = src.range(-2., 2.) as f32;
        let b = a + src.pick(&[1., -0.5]) as f32;
        Two::F(a, b)
    } else {
        let a = color(src, 1.);
        let mut b = a;
        let k = src.usize(0, 2);
        b[k] = (b[k] + 0.5) as f32 as f64;
        Two::S(a, b)
    }
}

fn c25_plane(src: &mut Src, ctx: &mut Ctx) -> R {
    let par: Vec<f32> = (0..4)
        .map(|k| if k < 2 { src.pick(&[1f32, 2., -1., 10., 0.3, -3.7, 0.]) } else { src.pick(&[0f32, 0.5, -0.25, 3., -7.3]) })
        .collect();
    let par: Vec<f32> = par.iter().map(|p| if src.pct(40) { *p } else { tex_num(src) as f32 }).collect();
    let vals = two(src);
    // the surface point: free, or on a shape
    let i = if src.pct(70) {
        inter(V(tex_num(src), tex_num(src), tex_num(src)), (tex_num(src), tex_num(src)))
    } else {
        let c = point(src, 3.);
        let sh = shape_at(src, c, 1.).clone();
        let t = sh.surf(src);
        let d = dir(src);
        match sh.arc().intersect(&ray((t - d * 3.).p(), d.v(), f32::INFINITY)) {
            Some((i, _)) => i,
            None => discard!(),
        }
    };
    let (u, v) = (i.uv.x as f64, i.uv.y as f64);
    let s = u * par[0] as f64 + par[2] as f64;
    let t = v * par[1] as f64 + par[3] as f64;
    let e = |x: f64, k: f64, o: f64| 2. * U * ((x * k).abs() + o.abs());
    let (es, et) = (e(u, par[0] as f64, par[2] as f64), e(v, par[1] as f64, par[3] as f64));
    // whole numbers are exact
    let exact = |x: f64, k: f32, o: f32| {
        let p = x * k as f64;
        p == p as f32 as f64 && p + o as f64 == (p + o as f64) as f32 as f64
    };
    let es = if exact(u, par[0], par[2]) { 0. } else { es };
    let et = if exact(v, par[1], par[3]) { 0. } else { et };
    let (a, b) = match (cell1(s, es), cell1(t, et)) {
        (Some(a), Some(b)) => (a, b),
        _ => discard!(),
    };
    let even = (a + b).rem_euclid(2) == 0;
    let m = || UVMapping2D::new(par[0], par[1], par[2], par[3]);
    let what = format!("planar checkerboard, scale ({}, {}), shift ({}, {}), at uv ({}, {}): cell ({}, {})", par[0], par[1], par[2], par[3], u, v, a, b);
    ctx.desc(|| what.clone());
    ctx.cmp();
    if a < 0 || b < 0 {
        ctx.label("negative cell");
    }
    ctx.nontrivial();
    match vals {
        Two::F(x, y) => {
            let got = CheckerboardTexture::new(m(), x, y).evaluate(&i);
            ensure!(got == if even { x } else { y }, "{}: {} of {} / {}", what, got, x, y);
            let got = ConstantTexture::new(x).evaluate(&i);
            ensure!(got == x, "constant texture {} is {} at uv ({}, {})", x, got, u, v);
        }
        Two::S(x, y) => {
            let got = s3(CheckerboardTexture::new(m(), spec3(x), spec3(y)).evaluate(&i));
            ensure!(got == if even { x } else { y }, "{}: {:?} of {:?} / {:?}", what, got, x, y);
            let got = s3(ConstantTexture::new(spec3(x)).evaluate(&i));
            ensure!(got == x, "constant texture {:?} is {:?} at uv ({}, {})", x, got, u, v);
        }
    }
    Ok(())
}

fn c25_space(src: &mut Src, ctx: &mut Ctx) -> R {
    let (mut t, mut m, mut name) = (Transform::translate(0., 0., 0.), Model { m: M4::id(), i: M4::id(), em: M4([[0.; 4]; 4]), ei: M4([[0.; 4]; 4]) }, String::new());
    let n = src.usize(0, 2);
    for k in 0..n {
        let (a, b, s, _) = factor(src, false);
        if k == 0 {
            t = a;
            m = b;
            name = s;
        } else {
            t = a * t;
            m = compose(&b, &m);
            name = format!("{} * {}", s, name);
        }
    }
    let vals = two(src);
    let i = if src.pct(75) {
        inter(V(tex_num(src), tex_num(src), tex_num(src)), (tex_num(src), tex_num(src)))
    } else {
        let c = point(src, 3.);
        let sh = shape_at(src, c, 1.);
        let q = sh.surf(src);
        let d = dir(src);
        match sh.arc().intersect(&ray((q - d * 3.).p(), d.v(), f32::INFINITY)) {
            Some((i, _)) => i,
            None => discard!(),
        }
    };
    let p = i.p.d();
    let (q, e) = match mpoint(&m.m, &m.em, p) {
        Some(x) => x,
        None => discard!(),
    };
    let e = if n == 0 { V(0., 0., 0.) } else { e };
    let (a, b, c) = match (cell1(q.0, e.0), cell1(q.1, e.1), cell1(q.2, e.2)) {
        (Some(a), Some(b), Some(c)) => (a, b, c),
        _ => discard!(),
    };
    let even = (a + b + c).rem_euclid(2) == 0;
    let what = format!("spatial checkerboard mapped by [{}] at {:?}: cell ({}, {}, {})", name, p, a, b, c);
    ctx.desc(|| what.clone());
    ctx.cmp();
    ctx.nontrivial();
    if a < 0 || b < 0 || c < 0 {
        ctx.label("negative cell");
    }
    ctx.label(["identity", "one transform", "two transforms"][n]);
    match vals {
        Two::F(x, y) => {
            let got = Checkerboard3DTexture::new(IdentityMapping3D::new(t), x, y).evaluate(&i);
            ensure!(got == if even { x } else { y }, "{}: {} of {} / {}", what, got, x, y);
        }
        Two::S(x, y) => {
            let got = s3(Checkerboard3DTexture::new(IdentityMapping3D::new(t), spec3(x), spec3(y)).evaluate(&i));
            ensure!(got == if even { x } else { y }, "{}: {:?} of {:?} / {:?}", what, got, x, y);
        }
    }
    Ok(())
}

pub static C25: Prop = Prop {
    id: "C25",
    rule: "case: a texture evaluated at a point whose cell is decided",
    assumptions: &["points whose mapped coordinate lies within rounding of a cell boundary are skipped unless the mapping is exact there", "coordinates up to about 1e12"],
    subs: &[Sub { name: "plane", quick: 12_000_000, thorough: 300_000_000, f: c25_plane }, Sub { name: "space", quick: 8_000_000, thorough: 200_000_000, f: c25_space }],
};

// ---------------------------------------------------------------- C27

/// Hands the shapes out as the builder delivered them.
struct Catch {
    shapes: Arc<Mutex<Vec<Arc<dyn Shape>>>>,
    inner: KdTree,
}
impl Container for Catch {
    fn bbox(&self) -> BBox3f {
        self.inner.bbox()
    }
    fn intersect_p(&self, ray: &Ray) -> bool {
        self.inner.intersect_p(ray)
    }
    fn intersect(&self, ray: &Ray) -> Option<Interaction> {
        self.inner.intersect(ray)
    }
}

/// A light of the user's own.
struct Own {
    id: f32,
    seen: Arc<Mutex<Vec<(V, V)>>>,
}
impl Light for Own {
    fn is_delta(&self) -> bool {
        true
    }
    fn pre_process(&mut self, b: BBox3f) {
        self.seen.lock().unwrap().push((b.min.d(), b.max.d()));
    }
    fn sample_li(&self, i: &Interaction, _: Point2f) -> (pt::api::Vector3f, Spectrum, f32, VisibilityTester) {
        // borrow the visibility test of a distant light
        let mut d = DistantLight::new(Spectrum::new(self.id, 0., 0.), V(0., 0., 1.).v());
        d.pre_process(BBox3f::new(Point3f::new(0., 0., 0.), Point3f::new(1., 1., 1.)));
        d.sample_li(i, Point2f::new(0., 0.))
    }
    fn pdf_li(&self, _: &Interaction, _: pt::api::Vector3f) -> f32 {
        0.
    }
}

fn addr<T: ?Sized>(x: &T) -> usize {
    x as *const T as *const () as usize
}

fn key(b: &BBox3f) -> [u32; 6] {
    [b.min.x.to_bits(), b.min.y.to_bits(), b.min.z.to_bits(), b.max.x.to_bits(), b.max.y.to_bits(), b.max.z.to_bits()]
}

/// The triangle mirrored within its bounding box.
fn mirrored(t: &Tri) -> Tri {
    let mut r = t.clone();
    let (lo, hi) = (t.v.iter().map(|p| p.x).fold(f32::MAX, f32::min), t.v.iter().map(|p| p.x).fold(f32::MIN, f32::max));
    for p in r.v.iter_mut() {
        p.x = if p.x == lo {
            hi
        } else if p.x == hi {
            lo
        } else {
            (lo + hi - p.x).max(lo).min(hi)
        };
    }
    r
}

fn c27_build(src: &mut Src, ctx: &mut Ctx) -> R {
    let scale = src.pick(&[1., 100., 0.01]);
    let nshape = src.weighted(&[1, 2, 2, 2, 2, 2, 2, 2, 1, 1, 1, 1]);
    let narea = src.usize(0, 5);
    let ndist = src.usize(0, 3);
    let nown = src.usize(0, 2);
    // everything at a place of its own
    let mut order: Vec<(u8, usize)> = vec![];
    order.extend((0..nshape).map(|k| (0, k)));
    order.extend((0..narea).map(|k| (1, k)));
    order.extend((0..ndist).map(|k| (2, k)));
    order.extend((0..nown).map(|k| (3, k)));
    if order.is_empty() {
        discard!();
    }
    for i in (1..order.len()).rev() {
        let j = src.usize(0, i);
        order.swap(i, j);
    }
    let mut b = Builder::new();
    // the objects and their boxes, lights and radiances
    let mut objs: Vec<(Sh, bool)> = vec![];
    let mut boxes: HashMap<[u32; 6], (usize, usize)> = HashMap::new();
    let mut rad: Vec<f32> = vec![];
    let mut delta = 0;
    let mut seen = vec![];
    let mut dist: Vec<(V, f32)> = vec![];
    let spread = scale * src.pick(&[1., 3., 8.]);
    let far = src.pct(30);
    let mut story = String::new();
    for (kind, _) in &order {
        let id = rad.len() as f32 + 1.;
        match kind {
            0 | 1 => {
                let mut c = point(src, spread);
                if far && src.pct(20) {
                    // one object far out: it alone decides the extent
                    c = c * 10.;
                }
                let sz = scale * src.logrange(0.05, 0.5);
                let twin = if src.pct(15) { objs.last().cloned() } else { None };
                let sh = match twin {
                    // another shape in the very box of the one before
                    Some((Sh::T(mut t), _)) => {
                        if src.bool() {
                            t = mirrored(&t);
                        }
                        ctx.label("twins");
                        Sh::T(t)
                    }
                    Some((s, _)) if *kind == 0 => {
                        ctx.label("twins");
                        s
                    }
                    _ => if *kind == 1 { Sh::T(tri_at(src, c, sz)) } else { shape_at(src, c, sz) },
                };
                if let Sh::T(t) = &sh {
                    if t.quality() < 1e-3 {
                        discard!();
                    }
                }
                let e = boxes.entry(key(&sh.arc().bbox())).or_insert((0, 0));
                e.0 += 1;
                if *kind == 1 {
                    story.push('a');
                    if let Sh::T(t) = &sh {
                        b.add_area_light(AreaLight::new(Spectrum::new(id, 0., 0.), t.build(nomat())));
                    }
                    rad.push(id);
                } else {
                    story.push('s');
                    crate::geom::add_sh(&mut b, &sh);
                }
                objs.push((sh, *kind == 1));
            }
            2 => {
                story.push('d');
                let d = unit_dir(src);
                b.add_light(DistantLight::new(Spectrum::new(id, 0., 0.), d.v()));
                dist.push((d.v().d().norm(), id));
                rad.push(id);
                delta += 1;
            }
            _ => {
                story.push('o');
                let s = Arc::new(Mutex::new(vec![]));
                seen.push(s.clone());
                b.add_light(Own { id, seen: s });
                rad.push(id);
                delta += 1;
            }
        }
    }
    ctx.desc(|| format!("order {} (s shape, a area light, d distant light, o own light), scale {}", story, scale));
    let caught: Arc<Mutex<Vec<Arc<dyn Shape>>>> = Arc::new(Mutex::new(vec![]));
    let c2 = caught.clone();
    let mut calls = 0;
    let scene: Scene<Catch> = b.construct(|s| {
        calls += 1;
        *c2.lock().unwrap() = s.to_vec();
        Catch { shapes: c2.clone(), inner: KdTree::new(s, None) }
    });
    ctx.cmp();
    ensure!(calls == 1, "order {}: the container was built {} times", story, calls);
    let shapes = caught.lock().unwrap().clone();
    // every shape and area light once
    ensure!(shapes.len() == nshape + narea, "order {}: {} shapes and area lights were added, the container received {}", story, nshape + narea, shapes.len());
    for s in &shapes {
        match boxes.get_mut(&key(&s.bbox())) {
            Some(e) => e.1 += 1,
            None => fail!("order {}: the container received a shape that was not added", story),
        }
    }
    for (k, e) in &boxes {
        ensure!(e.0 == e.1, "order {}: a shape with box {:?} was added {} times and is held {} times", story, k.iter().map(|x| f32::from_bits(*x)).collect::<Vec<_>>(), e.0, e.1);
    }
    // every light once
    let lights = scene.lights();
    ensure!(lights.len() == rad.len(), "order {}: {} lights were added, the scene has {}", story, rad.len(), lights.len());
    let far_away = [V(3e4, 2e4, 1e4) * scale.max(1.), V(-2e4, 3e4, 5e3) * scale.max(1.), V(1e4, 5e3, -3e4) * scale.max(1.)];
    let mut found: HashMap<u32, usize> = HashMap::new();
    let mut nd = 0;
    let mut light_of = HashMap::new();
    for (k, l) in lights.iter().enumerate() {
        // seen from both sides of wherever it is
        let mut id = 0f32;
        for v in &far_away {
            for s in &[1., -1.] {
                let (_, li, _, _) = l.sample_li(&inter(*v * *s, (0., 0.)), Point2f::new(0.3, 0.3));
                id = id.max(li.r);
            }
        }
        if l.is_delta() {
            nd += 1;
        }
        *found.entry(id.to_bits()).or_insert(0) += 1;
        light_of.insert(k, id);
    }
    ensure!(nd == delta, "order {}: {} delta lights were added, the scene has {}", story, delta, nd);
    for r in &rad {
        let n = found.get(&r.to_bits()).cloned().unwrap_or(0);
        ensure!(n == 1, "order {}: light number {} is in the scene {} times", story, r, n);
    }
    // an emitter that is hit is the light
    for (k, (sh, emits)) in objs.iter().enumerate() {
        let t = sh.surf(src);
        let d = match sh {
            Sh::T(tr) => (tr.gn().norm() + unit_dir(src) * 0.3).norm(),
            Sh::S(c, _) => (c.d() - t).norm(),
        };
        let i = match scene.intersect(&ray((t - d * (0.01 * scale)).p(), d.v(), f32::INFINITY)) {
            Some(i) => i,
            None => {
                if let Sh::S(..) = sh {
                    continue;
                }
                ctx.label("missed emitter");
                continue;
            }
        };
        let s = match &i.shape {
            Some(s) => s.clone(),
            None => fail!("order {}: a hit names no shape", story),
        };
        ensure!(shapes.iter().any(|x| addr(&**x) == addr(&*s)), "order {}: the shape that was hit is none of the scene's", story);
        if key(&s.bbox()) != key(&sh.arc().bbox()) {
            continue;
        }
        if objs.iter().any(|(o, e)| *e != *emits && key(&o.arc().bbox()) == key(&s.bbox())) {
            continue;
        }
        let same: Vec<usize> = (0..lights.len()).filter(|&j| addr(&*lights[j]) == addr(&*s)).collect();
        ctx.cmp();
        if *emits {
            ensure!(same.len() == 1, "order {}: the emitter hit by a ray is {} of the scene's lights", story, same.len());
            // radiance seen from either side is the light's
            let a = i.le(d.v()).r.max(i.le((-d).v()).r);
            let id = light_of[&same[0]];
            ensure!(a == id, "order {}: a ray that hits light number {} is told it is light number {}", story, a, id);
            ctx.label("emitter recognised");
            ctx.nontrivial();
        } else {
            ensure!(same.is_empty(), "order {}: an ordinary shape is taken for a light", story);
            let a = i.le(d.v()).r.max(i.le((-d).v()).r);
            ensure!(a == 0., "order {}: an ordinary shape emits {}", story, a);
            ctx.label("ordinary shape");
        }
        let _ = k;
    }
    // lights were told the extent, once
    let mut lo = V(1e30, 1e30, 1e30);
    let mut hi = -lo;
    for (sh, _) in &objs {
        let bb = sh.arc().bbox();
        lo = V(lo.0.min(bb.min.x as f64), lo.1.min(bb.min.y as f64), lo.2.min(bb.min.z as f64));
        hi = V(hi.0.max(bb.max.x as f64), hi.1.max(bb.max.y as f64), hi.2.max(bb.max.z as f64));
    }
    for s in &seen {
        let v = s.lock().unwrap();
        ensure!(v.len() >= 1, "order {}: a light was never told the extent of the scene", story);
        if objs.is_empty() {
            continue;
        }
        // the last word counts
        let (a, b) = v[v.len() - 1];
        ensure!(
            a.0 <= lo.0 && a.1 <= lo.1 && a.2 <= lo.2 && b.0 >= hi.0 && b.1 >= hi.1 && b.2 >= hi.2,
            "order {}: a light was told the extent {:?} {:?}, the scene reaches from {:?} to {:?}", story, a, b, lo, hi
        );
        ctx.label("extent told");
    }
    // shadow tests of distant lights reach everything
    if objs.len() >= 2 {
        let rad_s = (hi - lo).len() * 0.5;
        for (d, id) in &dist {
            let l = lights.iter().enumerate().find(|(k, _)| light_of[k] == *id).unwrap().1;
            for _ in 0..6 {
                // from one object straight away from another one as seen from the light
                let (a, bk) = (src.usize(0, objs.len() - 1), src.usize(0, objs.len() - 1));
                let target = objs[bk].0.surf(src);
                let start = if src.bool() {
                    // behind the target, still inside the scene
                    let s = src.logrange(0.01, 1.) * 2. * rad_s;
                    target - *d * s
                } else {
                    objs[a].0.surf(src)
                };
                if (0..3).any(|k| start.get(k) < lo.get(k) || start.get(k) > hi.get(k)) {
                    continue;
                }
                let start = start.p().d();
                let i = inter(start, (0., 0.));
                let (wi, _, _, vis) = l.sample_li(&i, Point2f::new(0.5, 0.5));
                let wi = wi.d().norm();
                let mut blocked = Some(false);
                for (sh, _) in &objs {
                    // up to well outside of the scene
                    match crosses(sh, start, wi * (4.2 * rad_s)) {
                        Some(true) => {
                            blocked = Some(true);
                            break;
                        }
                        None => blocked = None,
                        Some(false) => {}
                    }
                }
                let want = match blocked {
                    Some(x) => !x,
                    None => continue,
                };
                ctx.cmp();
                let got = vis.unoccluded(&scene);
                ensure!(got == want, "order {}: from {:?} towards the distant light {:?} the way is {}, the shadow test says {}", story, start, d, if want { "free" } else { "blocked" }, if got { "free" } else { "blocked" });
                ctx.label(if want { "way free" } else { "way blocked" });
                ctx.nontrivial();
            }
        }
    }
    Ok(())
}

/// Many shapes and many lights.
fn c27_large(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut size = |src: &mut Src| if src.bool() { src.usize(0, 300) } else { src.logrange(200., 80_000.) as usize };
    let (ns, na, nd) = (size(src), size(src), size(src));
    let mut g = Src::random(src.seed());
    let src = &mut g;
    let mut order: Vec<u8> = vec![];
    order.extend((0..ns).map(|_| 0u8));
    order.extend((0..na).map(|_| 1u8));
    order.extend((0..nd).map(|_| 2u8));
    if order.is_empty() {
        discard!();
    }
    for i in (1..order.len()).rev() {
        let j = src.usize(0, i);
        order.swap(i, j);
    }
    let what = format!("{} shapes, {} area lights and {} distant lights", ns, na, nd);
    ctx.desc(|| what.clone());
    let mut b = Builder::new();
    let mut boxes: HashMap<[u32; 6], i64> = HashMap::new();
    let mut n = 0usize;
    let mut lo = V(1e30, 1e30, 1e30);
    let mut hi = -lo;
    let mut add = |bb: BBox3f| {
        *boxes.entry(key(&bb)).or_insert(0) += 1;
        lo = V(lo.0.min(bb.min.x as f64), lo.1.min(bb.min.y as f64), lo.2.min(bb.min.z as f64));
        hi = V(hi.0.max(bb.max.x as f64), hi.1.max(bb.max.y as f64), hi.2.max(bb.max.z as f64));
    };
    for k in &order {
        match k {
            0 => {
                let c = point(src, 50.);
                let sh = shape_at(src, c, 0.5);
                add(sh.arc().bbox());
                crate::geom::add_sh(&mut b, &sh);
            }
            1 => {
                let c = point(src, 50.);
                let t = tri_at(src, c, 0.5).build(nomat());
                add(t.bbox());
                n += 1;
                b.add_area_light(AreaLight::new(Spectrum::new(n as f32, 0., 0.), t));
            }
            _ => {
                n += 1;
                b.add_light(DistantLight::new(Spectrum::new(n as f32, 0., 0.), unit_dir(src).v()));
            }
        }
    }
    let caught: Arc<Mutex<Vec<Arc<dyn Shape>>>> = Arc::new(Mutex::new(vec![]));
    let c2 = caught.clone();
    let scene: Scene<Catch> = b.construct(|s| {
        *c2.lock().unwrap() = s.to_vec();
        Catch { shapes: c2.clone(), inner: KdTree::new(s, None) }
    });
    let shapes = caught.lock().unwrap().clone();
    ensure!(shapes.len() == ns + na, "{}: the container received {} shapes", what, shapes.len());
    for s in &shapes {
        *boxes.entry(key(&s.bbox())).or_insert(0) -= 1;
    }
    ensure!(boxes.values().all(|v| *v == 0), "{}: the shapes in the container are not those that were added", what);
    let lights = scene.lights();
    ensure!(lights.len() == n, "{}: the scene has {} lights", what, lights.len());
    ensure!(lights.iter().filter(|l| l.is_delta()).count() == nd, "{}: the scene has {} distant lights", what, lights.iter().filter(|l| l.is_delta()).count());
    let mut found = vec![0u32; n + 1];
    let far = [V(3e4, 2e4, 1e4), V(-2e4, 3e4, 5e3), V(1e4, 5e3, -3e4)];
    for l in lights.iter() {
        let mut id = 0f32;
        for v in &[far[0], -far[0], far[1], -far[1], far[2], -far[2]] {
            id = id.max(l.sample_li(&inter(*v, (0., 0.)), Point2f::new(0.3, 0.3)).1.r);
        }
        ensure!(id >= 1. && id as usize <= n, "{}: a light of the scene shines {}", what, id);
        found[id as usize] += 1;
    }
    if let Some(k) = (1..=n).find(|k| found[*k] != 1) {
        fail!("{}: light number {} is in the scene {} times", what, k, found[k]);
    }
    // emitters among the shapes are the lights
    let at: std::collections::HashSet<usize> = lights.iter().filter(|l| !l.is_delta()).map(|l| addr(&**l)).collect();
    let both = shapes.iter().filter(|s| at.contains(&addr(&***s))).count();
    ensure!(both == na && at.len() == na, "{}: {} of the area lights are among the shapes", what, both);
    ctx.cmp();
    ctx.nontrivial();
    let _ = (lo, hi);
    Ok(())
}

pub static C27: Prop = Prop {
    id: "C27",
    rule: "case: a scene in which an emitter was recognised or a distant light's shadow test compared",
    assumptions: &["shapes are told apart by their boxes, lights by their radiance", "shadow tests start inside the scene's box; objects within 1e-3 of the way's ends are skipped"],
    subs: &[Sub { name: "build", quick: 3_200_000, thorough: 40_000_000, f: c27_build }, Sub { name: "large", quick: 160, thorough: 6_000, f: c27_large }],
};

// ---------------------------------------------------------------- C28

fn bits(i: &Interaction, t: f32) -> Vec<u32> {
    let mut v = vec![t.to_bits()];
    for x in &[i.p.x, i.p.y, i.p.z, i.p_err.x, i.p_err.y, i.p_err.z, i.uv.x, i.uv.y, i.n.x, i.n.y, i.n.z, i.sn.x, i.sn.y, i.sn.z, i.dpdu.x, i.dpdu.y, i.dpdu.z, i.dpdv.x, i.dpdv.y, i.dpdv.z, i.wo.x, i.wo.y, i.wo.z] {
        v.push((x + 0.).to_bits());
    }
    v
}

fn c28_mesh(src: &mut Src, ctx: &mut Ctx) -> R {
    let nv = src.usize(3, 30);
    let nf = match src.weighted(&[1, 4, 2]) {
        0 => 0,
        1 => src.usize(1, 12),
        _ => src.usize(1, 60),
    };
    c28_mesh_of(nv, nf, 20, src, ctx)
}
fn c28_large(src: &mut Src, ctx: &mut Ctx) -> R {
    let (nv, nf, nn) = (src.logrange(200., 150_000.) as usize, src.logrange(200., 150_000.) as usize, src.logrange(200., 150_000.) as usize);
    let mut b = Src::random(src.seed());
    c28_mesh_of(nv, nf, nn, &mut b, ctx)
}
fn c28_mesh_of(nv: usize, nf: usize, max_nn: usize, src: &mut Src, ctx: &mut Ctx) -> R {
    let verts: Vec<Point3f> = (0..nv).map(|_| point(src, 3.).p()).collect();
    let tri = |src: &mut Src, n: usize, distinct: bool| -> [usize; 3] {
        let a = src.usize(0, n - 1);
        let mut b = src.usize(0, n - 1);
        let mut c = src.usize(0, n - 1);
        if distinct && n >= 3 {
            if b == a {
                b = (a + 1) % n;
            }
            while c == a || c == b {
                c = (c + 1) % n;
            }
        }
        [a, b, c]
    };
    let idx: Vec<[usize; 3]> = (0..nf).map(|_| { let d = src.pct(90); tri(src, nv, d) }).collect();
    // normals: none, for every face, for too few faces, vectors without indices
    let mode = src.weighted(&[3, 5, 2, 1, 1]);
    let nn = src.usize(1, max_nn);
    let normals: Vec<Normal3f> = (0..nn).map(|_| (unit_dir(src) * src.pick(&[1., 1., 2.5])).n()).collect();
    let nidx: Vec<[usize; 3]> = match mode {
        1 => (0..nf).map(|_| tri(src, nn, false)).collect(),
        2 if nf > 0 => { let k = src.usize(0, nf - 1); (0..k).map(|_| tri(src, nn, false)).collect() }
        4 => { let k = nf + src.usize(1, 3); (0..k).map(|_| tri(src, nn, false)).collect() }
        _ => vec![],
    };
    let with_normals = nf > 0 && nidx.len() >= nf;
    // one material value per mesh
    let mats: Vec<Arc<dyn Material>> = vec![nomat(), Arc::new(MirrorMaterial::new(crate::optics::cs([1.; 3])))];
    let mat = mats[src.usize(0, 1)].clone();
    let (vn, vni): (Option<Box<[Normal3f]>>, Option<Box<[[usize; 3]]>>) = match mode {
        0 => (None, None),
        3 => (Some(normals.clone().into_boxed_slice()), None),
        _ => (Some(normals.clone().into_boxed_slice()), Some(nidx.clone().into_boxed_slice())),
    };
    let got = Triangle::new_triangle_mesh(verts.clone().into_boxed_slice(), idx.clone().into_boxed_slice(), vn, vni, mat.clone());
    let what = format!("mesh of {} vertices, {} faces, {} normals, {} normal triples", nv, nf, nn, nidx.len());
    ctx.desc(|| what.clone());
    ctx.cmp();
    ensure!(got.len() == nf, "{}: {} triangles", what, got.len());
    for k in 0..nf {
        let f = idx[k];
        let v = [verts[f[0]], verts[f[1]], verts[f[2]]];
        let n = if with_normals { let m = nidx[k]; Some([normals[m[0]], normals[m[1]], normals[m[2]]]) } else { None };
        let alone = Triangle::new(v, n, false, mat.clone());
        let g = &got[k];
        ensure!(key(&g.bbox()) == key(&alone.bbox()), "{}: triangle {} has another box than its three vertices", what, k);
        ensure!(g.area().to_bits() == alone.area().to_bits(), "{}: triangle {} has area {}, alone {}", what, k, g.area(), alone.area());
        ensure!(Arc::as_ptr(&g.material()) as *const () == Arc::as_ptr(&mat) as *const (), "{}: triangle {} has another material", what, k);
        let c = (v[0].d() + v[1].d() + v[2].d()) * (1. / 3.);
        for _ in 0..3 {
            // asymmetric targets tell the corners apart
            let (a, b) = (src.range(0.05, 0.6), src.range(0.05, 0.35));
            let t = v[0].d() * (1. - a - b) + v[1].d() * a + v[2].d() * b;
            let d = if src.bool() { unit_dir(src) } else { (t - c).norm() + unit_dir(src) };
            let r = ray((t - d * 2.).p(), d.v(), src.pick(&[f32::INFINITY, 2.5, 1.9]));
            ctx.cmp();
            ensure!(g.intersect_p(&r) == alone.intersect_p(&r), "{}: triangle {} and the same triangle alone disagree about {}", what, k, ray_str(&r));
            match (g.intersect(&r), alone.intersect(&r)) {
                (None, None) => {}
                (Some((x, s)), Some((y, u))) => {
                    ensure!(bits(&x, s) == bits(&y, u), "{}: triangle {} is hit at {:?} normal {:?} uv {:?}, alone at {:?} normal {:?} uv {:?}", what, k, x.p, x.sn, x.uv, y.p, y.sn, y.uv);
                    ctx.nontrivial();
                    // the vertices themselves: parametric coordinates
                    if let (None, true) = (&n, (v[1].d() - v[0].d()).cross(v[2].d() - v[0].d()).len() > 1e-2) {
                        let p = v[0].d() * (1. - x.uv.x as f64) + v[1].d() * (x.uv.x as f64 - x.uv.y as f64) + v[2].d() * x.uv.y as f64;
                        ensure!((p - x.p.d()).len() < 1e-2, "{}: triangle {}: uv {:?} belong to {:?}, the hit is {:?}", what, k, x.uv, p, x.p);
                    }
                }
                _ => fail!("{}: triangle {} and the same triangle alone disagree about {}", what, k, ray_str(&r)),
            }
        }
        let u = Point2f::new(src.unit() as f32, src.unit() as f32);
        let (x, y) = (g.sample(u), alone.sample(u));
        ensure!(bits(&x, 0.) == bits(&y, 0.), "{}: triangle {} is sampled at {:?} normal {:?}, alone at {:?} normal {:?}", what, k, x.p, x.n, y.p, y.n);
    }
    ctx.label(["no normals", "normals", "too few normal triples", "normals without triples", "spare normal triples"][mode]);
    let _ = vertex_normals;
    Ok(())
}

pub static C28: Prop = Prop {
    id: "C28",
    rule: "case: a mesh of which at least one triangle was hit",
    assumptions: &["triangles built on their own are the reference; those are checked by C03 and C07", "normals count when there is a triple for every face"],
    subs: &[Sub { name: "mesh", quick: 2_400_000, thorough: 40_000_000, f: c28_mesh }, Sub { name: "large", quick: 120, thorough: 6_000, f: c28_large }],
};
