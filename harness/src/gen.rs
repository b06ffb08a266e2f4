//! Generators of geometry, and small implementations of the traits of `pt` used as probes.
use crate::engine::Src;
use crate::m::*;
use pt::api::*;
use pt::verif::{Interaction, Normal3f, Ray, BSDF};
use std::sync::Arc;

pub struct NoMat;
impl Material for NoMat {
    fn compute_scattering(&self, i: &Interaction) -> BSDF {
        BSDF::new(i)
    }
}
pub fn nomat() -> Arc<dyn Material> {
    Arc::new(NoMat)
}

/// scalar in [-s, s], with special values likely
pub fn coord(src: &mut Src, s: f64) -> f64 {
    match src.weighted(&[2, 3, 2, 9]) {
        0 => 0.,
        1 => (src.int(0, 8) - 4) as f64 / 4. * s,
        2 => (src.int(0, 32) - 16) as f64 / 16. * s,
        _ => src.range(-s, s),
    }
}

pub fn point(src: &mut Src, s: f64) -> V {
    V(coord(src, s), coord(src, s), coord(src, s))
}

/// uniformly random unit vector
pub fn unit_dir(src: &mut Src) -> V {
    let z = src.range(-1., 1.);
    let p = src.range(0., 2. * PI);
    let r = (1. - z * z).max(0.).sqrt();
    V(r * p.cos(), r * p.sin(), z)
}

/// unit direction with special cases: axis, in coordinate planes, diagonals, nearly axis
pub fn dir(src: &mut Src) -> V {
    match src.weighted(&[2, 2, 1, 2, 8]) {
        0 => {
            let k = src.below(6);
            let s = if k & 1 == 0 { 1. } else { -1. };
            match k / 2 {
                0 => V(s, 0., 0.),
                1 => V(0., s, 0.),
                _ => V(0., 0., s),
            }
        }
        1 => {
            let a = src.range(0., 2. * PI);
            match src.below(3) {
                0 => V(a.cos(), a.sin(), 0.),
                1 => V(0., a.cos(), a.sin()),
                _ => V(a.sin(), 0., a.cos()),
            }
        }
        2 => {
            let s = |src: &mut Src| if src.bool() { -1. } else { 1. };
            V(s(src), s(src), s(src)).norm()
        }
        3 => {
            let e = src.logrange(1e-7, 1e-2);
            let d = unit_dir(src) * e;
            let k = src.below(6);
            let s = if k & 1 == 0 { 1. } else { -1. };
            (d + match k / 2 {
                0 => V(s, 0., 0.),
                1 => V(0., s, 0.),
                _ => V(0., 0., s),
            })
            .norm()
        }
        _ => unit_dir(src),
    }
}

#[derive(Clone, Debug)]
pub struct Tri {
    pub v: [Point3f; 3],
    pub vn: Option<[Normal3f; 3]>,
    pub rev: bool,
}
impl Tri {
    pub fn new(a: V, b: V, c: V) -> Tri {
        Tri { v: [a.p(), b.p(), c.p()], vn: None, rev: false }
    }
    pub fn d(&self) -> [V; 3] {
        [self.v[0].d(), self.v[1].d(), self.v[2].d()]
    }
    pub fn build(&self, m: Arc<dyn Material>) -> Triangle {
        Triangle::new(self.v, self.vn, self.rev, m)
    }
    pub fn centroid(&self) -> V {
        let d = self.d();
        (d[0] + d[1] + d[2]) * (1. / 3.)
    }
    pub fn bary(&self, a: f64, b: f64) -> V {
        let d = self.d();
        d[0] * (1. - a - b) + d[1] * a + d[2] * b
    }
    pub fn gn(&self) -> V {
        let d = self.d();
        (d[1] - d[0]).cross(d[2] - d[0])
    }
    pub fn area(&self) -> f64 {
        0.5 * self.gn().len()
    }
    /// smallest height / longest edge
    pub fn quality(&self) -> f64 {
        let d = self.d();
        let l = (d[1] - d[0]).len().max((d[2] - d[0]).len()).max((d[2] - d[1]).len());
        if l == 0. { 0. } else { 2. * self.area() / (l * l) }
    }
    pub fn edge(&self) -> f64 {
        let d = self.d();
        (d[1] - d[0]).len().max((d[2] - d[0]).len()).max((d[2] - d[1]).len())
    }
}

#[derive(Clone, Debug)]
pub enum Sh {
    T(Tri),
    S(Point3f, f32),
}
impl Sh {
    pub fn arc(&self) -> Arc<dyn Shape> {
        self.arc_mat(nomat())
    }
    pub fn arc_mat(&self, m: Arc<dyn Material>) -> Arc<dyn Shape> {
        match self {
            Sh::T(t) => Arc::new(t.build(m)),
            Sh::S(c, r) => Arc::new(Sphere::new(*c, *r, m)),
        }
    }
    pub fn center(&self) -> V {
        match self {
            Sh::T(t) => t.centroid(),
            Sh::S(c, _) => c.d(),
        }
    }
    pub fn size(&self) -> f64 {
        match self {
            Sh::T(t) => t.edge(),
            Sh::S(_, r) => *r as f64,
        }
    }
    /// a point on the surface
    pub fn surf(&self, src: &mut Src) -> V {
        match self {
            Sh::T(t) => {
                let (mut a, mut b) = (src.unit(), src.unit());
                if a + b > 1. {
                    a = 1. - a;
                    b = 1. - b;
                }
                t.bary(a, b)
            }
            Sh::S(c, r) => c.d() + unit_dir(src) * *r as f64,
        }
    }
}

/// a triangle of the given size around `c`; `kind`: 0 general, 1 axis aligned plane, 2 sliver
pub fn tri_at(src: &mut Src, c: V, size: f64) -> Tri {
    loop {
        let k = src.weighted(&[6, 3, 1]);
        let t = match k {
            0 => {
                let mut v = [c; 3];
                for x in v.iter_mut() {
                    *x = *x + V(src.range(-size, size), src.range(-size, size), src.range(-size, size));
                }
                Tri::new(v[0], v[1], v[2])
            }
            1 => {
                let ax = src.below(3);
                let mut v = [c; 3];
                for x in v.iter_mut() {
                    let (a, b) = (src.range(-size, size), src.range(-size, size));
                    *x = *x + match ax {
                        0 => V(0., a, b),
                        1 => V(a, 0., b),
                        _ => V(a, b, 0.),
                    };
                }
                Tri::new(v[0], v[1], v[2])
            }
            _ => {
                let d = unit_dir(src) * size;
                let e = perp(d.norm()) * (size * src.logrange(0.01, 0.2));
                Tri::new(c, c + d, c + d * src.unit() + e)
            }
        };
        if t.quality() > 1e-3 {
            return t;
        }
        if src.rec.len() > 100000 {
            return Tri::new(c, c + V(size, 0., 0.), c + V(0., size, 0.));
        }
        // exhausted tapes always draw zero: take a fixed triangle then
        if src.exhausted() {
            return Tri::new(c, c + V(size, 0., 0.), c + V(0., size, 0.));
        }
    }
}

pub fn shape_at(src: &mut Src, c: V, size: f64) -> Sh {
    if src.weighted(&[3, 1]) == 0 {
        Sh::T(tri_at(src, c, size))
    } else {
        Sh::S(c.p(), (size * src.range(0.2, 1.)) as f32)
    }
}

/// A set of shapes. Returns the shapes and the half extent of the region they live in.
pub fn shape_set(src: &mut Src, max_n: usize) -> (Vec<Sh>, f64, &'static str) {
    let n = match src.weighted(&[3, 4, 4, 2]) {
        0 => src.usize(1, 9),
        1 => src.usize(9, 40),
        2 => src.usize(20, 200.min(max_n)),
        _ => src.usize(100.min(max_n), max_n),
    };
    shape_set_of(src, n)
}
pub fn shape_set_of(src: &mut Src, n: usize) -> (Vec<Sh>, f64, &'static str) {
    let ext = src.pick(&[10., 1., 1000., 0.01]);
    let mut out = vec![];
    let kind = src.weighted(&[4, 3, 2, 2, 2, 2, 2, 2]);
    let name;
    match kind {
        0 => {
            name = "uniform";
            let sz = ext * src.pick(&[0.1, 0.02, 0.3, 1.0]);
            for _ in 0..n {
                let c = V(src.range(-ext, ext), src.range(-ext, ext), src.range(-ext, ext));
                out.push(shape_at(src, c, sz));
            }
        }
        1 => {
            name = "clusters";
            let k = src.usize(1, 4);
            let cs: Vec<V> = (0..k).map(|_| V(src.range(-ext, ext), src.range(-ext, ext), src.range(-ext, ext))).collect();
            let sz = ext * src.pick(&[0.02, 0.005]);
            for _ in 0..n {
                let c = src.pick(&cs) + V(src.range(-1., 1.), src.range(-1., 1.), src.range(-1., 1.)) * (ext * 0.05);
                out.push(shape_at(src, c, sz));
            }
        }
        2 => {
            // grid heightfield: shared vertices, axis aligned or bumpy
            name = "grid";
            let m = ((n as f64 / 2.).sqrt().ceil() as usize).max(1);
            let bump = src.pick(&[0., 0.3]);
            let ax = src.below(3);
            let mut hs = vec![];
            for _ in 0..(m + 1) * (m + 1) {
                hs.push(if bump > 0. { src.range(-bump, bump) } else { 0. });
            }
            let at = |i: usize, j: usize| {
                let (a, b, c) = (-ext + 2. * ext * i as f64 / m as f64, -ext + 2. * ext * j as f64 / m as f64, ext * hs[i * (m + 1) + j]);
                match ax {
                    0 => V(a, b, c),
                    1 => V(c, a, b),
                    _ => V(b, c, a),
                }
            };
            for i in 0..m {
                for j in 0..m {
                    out.push(Sh::T(Tri::new(at(i, j), at(i + 1, j), at(i + 1, j + 1))));
                    out.push(Sh::T(Tri::new(at(i, j), at(i + 1, j + 1), at(i, j + 1))));
                }
            }
        }
        3 => {
            // axis aligned boxes on an integer lattice: lots of coplanar faces and equal coordinates
            name = "boxes";
            let cell = ext / 4.;
            while out.len() < n {
                let c = V(src.int(-4, 4) as f64, src.int(-4, 4) as f64, src.int(-4, 4) as f64) * cell;
                let s = V(src.int(1, 3) as f64, src.int(1, 3) as f64, src.int(1, 3) as f64) * (cell * 0.5);
                out.extend(box_tris(c - s, c + s).into_iter().map(Sh::T));
            }
        }
        4 => {
            // nested, heavily overlapping
            name = "nested";
            for k in 0..n {
                let s = ext * (k + 1) as f64 / n as f64;
                if src.bool() {
                    out.push(Sh::S(V(0., 0., 0.).p(), s as f32));
                } else {
                    let c = V(src.range(-0.1, 0.1), src.range(-0.1, 0.1), src.range(-0.1, 0.1)) * ext;
                    out.push(Sh::T(tri_at(src, c, s)));
                }
            }
        }
        5 => {
            // a line of shapes along one axis plus a big floor
            name = "line";
            let ax = dir(src);
            for k in 0..n {
                let c = ax * (ext * (2. * k as f64 / n as f64 - 1.));
                let r = ext / n as f64 * src.range(0.2, 1.5);
                out.push(shape_at(src, c, r));
            }
            let f = ext;
            out.push(Sh::T(Tri::new(V(-f, -f, -f), V(f, -f, -f), V(f, f, -f))));
            out.push(Sh::T(Tri::new(V(f, f, -f), V(-f, f, -f), V(-f, -f, -f))));
        }
        6 => {
            // stack of parallel flat triangles (zero thickness boxes)
            name = "stack";
            let ax = src.below(3);
            for _ in 0..n {
                let h = coord(src, ext);
                let a = src.range(0.2, 1.) * ext;
                let (ox, oy) = (coord(src, ext), coord(src, ext));
                let f = |x: f64, y: f64| match ax {
                    0 => V(h, x, y),
                    1 => V(y, h, x),
                    _ => V(x, y, h),
                };
                out.push(Sh::T(Tri::new(f(ox - a, oy - a), f(ox + a, oy - a), f(ox, oy + a))));
            }
        }
        _ => {
            // sizes over orders of magnitude (teapot in a stadium)
            name = "mixed";
            for _ in 0..n {
                let s = ext * src.logrange(1e-4, 1.);
                let c = V(src.range(-ext, ext), src.range(-ext, ext), src.range(-ext, ext)) * src.pick(&[1., 0.1, 0.01]);
                out.push(shape_at(src, c, s));
            }
        }
    }
    (out, ext, name)
}

pub fn box_tris(lo: V, hi: V) -> Vec<Tri> {
    let p = |i: usize| V(if i & 1 == 0 { lo.0 } else { hi.0 }, if i & 2 == 0 { lo.1 } else { hi.1 }, if i & 4 == 0 { lo.2 } else { hi.2 });
    let q = |a, b, c, d| vec![Tri::new(p(a), p(b), p(c)), Tri::new(p(a), p(c), p(d))];
    let mut v = vec![];
    // outward winding
    v.extend(q(0, 2, 3, 1)); // z-
    v.extend(q(4, 5, 7, 6)); // z+
    v.extend(q(0, 1, 5, 4)); // y-
    v.extend(q(2, 6, 7, 3)); // y+
    v.extend(q(0, 4, 6, 2)); // x-
    v.extend(q(1, 3, 7, 5)); // x+
    v
}

/// A ray through a scene of shapes.
pub fn scene_ray(src: &mut Src, shapes: &[Sh], ext: f64) -> Ray {
    let o = match src.weighted(&[4, 3, 2, 2]) {
        0 => point(src, ext),
        1 => unit_dir(src) * (ext * src.range(1.8, 6.)),
        2 => {
            // exactly at a vertex / centre coordinate of some shape
            let k = src.below(shapes.len() as u64) as usize;
            match &shapes[k] {
                Sh::T(t) => {
                    let j = src.below(3) as usize;
                    let v = t.v[j].d();
                    let q = point(src, ext);
                    // keep one coordinate of the vertex (it may be a split plane)
                    match src.below(4) {
                        0 => V(v.0, q.1, q.2),
                        1 => V(q.0, v.1, q.2),
                        2 => V(q.0, q.1, v.2),
                        _ => v + unit_dir(src) * (ext * 0.5),
                    }
                }
                Sh::S(c, r) => c.d() + V(*r as f64 * (src.int(-1, 1) as f64), 0., coord(src, ext)),
            }
        }
        _ => point(src, ext * 1.0),
    };
    let d = match src.weighted(&[5, 4]) {
        0 => {
            let k = src.below(shapes.len() as u64) as usize;
            let t = shapes[k].surf(src);
            let d = t - o;
            if d.len() < 1e-6 * ext { dir(src) } else { d }
        }
        _ => dir(src),
    };
    let l = match src.weighted(&[4, 1, 1]) {
        0 => 1.,
        1 => src.logrange(1e-3, 1e3),
        _ => src.pick(&[2., 0.5, 10.]),
    };
    let d = if src.bool() { d.norm() * l } else { d * l };
    let mut dv = d.v();
    // sometimes flatten components, with either zero sign
    if src.pct(20) {
        for k in 0..3 {
            match src.below(4) {
                0 => dv[k] = 0.,
                1 => dv[k] = -0.,
                _ => {}
            }
        }
        if dv.x == 0. && dv.y == 0. && dv.z == 0. {
            dv.z = 1.;
        }
    }
    let dl = dv.d().len();
    let tm = match src.weighted(&[6, 2, 1]) {
        0 => f32::INFINITY,
        1 => (src.range(0., 4. * ext) / dl) as f32,
        _ => (src.logrange(1e-3, 1.) * ext / dl) as f32,
    };
    ray(o.p(), dv, tm)
}

pub fn ray_str(r: &Ray) -> String {
    format!("o={:?} d={:?} tmax={:e}", r.origin, r.direction, r.t_max)
}

/// A closed mesh (outward winding) around a centre, as vertices and faces.
pub struct Mesh {
    pub v: Vec<V>,
    pub f: Vec<[usize; 3]>,
    pub center: V,
    pub kind: &'static str,
}
impl Mesh {
    pub fn tris(&self) -> Vec<Tri> {
        self.f.iter().map(|f| Tri::new(self.v[f[0]], self.v[f[1]], self.v[f[2]])).collect()
    }
}

/// Star-shaped closed mesh around `c`: sphere-like, perturbed, or a box.
pub fn closed_mesh(src: &mut Src, c: V, r: f64, convex: bool) -> Mesh {
    let kind = src.weighted(&[2, 3, 2]);
    match kind {
        0 => {
            let s = V(src.range(0.3, 1.), src.range(0.3, 1.), src.range(0.3, 1.)) * r;
            let (lo, hi) = (c - s, c + s);
            let p = |i: usize| V(if i & 1 == 0 { lo.0 } else { hi.0 }, if i & 2 == 0 { lo.1 } else { hi.1 }, if i & 4 == 0 { lo.2 } else { hi.2 });
            let mut f = vec![];
            for q in &[[0, 2, 3, 1], [4, 5, 7, 6], [0, 1, 5, 4], [2, 6, 7, 3], [0, 4, 6, 2], [1, 3, 7, 5]] {
                f.push([q[0], q[1], q[2]]);
                f.push([q[0], q[2], q[3]]);
            }
            Mesh { v: (0..8).map(p).collect(), f, center: c, kind: "box" }
        }
        k => {
            // octahedron, subdivided
            let mut v = vec![V(1., 0., 0.), V(-1., 0., 0.), V(0., 1., 0.), V(0., -1., 0.), V(0., 0., 1.), V(0., 0., -1.)];
            let mut f = vec![[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [1, 2, 5], [3, 1, 5], [0, 3, 5]];
            let levels = src.usize(0, if k == 1 { 2 } else { 3 });
            for _ in 0..levels {
                let mut nf = vec![];
                let mut mid = std::collections::HashMap::new();
                for t in &f {
                    let mut m = [0; 3];
                    for e in 0..3 {
                        let (a, b): (usize, usize) = (t[e], t[(e + 1) % 3]);
                        let key = (a.min(b), a.max(b));
                        let id = *mid.entry(key).or_insert_with(|| {
                            let w: V = ((v[a] + v[b]) * 0.5).norm();
                            v.push(w);
                            v.len() - 1
                        });
                        m[e] = id;
                    }
                    nf.push([t[0], m[0], m[2]]);
                    nf.push([m[0], t[1], m[1]]);
                    nf.push([m[2], m[1], t[2]]);
                    nf.push(m);
                }
                f = nf;
            }
            let rot = if k == 2 { Some((unit_dir(src), src.range(0., 6.))) } else { None };
            let stretch = V(src.range(0.4, 1.), src.range(0.4, 1.), src.range(0.4, 1.));
            let bump = if convex { 0. } else { src.pick(&[0., 0.1, 0.25]) };
            for x in v.iter_mut() {
                let mut y = *x;
                if let Some((ax, an)) = rot {
                    y = rotate(y, ax, an);
                }
                let s = if bump > 0. { 1. + src.range(-bump, bump) } else { 1. };
                *x = c + V(y.0 * stretch.0, y.1 * stretch.1, y.2 * stretch.2) * (r * s);
            }
            Mesh { v, f, center: c, kind: if k == 1 { "octa" } else { "octa-rot" } }
        }
    }
}

pub fn rotate(v: V, ax: V, a: f64) -> V {
    v * a.cos() + ax.cross(v) * a.sin() + ax * (ax.dot(v) * (1. - a.cos()))
}

/// Rotation matrix columns
pub fn frame(n: V, ang: f64) -> (V, V, V) {
    let s = perp(n);
    let s = rotate(s, n, ang);
    (s, n.cross(s), n)
}
