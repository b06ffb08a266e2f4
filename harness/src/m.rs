//! f64 mathematics used by the oracles (independent of the code under test).
use pt::api::*;
use pt::verif::{Normal3f, Ray};
use std::ops::{Add, Mul, Neg, Sub};

pub const PI: f64 = std::f64::consts::PI;
/// f32 unit roundoff
pub const U: f64 = 5.9604644775390625e-8;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct V(pub f64, pub f64, pub f64);

impl Add for V {
    type Output = V;
    fn add(self, o: V) -> V {
        V(self.0 + o.0, self.1 + o.1, self.2 + o.2)
    }
}
impl Sub for V {
    type Output = V;
    fn sub(self, o: V) -> V {
        V(self.0 - o.0, self.1 - o.1, self.2 - o.2)
    }
}
impl Mul<f64> for V {
    type Output = V;
    fn mul(self, o: f64) -> V {
        V(self.0 * o, self.1 * o, self.2 * o)
    }
}
impl Neg for V {
    type Output = V;
    fn neg(self) -> V {
        V(-self.0, -self.1, -self.2)
    }
}
impl V {
    pub fn dot(self, o: V) -> f64 {
        self.0 * o.0 + self.1 * o.1 + self.2 * o.2
    }
    pub fn cross(self, o: V) -> V {
        V(self.1 * o.2 - self.2 * o.1, self.2 * o.0 - self.0 * o.2, self.0 * o.1 - self.1 * o.0)
    }
    pub fn len(self) -> f64 {
        self.dot(self).sqrt()
    }
    pub fn norm(self) -> V {
        self * (1. / self.len())
    }
    pub fn maxabs(self) -> f64 {
        self.0.abs().max(self.1.abs()).max(self.2.abs())
    }
    pub fn get(self, i: usize) -> f64 {
        [self.0, self.1, self.2][i]
    }
    pub fn finite(self) -> bool {
        self.0.is_finite() && self.1.is_finite() && self.2.is_finite()
    }
    pub fn p(self) -> Point3f {
        Point3f::new(self.0 as f32, self.1 as f32, self.2 as f32)
    }
    pub fn v(self) -> Vector3f {
        Vector3f::new(self.0 as f32, self.1 as f32, self.2 as f32)
    }
    pub fn n(self) -> Normal3f {
        Normal3f::new(self.0 as f32, self.1 as f32, self.2 as f32)
    }
}

pub trait ToV {
    fn d(&self) -> V;
}
impl ToV for Point3f {
    fn d(&self) -> V {
        V(self.x as f64, self.y as f64, self.z as f64)
    }
}
impl ToV for Vector3f {
    fn d(&self) -> V {
        V(self.x as f64, self.y as f64, self.z as f64)
    }
}
impl ToV for Normal3f {
    fn d(&self) -> V {
        V(self.x as f64, self.y as f64, self.z as f64)
    }
}
impl ToV for Spectrum {
    fn d(&self) -> V {
        V(self.r as f64, self.g as f64, self.b as f64)
    }
}

pub fn ray(o: Point3f, d: Vector3f, t: f32) -> Ray {
    Ray { origin: o, direction: d, t_max: t }
}

/// any unit vector perpendicular to n
pub fn perp(n: V) -> V {
    let a = if n.0.abs() < 0.6 { V(1., 0., 0.) } else { V(0., 1., 0.) };
    (a - n * a.dot(n)).norm()
}

pub fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    (a - b).abs() <= abs + rel * a.abs().max(b.abs())
}

// ------------------------------------------------------------ geometry oracles

pub enum Hit {
    Miss,
    /// too close to a decision boundary to call
    Ambiguous,
    /// t and its absolute uncertainty, barycentrics
    At(f64, f64, [f64; 3]),
}

/// Ray/triangle in f64. `slack` is the relative rounding budget (multiples of f32 roundoff).
pub fn tri_oracle(v: &[V; 3], o: V, d: V, tmax: f64, slack: f64) -> Hit {
    let n = (v[1] - v[0]).cross(v[2] - v[0]);
    let dl = d.len();
    let du = d * (1. / dl);
    // positions relative to the origin
    let r = [v[0] - o, v[1] - o, v[2] - o];
    let big = r.iter().map(|x| x.maxabs()).fold(0., f64::max);
    let mag = v.iter().map(|x| x.maxabs()).fold(o.maxabs(), f64::max);
    let big = big.max(mag * 1e-3); // subtraction of f32 values rounds relative to the difference
    // largest distance of a vertex from the ray's line
    let rp = r.iter().map(|x| (*x - du * x.dot(du)).len()).fold(0., f64::max) + 4. * U * big;
    // signed volumes: edge functions scaled by |d|
    let vol = [d.dot(r[1].cross(r[2])), d.dot(r[2].cross(r[0])), d.dot(r[0].cross(r[1]))];
    let det = vol[0] + vol[1] + vol[2]; // = d . n
    let tol = slack * U * dl * big * rp * 8.;
    if det.abs() <= tol {
        return Hit::Ambiguous;
    }
    let s = det.signum();
    let mut amb = false;
    for k in 0..3 {
        let w = vol[k] * s;
        if w < -tol {
            return Hit::Miss;
        }
        if w <= tol {
            amb = true;
        }
    }
    let t = r[0].dot(n) / det;
    let ts = [r[0].dot(du) / dl, r[1].dot(du) / dl, r[2].dot(du) / dl];
    let spread = ts.iter().cloned().fold(f64::MIN, f64::max) - ts.iter().cloned().fold(f64::MAX, f64::min);
    let terr = slack * U * 4. * (big / dl) + 3. * tol * spread / det.abs();
    // hits this close to the origin may be rejected as self intersections
    let near = 512. * U * (big / dl) * (rp * rp * dl) / det.abs() + terr;
    let far = terr + tmax.abs() * slack * U;
    if t < -terr || t > tmax + far {
        return Hit::Miss;
    }
    if amb || t <= near || t >= tmax - far {
        return Hit::Ambiguous;
    }
    Hit::At(t, terr, [vol[0] / det, vol[1] / det, vol[2] / det])
}

/// Ray/sphere in f64: sorted crossing parameters and uncertainty, or miss/ambiguous.
pub fn sphere_oracle(c: V, r: f64, o: V, d: V) -> Option<(f64, f64, f64)> {
    let oc = o - c;
    let a = d.dot(d);
    let b = d.dot(oc);
    let cc = oc.dot(oc) - r * r;
    let disc = b * b - a * cc;
    if disc < 0. {
        return None;
    }
    let q = disc.sqrt();
    Some(((-b - q) / a, (-b + q) / a, disc / (a * r * r)))
}

// ------------------------------------------------------------ statistics

#[derive(Default, Clone, Debug)]
pub struct Stat {
    pub n: f64,
    pub mean: f64,
    m2: f64,
    pub max: f64,
}
impl Stat {
    pub fn add(&mut self, x: f64) {
        self.n += 1.;
        let d = x - self.mean;
        self.mean += d / self.n;
        self.m2 += d * (x - self.mean);
        if x.abs() > self.max {
            self.max = x.abs();
        }
    }
    pub fn var(&self) -> f64 {
        if self.n < 2. { 0. } else { self.m2 / (self.n - 1.) }
    }
    /// standard error of the mean
    pub fn se(&self) -> f64 {
        (self.var() / self.n).sqrt()
    }
}

// ------------------------------------------------------------ 4x4

#[derive(Clone, Copy, Debug)]
pub struct M4(pub [[f64; 4]; 4]);
impl M4 {
    pub fn id() -> M4 {
        let mut m = [[0.; 4]; 4];
        for i in 0..4 {
            m[i][i] = 1.;
        }
        M4(m)
    }
    pub fn mul(&self, o: &M4) -> M4 {
        let mut m = [[0.; 4]; 4];
        for i in 0..4 {
            for j in 0..4 {
                for k in 0..4 {
                    m[i][j] += self.0[i][k] * o.0[k][j];
                }
            }
        }
        M4(m)
    }
    pub fn inv(&self) -> Option<M4> {
        let mut a = self.0;
        let mut b = M4::id().0;
        for c in 0..4 {
            let p = (c..4).max_by(|&i, &j| a[i][c].abs().partial_cmp(&a[j][c].abs()).unwrap()).unwrap();
            if a[p][c].abs() < 1e-300 {
                return None;
            }
            a.swap(c, p);
            b.swap(c, p);
            let s = 1. / a[c][c];
            for j in 0..4 {
                a[c][j] *= s;
                b[c][j] *= s;
            }
            for i in 0..4 {
                if i != c {
                    let f = a[i][c];
                    for j in 0..4 {
                        a[i][j] -= f * a[c][j];
                        b[i][j] -= f * b[c][j];
                    }
                }
            }
        }
        Some(M4(b))
    }
    pub fn norm(&self) -> f64 {
        self.0.iter().map(|r| r.iter().map(|x| x.abs()).sum::<f64>()).fold(0., f64::max)
    }
    pub fn point(&self, p: V) -> (V, f64) {
        let m = &self.0;
        let f = |i: usize| m[i][0] * p.0 + m[i][1] * p.1 + m[i][2] * p.2 + m[i][3];
        let w = f(3);
        (V(f(0) / w, f(1) / w, f(2) / w), w)
    }
    pub fn vector(&self, p: V) -> V {
        let m = &self.0;
        let f = |i: usize| m[i][0] * p.0 + m[i][1] * p.1 + m[i][2] * p.2;
        V(f(0), f(1), f(2))
    }
    pub fn tvector(&self, p: V) -> V {
        let m = &self.0;
        let f = |i: usize| m[0][i] * p.0 + m[1][i] * p.1 + m[2][i] * p.2;
        V(f(0), f(1), f(2))
    }
}
