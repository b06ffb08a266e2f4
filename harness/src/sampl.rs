//! C10, C11, C32: sample sequences, sampler protocol, warps.
use crate::engine::*;
use crate::gen::*;
use crate::m::*;
use crate::{ensure, fail};
use pt::api::*;
use pt::verif::{concentric_sample_disk, cosine_sample_hemisphere, power_heuristic, BBox2, MicrofacetDistribution, Point2, Sampler};

const KMAX: i64 = 128;

pub fn primes(n: usize) -> Vec<u64> {
    let mut v = vec![2u64];
    let mut c = 3;
    while v.len() < n {
        if v.iter().take_while(|&&p| p * p <= c).all(|&p| c % p != 0) {
            v.push(c);
        }
        c += 2;
    }
    v
}

/// radical inverse in f64 (exact to 1e-15)
pub fn rad_inv(base: u64, mut a: u64) -> f64 {
    let mut r = 0f64;
    let mut digits = vec![];
    while a > 0 {
        digits.push(a % base);
        a /= base;
    }
    for d in digits.iter().rev() {
        r = (r + *d as f64) / base as f64;
    }
    r
}

/// digits of `a` in `base`, first n of them, reversed
fn rev_digits(base: u64, mut a: u64, n: u32) -> u64 {
    let mut x = 0;
    for _ in 0..n {
        x = x * base + a % base;
        a /= base;
    }
    x
}

/// Model of the Halton sampler: exponents, scales, stride.
pub struct Halton {
    ex: u32,
    ey: u32,
    sx: u64,
    sy: u64,
    primes: Vec<u64>,
}

impl Halton {
    pub fn new(w: i64, h: i64, primes: &[u64]) -> Halton {
        let f = |base: u64, r: i64| {
            let (mut s, mut e) = (1u64, 0);
            while (s as i64) < r.min(KMAX) {
                s *= base;
                e += 1;
            }
            (s, e)
        };
        let (sx, ex) = f(2, w);
        let (sy, ey) = f(3, h);
        Halton { ex, ey, sx, sy, primes: primes.to_vec() }
    }
    pub fn stride(&self) -> u64 {
        self.sx * self.sy
    }
    /// The only index in [0, stride) whose first two coordinates fall in the pixel.
    pub fn offset(&self, px: i64, py: i64) -> u64 {
        let rx = rev_digits(2, px.rem_euclid(KMAX) as u64, self.ex);
        let ry = rev_digits(3, py.rem_euclid(KMAX) as u64, self.ey);
        let mut i = rx;
        while i % self.sy != ry {
            i += self.sx;
        }
        i
    }
    pub fn value(&self, index: u64, d: usize) -> f64 {
        match d {
            0 => rad_inv(2, index / self.sx),
            1 => rad_inv(3, index / self.sy),
            _ => rad_inv(self.primes[d], index),
        }
    }
}

fn close_unit(got: f32, want: f64) -> bool {
    (got as f64 - want).abs() <= 3e-7
}

fn c10_seq(src: &mut Src, ctx: &mut Ctx) -> R {
    let res = |src: &mut Src| -> i64 {
        match src.weighted(&[3, 3, 3, 2]) {
            0 => src.int(1, 20),
            1 => src.int(1, 200),
            2 => src.pick(&[1, 2, 3, 4, 8, 9, 16, 27, 32, 64, 81, 128, 127, 129, 243]),
            _ => src.int(1, 3000),
        }
    };
    let (w, h) = (res(src), res(src));
    let (x0, y0) = if src.pct(40) { (src.int(-20, 20), src.int(-20, 20)) } else { (0, 0) };
    let pr = primes(1024);
    let m = Halton::new(w, h, &pr);
    let spp = 1u64 << 20;
    let bb = BBox2::new(Point2 { x: x0 as i32, y: y0 as i32 }, Point2 { x: (x0 + w) as i32, y: (y0 + h) as i32 });
    let mut s = HaltonSampler::new(spp as u32, bb);
    let kmax = (0xffff_ffffu64 / m.stride() - 1).min(150_000);
    let npix = src.usize(1, 4);
    ctx.desc(|| format!("{}x{} at ({},{}) stride {}", w, h, x0, y0, m.stride()));
    let mut last = None;
    for _ in 0..npix {
        let (px, py) = match (src.weighted(&[4, 2, 2]), last) {
            (1, Some(p)) => p,
            (2, _) => (src.int(-300, 300), src.int(-300, 5000)),
            _ => (x0 + src.int(0, w - 1), y0 + src.int(0, h - 1)),
        };
        last = Some((px, py));
        if px < 0 || py < 0 {
            ctx.label("negative pixel");
        }
        if px >= KMAX || py >= KMAX {
            ctx.label("pixel beyond the block");
        }
        s.start_pixel(Point2 { x: px as i32, y: py as i32 });
        let off = m.offset(px, py);
        let mut k = 0u64;
        let mut d = 0;
        for _ in 0..src.usize(1, 3) {
            let target = k + match src.weighted(&[4, 3, 2, if ctx.thorough { 2 } else { 1 }]) {
                0 => src.below(4),
                1 => src.below(64),
                2 => src.below(5000),
                _ => src.below(kmax),
            };
            let target = target.min(kmax);
            while k < target {
                s.start_next_sample();
                k += 1;
                d = 0;
            }
            if k > 1000 {
                ctx.label("sample number > 1000");
            }
            let index = off + k * m.stride();
            ctx.nontrivial();
            // request some dimensions
            let n = match src.weighted(&[5, 3, 1]) {
                0 => src.usize(3, 8),
                1 => src.usize(8, 60),
                _ => src.usize(60, 1023),
            };
            while d < n {
                let two = src.bool();
                ctx.cmp();
                let vals = if two {
                    let p = s.get_2d();
                    vec![p.x, p.y]
                } else {
                    vec![s.get_1d()]
                };
                for v in vals {
                    ensure!(v >= 0. && v < 1., "film {}x{} at ({},{}): pixel ({},{}) sample {} dimension {}: value {} is outside [0,1)", w, h, x0, y0, px, py, k, d, v);
                    let want = m.value(index, d);
                    ensure!(
                        close_unit(v, want),
                        "film {}x{} at ({},{}): pixel ({},{}) sample {} dimension {} is {}, the Halton point with index {} has {}", w, h, x0, y0, px, py, k, d, v, index, want
                    );
                    d += 1;
                }
            }
        }
    }
    Ok(())
}

/// Sample numbers chosen so that one coordinate comes within 2^-25 of 1: its index ends in n digits b-1.
/// Nothing but a deep sample number reaches these, and a value of 1 would be outside every warp's domain.
fn c10_extreme(src: &mut Src, ctx: &mut Ctx) -> R {
    let pr = primes(1024);
    let kcap = if ctx.thorough { 6_000_000 } else { 1_200_000 };
    let (w, h) = match src.weighted(&[3, 2, 2]) {
        0 => (src.int(65, 200), src.int(28, 200)),
        1 => (src.int(1, 8), src.int(82, 200)),
        _ => (src.int(1, 200), src.int(1, 200)),
    };
    let m = Halton::new(w, h, &pr);
    let d = match src.weighted(&[3, 3, 2, 2]) {
        0 => src.usize(2, 12),
        1 => src.usize(700, 1020),
        2 => src.usize(12, 700),
        _ => src.usize(0, 1),
    };
    let b = pr[d];
    let mut big = 1u64;
    while big < 1 << 25 {
        big *= b;
    }
    // index ranges over [lo, hi): below 2^32 and k below the cap
    let unit = match d {
        0 => m.sx,
        1 => m.sy,
        _ => 1,
    };
    let hi = (1u64 << 32).min(kcap * m.stride()) / unit;
    let times = hi / big;
    if times == 0 {
        ctx.label("unreachable");
        return Ok(());
    }
    let t = big * (1 + src.below(times.min(40))) - 1;
    let index = t * unit + if unit > 1 { src.below(unit) } else { 0 };
    let (off, k) = (index % m.stride(), index / m.stride());
    let (px, py) = (rev_digits(2, off % m.sx, m.ex) as i64, rev_digits(3, off % m.sy, m.ey) as i64);
    if px >= KMAX || py >= KMAX {
        ctx.label("no such pixel");
        return Ok(());
    }
    if m.offset(px, py) != off {
        fail!("model disagrees with itself: {}x{} off {} pixel ({},{})", w, h, off, px, py);
    }
    let bb = BBox2::new(Point2 { x: 0, y: 0 }, Point2 { x: w as i32, y: h as i32 });
    let mut s = HaltonSampler::new((k + 2) as u32, bb);
    s.start_pixel(Point2 { x: px as i32, y: py as i32 });
    for _ in 0..k {
        s.start_next_sample();
    }
    ctx.nontrivial();
    ctx.label(&format!("sample number 2^{}..", 64 - k.leading_zeros()));
    ctx.label(match d {
        0 => "x",
        1 => "y",
        _ if d < 12 => "low dimension",
        _ if d < 700 => "middle dimension",
        _ => "high dimension",
    });
    ctx.desc(|| format!("film {}x{}: pixel ({},{}) sample {} = index {} dimension {} (base {})", w, h, px, py, k, index, d, b));
    let mut i = 0;
    while i <= d {
        ctx.cmp();
        let vals = if src.bool() {
            let p = s.get_2d();
            vec![p.x, p.y]
        } else {
            vec![s.get_1d()]
        };
        for v in vals {
            ensure!(v >= 0. && v < 1., "film {}x{}: pixel ({},{}) sample {} dimension {}: value {} is outside [0,1)", w, h, px, py, k, i, v);
            let want = m.value(index, i);
            ensure!(close_unit(v, want), "film {}x{}: pixel ({},{}) sample {} dimension {} is {}, the Halton point with index {} has {}", w, h, px, py, k, i, v, index, want);
            i += 1;
        }
    }
    Ok(())
}

/// Whole-film relation without the index model: over one period, the first coordinates of the global sequence
/// (reassembled from pixel and offset) are distinct and every higher dimension is a permutation of the strata.
fn c10_strata(src: &mut Src, ctx: &mut Ctx) -> R {
    let w = src.int(1, 16);
    let h = src.int(1, 12);
    let (sx, sy) = {
        let m = Halton::new(w, h, &[]);
        (m.sx, m.sy)
    };
    let bb = BBox2::new(Point2 { x: 0, y: 0 }, Point2 { x: w as i32, y: h as i32 });
    let rounds = src.usize(1, 3);
    let mut s = HaltonSampler::new(rounds as u32 + 1, bb);
    ctx.desc(|| format!("{}x{} film, {} rounds", w, h, rounds));
    ctx.nontrivial();
    // all pixels of the block of strata (also those past the film's edge)
    let stride = (sx * sy) as usize;
    let total = stride * rounds;
    let d = src.usize(2, 6);
    let base = [5., 7., 11., 13., 17.][d - 2];
    let mut all: Vec<f32> = vec![];
    for y in 0..sy {
        for x in 0..sx {
            s.start_pixel(Point2 { x: x as i32, y: y as i32 });
            for _ in 0..rounds {
                for _ in 0..d {
                    s.get_1d();
                }
                all.push(s.get_1d());
                s.start_next_sample();
            }
        }
    }
    ctx.cmp();
    // the indices 0..total are used exactly once each: the values are the first `total` radical inverses
    let mut want: Vec<f64> = (0..total as u64).map(|i| rad_inv(base as u64, i)).collect();
    want.sort_by(|a, b| a.partial_cmp(b).unwrap());
    all.sort_by(|a, b| a.partial_cmp(b).unwrap());
    for i in 0..total {
        ensure!(
            close_unit(all[i], want[i]),
            "{}x{} film, {} samples per pixel: the values in dimension {} over all pixels are not those of the first {} points of the sequence ({} instead of {} at rank {})",
            w, h, rounds, d, total, all[i], want[i], i
        );
    }
    Ok(())
}

pub static C10: Prop = Prop {
    id: "C10",
    rule: "case: at least one generated pixel and sample number with three or more requested dimensions (seq), or a whole film (strata)",
    assumptions: &["sample indices below 2^32 (samples per pixel times strata)", "dimensions below 1024, the limit of the prime table", "values compared to 3e-7"],
    subs: &[
        Sub { name: "seq", quick: 150_000, thorough: 4_000_000, f: c10_seq },
        Sub { name: "strata", quick: 4_000, thorough: 200_000, f: c10_strata },
        Sub { name: "extreme", quick: 20_000, thorough: 600_000, f: c10_extreme },
    ],
};

// ---------------------------------------------------------------- C11

#[derive(Clone)]
struct Mod {
    p: (i32, i32),
    k: u32,
    dim: usize,
    started: bool,
}

fn c11_drive<S: Sampler>(make: &dyn Fn() -> S, spp: u32, deterministic: bool, src: &mut Src, ctx: &mut Ctx) -> R {
    let mut ss: Vec<(S, Mod)> = vec![(make(), Mod { p: (0, 0), k: 0, dim: 0, started: false })];
    let n = src.usize(3, 40);
    let mut hist = String::new();
    let mut ops = 0;
    for _ in 0..n {
        let i = src.below(ss.len() as u64) as usize;
        let op = src.weighted(&[3, 3, 3, 3, 4, 1, 2]);
        let fresh = !ss[i].1.started;
        if fresh || op == 0 {
            let p = match src.weighted(&[3, 2, 1]) {
                0 => (src.int(0, 40) as i32, src.int(0, 40) as i32),
                1 => ss[src.below(ss.len() as u64) as usize].1.p,
                _ => (src.int(-200, 200) as i32, src.int(-200, 5000) as i32),
            };
            ss[i].0.start_pixel(Point2 { x: p.0, y: p.1 });
            ss[i].1 = Mod { p, k: 0, dim: 0, started: true };
            hist.push_str(&format!(" {}:start{:?}", i, p));
            continue;
        }
        let live = ss[i].1.k < spp;
        let what = if live { op } else { if op == 6 { 6 } else { 4 } };
        if !live && what == 4 {
            // exhausted pixel: further draws are outside the contract; restart it instead
            let p = ss[i].1.p;
            ss[i].0.start_pixel(Point2 { x: p.0, y: p.1 });
            ss[i].1 = Mod { p, k: 0, dim: 0, started: true };
            hist.push_str(&format!(" {}:restart", i));
            ctx.label("restart after the last sample");
            continue;
        }
        ops += 1;
        match what {
            1 | 2 | 3 => {
                let m = ss[i].1.clone();
                let vals = match what {
                    1 => vec![ss[i].0.get_1d()],
                    2 => {
                        let p = ss[i].0.get_2d();
                        vec![p.x, p.y]
                    }
                    _ => {
                        let c = ss[i].0.get_camera_sample(Point2 { x: m.p.0, y: m.p.1 }).p_film;
                        ensure!(
                            c.x >= m.p.0 as f32 && c.y >= m.p.1 as f32 && c.x <= m.p.0 as f32 + 1. && c.y <= m.p.1 as f32 + 1.,
                            "camera sample ({}, {}) lies outside pixel {:?}, after{}", c.x, c.y, m.p, hist
                        );
                        vec![c.x, c.y]
                    }
                };
                ctx.cmp();
                let off = if what == 3 { [m.p.0 as f64, m.p.1 as f64] } else { [0., 0.] };
                for (q, v) in vals.iter().enumerate() {
                    if what != 3 {
                        ensure!(*v >= 0. && *v < 1., "requested value {} is outside [0,1), after{}", v, hist);
                    }
                    if deterministic {
                        // a new sampler taken straight to the same point gives the same value
                        let mut f = make();
                        f.start_pixel(Point2 { x: m.p.0, y: m.p.1 });
                        for _ in 0..m.k {
                            f.start_next_sample();
                        }
                        for _ in 0..m.dim + q {
                            f.get_1d();
                        }
                        let want = f.get_1d() as f64;
                        ensure!(
                            (*v as f64 - off[q] - want).abs() <= 3e-7 + 1.2e-7 * off[q].abs(),
                            "sampler {} in pixel {:?} sample {} dimension {} gives {}, a new sampler gives {} there; after{}", i, m.p, m.k, m.dim + q, *v as f64 - off[q], want, hist
                        );
                    }
                }
                ss[i].1.dim += vals.len();
                hist.push_str(&format!(" {}:{}", i, ["", "1d", "2d", "cam"][what]));
            }
            0 | 4 | 5 => {
                // advance, sometimes to the very end of the pixel
                let times = if op == 5 { spp } else { 1 };
                for _ in 0..times {
                    if ss[i].1.k >= spp {
                        break;
                    }
                    let more = ss[i].0.start_next_sample();
                    ss[i].1.k += 1;
                    ss[i].1.dim = 0;
                    ctx.cmp();
                    let want = ss[i].1.k < spp;
                    if !want {
                        ctx.label("pixel finished");
                    }
                    ensure!(
                        more == want,
                        "with {} samples per pixel, advancing past sample {} says {} after{}", spp, ss[i].1.k - 1, if more { "there are more" } else { "there are no more" }, hist
                    );
                }
                hist.push_str(&format!(" {}:next*{}", i, times));
            }
            _ => {
                if ss.len() < 4 {
                    let c = (ss[i].0.clone(), ss[i].1.clone());
                    ss.push(c);
                    ctx.label("clone");
                    hist.push_str(&format!(" {}:clone", i));
                }
            }
        }
    }
    if ops >= 3 {
        ctx.nontrivial();
    }
    ctx.desc(|| hist.clone());
    Ok(())
}

fn c11_ops(src: &mut Src, ctx: &mut Ctx) -> R {
    let spp = match src.weighted(&[3, 2, 1]) {
        0 => src.int(1, 4),
        1 => src.int(1, 20),
        _ => src.pick(&[1, 2, 16, 64, 256]),
    } as u32;
    if src.bool() {
        ctx.label("random sampler");
        c11_drive(&|| RandomSampler::new(spp), spp, false, src, ctx)
    } else {
        ctx.label("halton sampler");
        let (w, h) = (src.int(1, 150), src.int(1, 150));
        let bb = BBox2::new(Point2 { x: 0, y: 0 }, Point2 { x: w as i32, y: h as i32 });
        c11_drive(&|| HaltonSampler::new(spp, bb), spp, true, src, ctx)
    }
}

/// The random sampler's values are uniform and successive ones are independent.
fn c11_uniform(src: &mut Src, ctx: &mut Ctx) -> R {
    let spp = src.pick(&[1, 4, 64]);
    let pat = src.below(3);
    let stat = |n: usize| -> (f64, f64, f64) {
        let mut s = RandomSampler::new(spp);
        let mut c1 = vec![0f64; 64];
        let mut c2 = vec![0f64; 256];
        let mut prev = None;
        let (mut n1, mut n2) = (0., 0.);
        let mut big = 0f64;
        while (n1 as usize) < n {
            s.start_pixel(Point2 { x: n1 as i32 % 17, y: 3 });
            loop {
                let v = match pat {
                    0 => vec![s.get_1d()],
                    1 => {
                        let p = s.get_2d();
                        vec![p.x, p.y]
                    }
                    _ => {
                        let p = s.get_2d();
                        vec![s.get_1d(), p.x, p.y]
                    }
                };
                for x in v {
                    n1 += 1.;
                    big = big.max(x as f64);
                    c1[((x * 64.) as usize).min(63)] += 1.;
                    if let Some(y) = prev {
                        c2[((x * 16.) as usize).min(15) * 16 + ((y as f32 * 16.) as usize).min(15)] += 1.;
                        n2 += 1.;
                    }
                    prev = Some(x as f32);
                }
                if !s.start_next_sample() {
                    break;
                }
            }
        }
        let chi = |c: &[f64], n: f64| {
            let e = n / c.len() as f64;
            let x: f64 = c.iter().map(|v| (v - e) * (v - e) / e).sum();
            let k = c.len() as f64 - 1.;
            (x - k) / (2. * k).sqrt()
        };
        (chi(&c1, n1), chi(&c2, n2), big)
    };
    ctx.nontrivial();
    ctx.desc(|| format!("random sampler, {} spp, request pattern {}", spp, pat));
    ctx.cmp();
    let (a, b, _) = stat(20_000);
    if a > 6. || b > 6. {
        let (a, b, _) = stat(200_000);
        ensure!(a < 8. && b < 8., "random sampler values are not uniform and independent: chi-square is {:.1} (single) and {:.1} (successive pairs) standard deviations too large", a, b);
    }
    Ok(())
}

/// Pixels with very many samples: the count and the values stay right.
fn c11_long(src: &mut Src, ctx: &mut Ctx) -> R {
    let spp = match src.below(3) {
        0 => src.usize(60_000, 200_000) as u32,
        1 => src.pick(&[65_535, 65_536, 65_537, 131_073]),
        _ => src.usize(1_000, 300_000) as u32,
    };
    let halton = src.bool();
    let per = src.below(3);
    let (w, h) = (src.int(1, 40) as i32, src.int(1, 40) as i32);
    let px = Point2 { x: src.int(0, w as i64 - 1) as i32, y: src.int(0, h as i64 - 1) as i32 };
    ctx.nontrivial();
    ctx.label(if halton { "halton sampler" } else { "random sampler" });
    ctx.desc(|| format!("{} samples in pixel {:?} of {}x{}, {} requests each", spp, px, w, h, per));
    fn go<S: Sampler>(s: &mut S, px: Point2<i32>, spp: u32, per: u64, ctx: &mut Ctx) -> R {
        for round in 0..2 {
            s.start_pixel(px);
            for i in 1..=spp {
                for _ in 0..per {
                    let x = s.get_1d();
                    ensure!(x >= 0. && x < 1., "value {} in sample {} of {}", x, i, spp);
                }
                let c = s.get_camera_sample(px);
                let (dx, dy) = (c.p_film.x as f64 - px.x as f64, c.p_film.y as f64 - px.y as f64);
                ensure!(dx >= 0. && dy >= 0. && dx <= 1. && dy <= 1., "camera sample {} of {} of pixel {:?} lies at ({},{})", i, spp, px, c.p_film.x, c.p_film.y);
                ctx.cmp();
                let more = s.start_next_sample();
                ensure!(more == (i < spp), "start_next_sample after sample {} of {} says {} in round {}", i, spp, more, round);
            }
        }
        Ok(())
    }
    if halton {
        let bb = BBox2::new(Point2 { x: 0, y: 0 }, Point2 { x: w, y: h });
        go(&mut HaltonSampler::new(spp, bb), px, spp, per, ctx)
    } else {
        go(&mut RandomSampler::new(spp), px, spp, per, ctx)
    }
}

pub static C11: Prop = Prop {
    id: "C11",
    rule: "case: a history of at least three sampler operations after the first pixel start (ops), or a uniformity experiment (uniform)",
    assumptions: &[
        "a camera sample may round up to the far edge of its pixel",
        "values are requested only while the pixel has samples left",
        "uniformity alarms need two experiments, the second beyond 8 standard deviations",
    ],
    subs: &[
        Sub { name: "ops", quick: 2_000_000, thorough: 16_000_000, f: c11_ops },
        Sub { name: "uniform", quick: 320, thorough: 4_000, f: c11_uniform },
        Sub { name: "extreme", quick: 100_000, thorough: 800_000, f: c10_extreme },
        Sub { name: "long", quick: 240, thorough: 6_000, f: c11_long },
    ],
};

// ---------------------------------------------------------------- C32

fn p2(x: f64, y: f64) -> Point2f {
    Point2f::new(x as f32, y as f32)
}

/// central differences of a map from the unit square to 3-space
fn jac(f: &dyn Fn(f64, f64) -> V, u: f64, v: f64, h: f64) -> V {
    // use the actual f32 abscissae
    let r = |x: f64| x as f32 as f64;
    let (u0, u1, v0, v1) = (r(u - h), r(u + h), r(v - h), r(v + h));
    let du = (f(u1, v) - f(u0, v)) * (1. / (u1 - u0));
    let dv = (f(u, v1) - f(u, v0)) * (1. / (v1 - v0));
    du.cross(dv)
}

fn unit_sample(src: &mut Src) -> (f64, f64) {
    let mut one = |src: &mut Src| match src.weighted(&[5, 2, 1, 1]) {
        0 => src.unit(),
        1 => src.pick(&[0., 0.25, 0.5, 0.75, 0.9999998]),
        2 => src.logrange(1e-9, 1e-2),
        _ => 1. - src.logrange(1.2e-7, 1e-2),
    };
    let u = one(src);
    let v = if src.pct(10) {
        if src.bool() { u } else { 1. - u }
    } else {
        one(src)
    };
    (u.min(0.99999988), v.min(0.99999988))
}

fn c32_points(src: &mut Src, ctx: &mut Ctx) -> R {
    let (u, v) = unit_sample(src);
    let (u, v) = (u as f32 as f64, v as f32 as f64);
    ctx.cmp();
    ctx.nontrivial();
    let h = 2e-3;
    let smooth_disk = {
        let (a, b) = (2. * u - 1., 2. * v - 1.);
        (a.abs() - b.abs()).abs() > 8. * h && u > 2. * h && v > 2. * h && u < 1. - 2. * h && v < 1. - 2. * h && a.abs().max(b.abs()) > 0.06
    };
    match src.below(4) {
        0 => {
            ctx.label("disk");
            ctx.desc(|| format!("disk ({},{})", u, v));
            let f = |x: f64, y: f64| {
                let p = concentric_sample_disk(p2(x, y));
                V(p.x as f64, p.y as f64, 0.)
            };
            let p = f(u, v);
            let r = (p.0 * p.0 + p.1 * p.1).sqrt();
            ensure!(r <= 1. + 1e-6, "disk sample of ({}, {}) has radius {}", u, v, r);
            // rings: radius follows the concentric squares
            let want = (2. * u - 1.).abs().max((2. * v - 1.).abs());
            let _ = want;
            if smooth_disk {
                let j = jac(&f, u, v, h).2.abs();
                ensure!((j / PI - 1.).abs() < 0.01, "disk warp at ({}, {}) scales areas by {} instead of pi", u, v, j);
            }
        }
        1 => {
            ctx.label("hemisphere");
            ctx.desc(|| format!("cosine hemisphere ({},{})", u, v));
            let f = |x: f64, y: f64| cosine_sample_hemisphere(p2(x, y)).d();
            let p = f(u, v);
            ensure!((p.len() - 1.).abs() < 1e-5 && p.2 >= 0., "cosine sample of ({}, {}) is {:?}", u, v, p);
            if smooth_disk && p.2 > 0.15 {
                let j = jac(&f, u, v, h);
                ensure!((j.len() * p.2 / PI - 1.).abs() < 0.02, "cosine-weighted warp at ({}, {}) scales areas by {} instead of {}", u, v, j.len(), PI / p.2);
            }
        }
        2 => {
            ctx.label("triangle");
            let s = src.pick(&[1., 10.]);
            let t = loop {
                let t = [point(src, s), point(src, s), point(src, s)];
                let n = (t[1] - t[0]).cross(t[2] - t[0]).len();
                let e = (t[1] - t[0]).len().max((t[2] - t[0]).len()).max((t[2] - t[1]).len());
                if n > 0.05 * e * e {
                    break t;
                }
                if src.exhausted() {
                    break [V(0., 0., 0.), V(1., 0., 0.), V(0., 1., 0.)];
                }
            };
            let tri = Triangle::new([t[0].p(), t[1].p(), t[2].p()], None, false, nomat());
            let q = [t[0].p().d(), t[1].p().d(), t[2].p().d()];
            ctx.desc(|| format!("triangle {:?} ({},{})", q, u, v));
            let f = |x: f64, y: f64| Shape::sample(&tri, p2(x, y)).p.d();
            let p = f(u, v);
            // inside: barycentric
            let n = (q[1] - q[0]).cross(q[2] - q[0]);
            let a2 = n.dot(n);
            let b = [
                (q[1] - p).cross(q[2] - p).dot(n) / a2,
                (q[2] - p).cross(q[0] - p).dot(n) / a2,
                (q[0] - p).cross(q[1] - p).dot(n) / a2,
            ];
            for k in 0..3 {
                ensure!(b[k] > -1e-4, "sample ({}, {}) of triangle {:?} is {:?}, outside", u, v, q, p);
            }
            let dist = (p - q[0]).dot(n) / n.len();
            ensure!(dist.abs() < 1e-5 * s, "sample of triangle {:?} is off its plane by {}", q, dist);
            if u > 0.05 && v > 0.01 && u < 0.95 && v < 0.99 {
                let j = jac(&f, u, v, h).len();
                let area = n.len() / 2.;
                ensure!((j / area - 1.).abs() < 0.03, "triangle {:?}: warp at ({}, {}) scales areas by {} instead of the triangle's area {}", q, u, v, j, area);
            }
        }
        _ => {
            ctx.label("microfacet normal");
            let ax = src.logrange(0.02, 1.) as f32;
            let ay = if src.bool() { ax } else { src.logrange(0.02, 1.) as f32 };
            let d = MicrofacetDistribution::new(ax, ay);
            let mut wo = unit_dir(src);
            if wo.2.abs() < 0.01 {
                wo = V(wo.0, wo.1, 0.3).norm();
            }
            ctx.desc(|| format!("microfacet ({}, {}) wo {:?} ({},{})", ax, ay, wo, u, v));
            let f = |x: f64, y: f64| d.sample_wh(wo.v(), p2(x, y)).d();
            let p = f(u, v);
            ensure!((p.len() - 1.).abs() < 1e-4, "microfacet normal ({}, {}) sampled at ({}, {}) is {:?}", ax, ay, u, v, p);
            ensure!(p.2 * wo.2 > 0. || p.2.abs() < 1e-4, "microfacet normal {:?} sampled on the other side of {:?}", p, wo);
            let hh = 2e-3f64.min(u * 0.04).min((1. - u) * 0.04);
            let hv = 1e-3f64;
            let quad = (v * 4.).fract();
            if u > 0.02 && u < 0.98 && v > 0.01 && v < 0.99 && quad > 0.02 && quad < 0.98 && p.2.abs() > 0.05 {
                let r = |x: f64| x as f32 as f64;
                let (u0, u1, v0, v1) = (r(u - hh), r(u + hh), r(v - hv), r(v + hv));
                let (pu, pv) = ((f(u1, v) - f(u0, v)), (f(u, v1) - f(u, v0)));
                // f32 rounding of the differences and the curvature of the map
                let sin = (1. - p.2 * p.2).max(0.).sqrt();
                // f32 noise of sin(theta): cos is rounded to 6e-8, so sin is off by 6e-8/sin
                let noise = 1.2e-7 / sin.max(1e-4) / pu.len().max(1e-12) + 5e-7 / pv.len().max(1e-12);
                if noise < 0.01 {
                    let j = (pu * (1. / (u1 - u0))).cross(pv * (1. / (v1 - v0))).len();
                    let den = d.pdf(wo.v(), p.v()) as f64;
                    ctx.label("microfacet density");
                    // second order error of the anisotropic angle map
                    let aniso = (ax / ay).max(ay / ax) as f64;
                    let tol = 0.03 + 3. * noise + 4. * (hv * aniso * 2. * PI).powi(2);
                    if tol < 0.3 {
                        ensure!(
                            (j * den - 1.).abs() < tol,
                            "microfacet ({}, {}): normal {:?} sampled at ({}, {}) has density {} but the warp gives {}", ax, ay, p, u, v, den, 1. / j
                        );
                    }
                }
            }
        }
    }
    Ok(())
}

/// Equal cells of the square fill equal shares of the target (onto and without overlap).
fn c32_cover(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = 128;
    let kind = src.below(4);
    let off = (src.unit(), src.unit());
    let cells = 48;
    let mut c = vec![0f64; cells];
    let q = [point(src, 2.), point(src, 2.), point(src, 2.)];
    let ax = src.logrange(0.05, 1.) as f32;
    let ay = if src.bool() { ax } else { src.logrange(0.05, 1.) as f32 };
    let tri = Triangle::new([q[0].p(), q[1].p(), q[2].p()], None, false, nomat());
    let nn = (q[1] - q[0]).cross(q[2] - q[0]);
    if kind == 2 && nn.len() < 0.05 {
        return Err(Fail::Discard);
    }
    let mf = MicrofacetDistribution::new(ax, ay);
    ctx.desc(|| format!("cover kind {} offset {:?} {:?} {} {}", kind, off, q, ax, ay));
    ctx.label(["disk", "hemisphere", "triangle", "microfacet normal"][kind as usize]);
    let polar = |x: f64, y: f64, r2: f64| -> usize {
        let t = (y.atan2(x) / (2. * PI) + 1.).fract();
        ((t * 12.) as usize).min(11) * 4 + ((r2 * 4.) as usize).min(3)
    };
    for i in 0..n {
        for j in 0..n {
            let u = ((i as f64 + off.0) / n as f64).min(0.9999998);
            let v = ((j as f64 + off.1) / n as f64).min(0.9999998);
            let s = p2(u, v);
            let cell = match kind {
                0 => {
                    let p = concentric_sample_disk(s);
                    polar(p.x as f64, p.y as f64, (p.x * p.x + p.y * p.y) as f64)
                }
                1 => {
                    let p = cosine_sample_hemisphere(s).d();
                    polar(p.0, p.1, 1. - p.2 * p.2)
                }
                2 => {
                    let p = Shape::sample(&tri, s).p.d();
                    let a2 = nn.dot(nn);
                    let b0 = (q[1] - p).cross(q[2] - p).dot(nn) / a2;
                    let b1 = (q[2] - p).cross(q[0] - p).dot(nn) / a2;
                    // corner regions: (1-b0)^2 and b1/(1-b0) are uniform
                    let a = (1. - b0).max(0.);
                    let b = if a > 0. { (b1 / a).max(0.) } else { 0. };
                    ((a * a * 8.) as usize).min(7) * 6 + ((b * 6.) as usize).min(5)
                }
                _ => {
                    let p = mf.sample_wh(V(0., 0., 1.).v(), s).d();
                    // stretch to the isotropic unit case: slopes over alpha
                    let (x, y) = (p.0 / p.2 / ax as f64, p.1 / p.2 / ay as f64);
                    let m2 = x * x + y * y;
                    polar(x, y, m2 / (1. + m2))
                }
            };
            c[cell] += 1.;
        }
    }
    ctx.nontrivial();
    ctx.cmp();
    let e = (n * n) as f64 / cells as f64;
    for k in 0..cells {
        ensure!(
            (c[k] / e - 1.).abs() < 0.2,
            "{} warp: cell {} of {} equal ones receives {} of {} stratified samples instead of {:.0} ({:?}, {}, {})",
            ["disk", "hemisphere", "triangle", "microfacet normal"][kind as usize], k, cells, c[k], n * n, e, q, ax, ay
        );
    }
    Ok(())
}

fn c32_frames(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = match src.weighted(&[3, 2, 2, 2]) {
        0 => unit_dir(src),
        3 => {
            // components of any magnitude, down to denormal numbers
            let mut c = || {
                let m = match src.below(4) {
                    0 => 0.,
                    1 => src.logrange(1e-44, 1e-18),
                    2 => src.logrange(1e-10, 1.),
                    _ => 1.,
                };
                if src.bool() { m } else { -m }
            };
            let v = V(c(), c(), c());
            if v.maxabs() < 1e-9 { V(0., 0., 1.) } else { v.norm() }
        }
        1 => {
            // nearly axis-parallel
            let e = src.logrange(1e-9, 1e-2);
            let b = src.pick(&[V(1., 0., 0.), V(0., 1., 0.), V(0., 0., 1.), V(-1., 0., 0.), V(0., -1., 0.), V(0., 0., -1.)]);
            (b + unit_dir(src) * e).norm()
        }
        _ => {
            let a = src.range(0., 2. * PI);
            match src.below(3) {
                0 => V(a.cos(), a.sin(), 0.),
                1 => V(a.cos(), 0., a.sin()),
                _ => V(0., a.cos(), a.sin()),
            }
        }
    };
    let v1 = n.v();
    ctx.desc(|| format!("frame around {:?}", v1));
    let (b, c) = v1.construct_coordinate_system();
    let (a, b, c) = (v1.d(), b.d(), c.d());
    ctx.nontrivial();
    ctx.cmp();
    let tol = 2e-6;
    ensure!((b.len() - 1.).abs() < tol && (c.len() - 1.).abs() < tol, "frame around {:?}: {:?} and {:?} are not of unit length", a, b, c);
    ensure!(a.dot(b).abs() < tol && a.dot(c).abs() < tol && b.dot(c).abs() < tol, "frame around {:?}: {:?} and {:?} are not perpendicular", a, b, c);
    ensure!((b.cross(c) - a).len() < 6e-6, "frame around {:?}: {:?} and {:?} are left-handed", a, b, c);
    Ok(())
}

fn c32_weights(src: &mut Src, ctx: &mut Ctx) -> R {
    let f = |src: &mut Src| match src.weighted(&[5, 2, 1]) {
        0 => src.logrange(1e-6, 1e6),
        1 => src.logrange(1e-37, 1e37),
        _ => 0.,
    } as f32;
    let (a, mut b) = (f(src), f(src));
    if a == 0. && b == 0. {
        b = 1.;
    }
    let (n1, n2) = if src.bool() { (1, 1) } else { (src.int(1, 16) as u32, src.int(1, 16) as u32) };
    ctx.desc(|| format!("weights of {} x {} and {} x {}", n1, a, n2, b));
    let w1 = power_heuristic(n1, a, n2, b) as f64;
    let w2 = power_heuristic(n2, b, n1, a) as f64;
    ctx.nontrivial();
    ctx.cmp();
    ensure!(w1 >= 0. && w2 >= 0. && (w1 + w2 - 1.).abs() < 1e-5, "weights of densities {} x {} and {} x {} are {} and {}", n1, a, n2, b, w1, w2);
    // the denser strategy weighs more
    let (p, q) = (n1 as f64 * a as f64, n2 as f64 * b as f64);
    ensure!((p > q * 1.0001) <= (w1 >= w2), "weights of densities {} x {} and {} x {} are {} and {}", n1, a, n2, b, w1, w2);
    Ok(())
}

pub static C32: Prop = Prop {
    id: "C32",
    rule: "case: a sample point with containment and local area scale checked (points), a stratified covering of the target (cover), a frame, or a pair of densities",
    assumptions: &[
        "local area scale is compared where the warp is smooth around the point and f32 noise stays below the tolerance",
        "densities between 1e-37 and 1e37 or zero, not both zero",
    ],
    subs: &[
        Sub { name: "points", quick: 10_000_000, thorough: 80_000_000, f: c32_points },
        Sub { name: "cover", quick: 15_000, thorough: 120_000, f: c32_cover },
        Sub { name: "frames", quick: 1_000_000, thorough: 20_000_000, f: c32_frames },
        Sub { name: "weights", quick: 1_000_000, thorough: 20_000_000, f: c32_weights },
    ],
};
