//! C20, C21, C22: film, tiles and output.
use crate::engine::*;
use crate::{ensure, fail};
use pt::api::*;
use pt::verif::{BBox2, BBox2i, Filter, Point2, Point2i};

// ------------------------------------------------------------ filters

#[derive(Clone, Debug)]
pub enum Flt {
    Box(f32),
    /// (1 + a x) (1 + b y^2)
    Poly(f32, f32, f32),
    /// cone cut off at the rim, constant in one direction
    Tent(f32, bool),
    Gauss(f32, f32),
    /// numbered bins, to tell every weight from every other
    Bins(f32),
}
impl Flt {
    pub fn r(&self) -> f32 {
        match self {
            Flt::Box(r) | Flt::Poly(r, _, _) | Flt::Tent(r, _) | Flt::Gauss(r, _) | Flt::Bins(r) => *r,
        }
    }
    pub fn w(&self, x: f64, y: f64) -> f64 {
        let r = self.r() as f64;
        match *self {
            Flt::Box(_) => 1.,
            Flt::Poly(_, a, b) => (1. + a as f64 * x / r) * (1. + b as f64 * y * y / r / r),
            Flt::Tent(_, in_x) => (1.02 - if in_x { x } else { y } / r).max(0.),
            Flt::Gauss(_, a) => {
                let a = a as f64;
                let e = (-a * r * r).exp();
                ((-a * x * x).exp() - e).max(0.) * ((-a * y * y).exp() - e).max(0.)
            }
            Flt::Bins(_) => 0.05 + ((x / r * 16.).floor() * 7. + (y / r * 16.).floor() * 3.) % 16.,
        }
    }
    pub fn film(&self, w: u32, h: u32) -> Film {
        let res = Point2u { x: w, y: h };
        match self {
            Flt::Gauss(r, a) => Film::new(res, GaussianFilter::new(*r, *a)),
            f => Film::new(res, f.clone()),
        }
    }
}
impl Filter for Flt {
    fn radius(&self) -> f32 {
        self.r()
    }
    fn evaluate(&self, p: Point2f) -> f32 {
        self.w(p.x as f64, p.y as f64) as f32
    }
}

pub fn gen_filter(src: &mut Src) -> Flt {
    let r = match src.weighted(&[4, 3]) {
        0 => src.pick(&[0.5, 1., 2., 1.5, 0.75, 3., 0.25]),
        _ => src.range(0.3, 4.) as f32,
    };
    match src.weighted(&[2, 3, 2, 3, 2]) {
        0 => Flt::Box(r),
        1 => Flt::Poly(r, src.range(-0.9, 3.) as f32, src.range(-0.9, 3.) as f32),
        2 => Flt::Tent(r, src.bool()),
        3 => Flt::Gauss(r, src.pick(&[2., 0.5, 1., 4.])),
        _ => Flt::Bins(r),
    }
}

pub fn gen_res(src: &mut Src, max: i64) -> (u32, u32) {
    let f = |src: &mut Src| match src.weighted(&[4, 3, 1]) {
        0 => src.int(1, 20.min(max)) as u32,
        1 => src.int(1, max) as u32,
        _ => src.pick(&[1, 15, 16, 17, 31, 32, 33]),
    };
    (f(src), f(src))
}

// ------------------------------------------------------------ colour codes

pub fn srgb(v: f64) -> f64 {
    if v <= 0.0031308 { 12.92 * v } else { 1.055 * v.powf(1. / 2.4) - 0.055 }
}
pub fn unsrgb(v: f64) -> f64 {
    if v <= 0.04045 { v / 12.92 } else { ((v + 0.055) / 1.055).powf(2.4) }
}
/// the exact level before rounding
pub fn level(v: f64) -> f64 {
    if !(v > 0.) { 0. } else { (srgb(v.min(1.)) * 255.).min(255.) }
}
/// linear value of a code
pub fn linear(code: u32) -> f64 {
    unsrgb(code as f64 / 255.)
}
/// linear values that round to the code
pub fn cell(code: u32) -> (f64, f64) {
    let lo = if code == 0 { 0. } else { unsrgb((code as f64 - 0.5) / 255.) };
    let hi = if code >= 255 { f64::INFINITY } else { unsrgb((code as f64 + 0.5) / 255.) };
    (lo, hi)
}
/// may a linear value within [v - e, v + e] be written as `code`?
pub fn code_ok(code: u32, v: f64, e: f64) -> bool {
    let lo = (level(v - e) - 2e-4 + 0.5).floor().max(0.) as u32;
    let hi = (level(v + e) + 2e-4 + 0.5).floor().min(255.) as u32;
    code >= lo && code <= hi
}

pub struct Image {
    pub w: usize,
    pub h: usize,
    pub px: Vec<[u32; 3]>,
}
impl Image {
    pub fn at(&self, x: usize, y: usize) -> [u32; 3] {
        self.px[y * self.w + x]
    }
}

/// strict reader of plain PPM images
pub fn parse_ppm(data: &[u8]) -> Result<Image, String> {
    let txt = std::str::from_utf8(data).map_err(|e| format!("not text: {}", e))?;
    let mut it = txt.split_ascii_whitespace();
    if !txt.starts_with("P3") || it.next() != Some("P3") {
        return Err(format!("does not start with the magic number of a plain PPM: {:?}", txt.chars().take(20).collect::<String>()));
    }
    let mut num = |what: &str| -> Result<u32, String> {
        let t = it.next().ok_or(format!("ends before {}", what))?;
        if !t.bytes().all(|b| b.is_ascii_digit()) {
            return Err(format!("{} is {:?}", what, t));
        }
        t.parse::<u32>().map_err(|e| format!("{} is {:?}: {}", what, t, e))
    };
    let w = num("the width")? as usize;
    let h = num("the height")? as usize;
    let m = num("the maximum")?;
    if m != 255 {
        return Err(format!("maximum is {}", m));
    }
    let mut px = Vec::with_capacity((w * h).min(1 << 24));
    for i in 0..w * h {
        let mut c = [0; 3];
        for x in c.iter_mut() {
            *x = num(&format!("the value of pixel {} of {}x{}", i, w, h))?;
            if *x > 255 {
                return Err(format!("pixel {} has value {}", i, x));
            }
        }
        px.push(c);
    }
    if let Some(t) = it.next() {
        return Err(format!("{} pixels are followed by {:?}", w * h, t));
    }
    if txt.lines().any(|l| l.len() > 70) {
        return Err("a line is longer than 70 characters".into());
    }
    Ok(Image { w, h, px })
}

pub fn write(film: &Film) -> Result<Image, String> {
    let mut buf = vec![];
    film.write_image_ppm(&mut buf);
    let i = parse_ppm(&buf)?;
    if (i.w as i32, i.h as i32) != (film.resolution.x, film.resolution.y) {
        return Err(format!("image is {}x{}, film {:?}", i.w, i.h, film.resolution));
    }
    Ok(i)
}

fn tiles(film: &Film) -> Vec<BBox2i> {
    film.iter().collect()
}

#[derive(Clone, Debug)]
pub struct Smp {
    pub x: f32,
    pub y: f32,
    pub v: [f64; 3],
}

fn sample_value(src: &mut Src) -> [f64; 3] {
    let f = |src: &mut Src| match src.weighted(&[5, 2, 1, 1]) {
        0 => src.unit() as f32 as f64,
        1 => src.logrange(1e-4, 1.) as f32 as f64,
        2 => 0.,
        _ => src.range(1., 10.) as f32 as f64,
    };
    [f(src), f(src), f(src)]
}

fn spec(v: [f64; 3]) -> Spectrum {
    Spectrum::new(v[0] as f32, v[1] as f32, v[2] as f32)
}

fn frac(src: &mut Src) -> f64 {
    match src.weighted(&[6, 1]) {
        0 => src.unit(),
        _ => src.pick(&[0., 0.5, 0.25, 0.999]),
    }
}

fn gen_samples(src: &mut Src, film: &Film, max: usize) -> Vec<Smp> {
    let bb = film.sample_bbox();
    let n = match src.weighted(&[2, 3]) {
        0 => src.usize(1, 10),
        _ => src.usize(1, max),
    };
    let hot = (src.unit(), src.unit());
    let mut out = vec![];
    for _ in 0..n {
        let (mut px, mut py) = (src.int(bb.min.x as i64, (bb.max.x - 1) as i64), src.int(bb.min.y as i64, (bb.max.y - 1) as i64));
        match src.weighted(&[4, 2, 2]) {
            1 => {
                // border
                if src.bool() {
                    px = src.pick(&[bb.min.x as i64, bb.max.x as i64 - 1, 0, film.resolution.x as i64 - 1]);
                } else {
                    py = src.pick(&[bb.min.y as i64, bb.max.y as i64 - 1, 0, film.resolution.y as i64 - 1]);
                }
            }
            2 => {
                // crowd
                px = bb.min.x as i64 + ((bb.max.x - bb.min.x) as f64 * hot.0) as i64;
                py = bb.min.y as i64 + ((bb.max.y - bb.min.y) as f64 * hot.1) as i64;
            }
            _ => {}
        }
        px = px.max(bb.min.x as i64).min(bb.max.x as i64 - 1);
        py = py.max(bb.min.y as i64).min(bb.max.y as i64 - 1);
        // stay inside the position [p, p + 1) in single precision
        let f = |p: i64, u: f64| {
            let x = (p as f64 + u) as f32;
            if x as f64 >= (p + 1) as f64 { p as f32 } else { x }
        };
        let (fx, fy) = (frac(src), frac(src));
        out.push(Smp { x: f(px, fx), y: f(py, fy), v: sample_value(src) });
    }
    out
}

/// position of the sample as the renderer counts them
fn cell_of(s: &Smp) -> (i32, i32) {
    (s.x.floor() as i32, s.y.floor() as i32)
}

fn bs(b: &BBox2i) -> String {
    format!("({}, {})..({}, {})", b.min.x, b.min.y, b.max.x, b.max.y)
}

fn inside(b: &BBox2i, p: (i32, i32)) -> bool {
    p.0 >= b.min.x && p.0 < b.max.x && p.1 >= b.min.y && p.1 < b.max.y
}

fn render_tiles(film: &Film, samples: &[Smp], parts: &[BBox2i]) -> Result<(), Fail> {
    for b in parts {
        let mut t = film.get_film_tile(*b);
        for s in samples {
            if inside(b, cell_of(s)) {
                t.add_sample(Point2f::new(s.x, s.y), spec(s.v));
            }
        }
        film.merge_film_tile(t);
    }
    Ok(())
}

fn shuffle<T>(src: &mut Src, v: &mut Vec<T>) {
    for i in (1..v.len()).rev() {
        let j = src.usize(0, i);
        v.swap(i, j);
    }
}

/// expected pixel: Some((weighted mean, weight sum, sum of absolute contributions)), None if too close to call
pub fn pixel_model(f: &Flt, samples: &[Smp], x: usize, y: usize) -> Option<([f64; 3], f64)> {
    let r = f.r() as f64;
    let (cx, cy) = (x as f64 + 0.5, y as f64 + 0.5);
    let mut sum = [0.; 3];
    let mut ws = 0.;
    for s in samples {
        let d = [(s.x as f64 - cx).abs(), (s.y as f64 - cy).abs()];
        let e = 1e-5 * (1. + s.x.abs().max(s.y.abs()) as f64 * 0.1);
        if d[0] > r + e || d[1] > r + e {
            continue;
        }
        let mut bin = [0.; 2];
        for k in 0..2 {
            if d[k] > r - e {
                return None;
            }
            let q = d[k] / r * 16.;
            if (q - q.round()).abs() < 16. * e / r + 1e-5 && q.round() > 0. {
                // exactly representable quotients may be decided
                return None;
            }
            bin[k] = (q.floor()).min(15.);
        }
        let w = f.w((bin[0] + 0.5) / 16. * r, (bin[1] + 0.5) / 16. * r);
        ws += w;
        for k in 0..3 {
            sum[k] += w * s.v[k];
        }
    }
    if ws > 0. {
        for k in 0..3 {
            sum[k] /= ws;
        }
    }
    Some((sum, ws))
}

fn c20_average(src: &mut Src, ctx: &mut Ctx) -> R {
    let f = gen_filter(src);
    let (w, h) = gen_res(src, 40);
    let film = f.film(w, h);
    let samples = gen_samples(src, &film, 120);
    let mut parts = tiles(&film);
    shuffle(src, &mut parts);
    render_tiles(&film, &samples, &parts)?;
    let img = match write(&film) {
        Ok(i) => i,
        Err(e) => fail!("{}x{} film: {}", w, h, e),
    };
    ctx.desc(|| format!("{}x{} film, {:?}, {} samples", w, h, f, samples.len()));
    ctx.label(match f { Flt::Box(_) => "box", Flt::Poly(..) => "poly", Flt::Tent(..) => "tent", Flt::Gauss(..) => "gauss", Flt::Bins(_) => "bins" });
    for y in 0..h as usize {
        for x in 0..w as usize {
            let (m, ws) = match pixel_model(&f, &samples, x, y) {
                Some(m) => m,
                None => {
                    ctx.label("boundary pixel");
                    continue;
                }
            };
            let got = img.at(x, y);
            if ws == 0. {
                ctx.label("pixel without samples");
            } else if ws < 1e-6 {
                continue;
            } else {
                ctx.label("covered pixel");
                ctx.nontrivial();
            }
            ctx.cmp();
            for k in 0..3 {
                ensure!(
                    code_ok(got[k], m[k], 3e-6 * m[k] + 1e-7),
                    "{}x{} film, {:?}, {} samples: channel {} of pixel ({}, {}) is written as {}, expected level {:.3} (weighted mean {})", w, h, f, samples.len(), k, x, y, got[k], level(m[k]), m[k]
                );
            }
        }
    }
    Ok(())
}

/// A constant stays constant, scaling scales.
fn c20_laws(src: &mut Src, ctx: &mut Ctx) -> R {
    let f = gen_filter(src);
    let (w, h) = gen_res(src, 40);
    let film = f.film(w, h);
    let mut samples = gen_samples(src, &film, 200);
    if src.bool() {
        ctx.label("constant");
        let v = samples[0].v;
        for s in samples.iter_mut() {
            s.v = v;
        }
        let parts = tiles(&film);
        render_tiles(&film, &samples, &parts)?;
        let img = match write(&film) {
            Ok(i) => i,
            Err(e) => fail!("{}x{} film: {}", w, h, e),
        };
        for (i, p) in img.px.iter().enumerate() {
            let (x, y) = (i % w as usize, i / w as usize);
            let ws: f64 = match pixel_model(&f, &samples, x, y) {
                Some((_, ws)) => ws,
                None => continue,
            };
            if ws < 1e-6 {
                continue;
            }
            ctx.cmp();
            ctx.nontrivial();
            for k in 0..3 {
                ensure!(code_ok(p[k], v[k], 3e-6 * v[k]), "{}x{} film, {:?}: all samples are {:?} but pixel ({}, {}) is {:?}", w, h, f, v, x, y, p);
            }
        }
    } else {
        ctx.label("scaled");
        let k = src.pick(&[0.5, 0.25, 0.0625]);
        let parts = tiles(&film);
        render_tiles(&film, &samples, &parts)?;
        let film2 = f.film(w, h);
        for s in samples.iter_mut() {
            for c in s.v.iter_mut() {
                *c *= k;
            }
        }
        let mut parts = tiles(&film2);
        shuffle(src, &mut parts);
        render_tiles(&film2, &samples, &parts)?;
        let (a, b) = match (write(&film), write(&film2)) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(e), _) | (_, Err(e)) => fail!("{}x{} film: {}", w, h, e),
        };
        for (i, (p, q)) in a.px.iter().zip(b.px.iter()).enumerate() {
            match pixel_model(&f, &samples, i % w as usize, i / w as usize) {
                // weights of the tail of a filter may underflow
                Some((_, ws)) if ws > 0. && ws < 1e-6 => continue,
                None if matches!(f, Flt::Gauss(..)) => continue,
                _ => {}
            }
            for c in 0..3 {
                if p[c] == 255 {
                    continue;
                }
                ctx.cmp();
                if p[c] > 0 {
                    ctx.nontrivial();
                }
                let (lo, hi) = cell(p[c]);
                let (lo, hi) = ((level(lo * k) - 1e-3 + 0.5).floor(), (level(hi * k) + 1e-3 + 0.5).floor());
                ensure!(q[c] as f64 >= lo && q[c] as f64 <= hi, "{}x{} film, {:?}: scaling all samples by {} turns channel {} of pixel {} from {} into {}", w, h, f, k, c, i, p[c], q[c]);
            }
        }
    }
    ctx.desc(|| format!("{}x{} film, {:?}, {} samples", w, h, f, samples.len()));
    Ok(())
}

/// A film of more than 2^24 pixels: a few coloured pixels, the rest stay black.
fn c20_huge(src: &mut Src, ctx: &mut Ctx) -> R {
    let w = src.usize(3000, 6000);
    let h = (src.usize(16_790_000, 17_500_000)) / w + 1;
    let film = Flt::Box(0.5).film(w as u32, h as u32);
    let mut b = Src::random(src.seed());
    let mut want: std::collections::BTreeMap<(usize, usize), [f64; 3]> = std::collections::BTreeMap::new();
    for k in 0..300 {
        let p = match k {
            0 => (0, 0),
            1 => (w - 1, h - 1),
            2 => (0, h - 1),
            3 => (w - 1, 0),
            _ if k < 100 => (b.usize(0, w - 1), h - 1 - b.usize(0, 2)),
            _ => (b.usize(0, w - 1), b.usize(0, h - 1)),
        };
        want.insert(p, [b.range(0.05, 0.95), b.range(0.05, 0.95), b.range(0.05, 0.95)]);
    }
    ctx.nontrivial();
    ctx.desc(|| format!("{}x{} film with {} coloured pixels", w, h, want.len()));
    for bb in tiles(&film) {
        let mut it = want.iter().filter(|(p, _)| (bb.min.x..bb.max.x).contains(&(p.0 as i32)) && (bb.min.y..bb.max.y).contains(&(p.1 as i32))).peekable();
        if it.peek().is_none() {
            continue;
        }
        let mut t = film.get_film_tile(bb);
        for (p, c) in it {
            t.add_sample(Point2f::new(p.0 as f32 + 0.5, p.1 as f32 + 0.5), spec(*c));
        }
        film.merge_film_tile(t);
    }
    let img = match write(&film) {
        Ok(i) => i,
        Err(e) => fail!("image of a {}x{} film: {}", w, h, e),
    };
    ensure!(img.w == w && img.h == h, "image of a {}x{} film is {}x{}", w, h, img.w, img.h);
    let mut lit = 0;
    for (i, p) in img.px.iter().enumerate() {
        lit += (*p != [0; 3]) as usize;
        let (x, y) = (i % w, i / w);
        if *p != [0; 3] {
            ctx.cmp();
            match want.get(&(x, y)) {
                None => fail!("pixel ({},{}) of a {}x{} film received no sample but is {:?}", x, y, w, h, p),
                Some(c) => {
                    for k in 0..3 {
                        ensure!(code_ok(p[k], c[k], 1e-5 * c[k]), "pixel ({},{}) of a {}x{} film received {:?} but is {:?}", x, y, w, h, c, p);
                    }
                }
            }
        }
    }
    ensure!(lit == want.len(), "{} pixels of a {}x{} film received samples, {} are not black", want.len(), w, h, lit);
    Ok(())
}

pub static C20: Prop = Prop {
    id: "C20",
    rule: "case: a film with at least one pixel that has samples within the filter radius and a decided value",
    assumptions: &[
        "filters are symmetric about their centre (the table stores one quadrant), weights are not negative",
        "pixels with a sample within 1e-5 of the filter's rim or of a step of its table are not compared",
    ],
    subs: &[
        Sub { name: "average", quick: 180_000, thorough: 6_000_000, f: c20_average },
        Sub { name: "laws", quick: 90_000, thorough: 3_000_000, f: c20_laws },
        Sub { name: "huge", quick: 2, thorough: 24, f: c20_huge },
    ],
};

// ---------------------------------------------------------------- C21

fn bb(x0: i32, y0: i32, x1: i32, y1: i32) -> BBox2i {
    BBox2 { min: Point2 { x: x0, y: y0 }, max: Point2 { x: x1, y: y1 } }
}

fn c21_partition(src: &mut Src, ctx: &mut Ctx) -> R {
    let f = match src.weighted(&[4, 1]) {
        0 => gen_filter(src),
        _ => Flt::Box(src.range(0., 12.) as f32),
    };
    let (w, h) = if src.pct(20) { gen_res(src, 300) } else { gen_res(src, 70) };
    c21_partition_of(&f, w, h, ctx)
}
fn c21_partition_of(f: &Flt, w: u32, h: u32, ctx: &mut Ctx) -> R {
    let film = f.film(w, h);
    let sb = film.sample_bbox();
    // every position that can influence a pixel
    let r = f.r() as f64;
    ensure!(
        sb.min.x as f64 <= 0.5 - r + 1e-6 && sb.min.y as f64 <= 0.5 - r + 1e-6 && sb.max.x as f64 >= w as f64 - 0.5 + r - 1e-4 && sb.max.y as f64 >= h as f64 - 0.5 + r - 1e-4,
        "sampled area {:?} of a {}x{} film does not cover the filter radius {}", bs(&sb), w, h, r
    );
    let (sw, sh) = ((sb.max.x - sb.min.x) as usize, (sb.max.y - sb.min.y) as usize);
    ensure!(sw as f64 <= w as f64 + 2. * r + 2. && sh as f64 <= h as f64 + 2. * r + 2., "sampled area {:?} of a {}x{} film exceeds the filter radius {}", bs(&sb), w, h, r);
    let mut seen = vec![0u8; sw * sh];
    let ts = tiles(&film);
    for t in &ts {
        ensure!(t.min.x >= sb.min.x && t.min.y >= sb.min.y && t.max.x <= sb.max.x && t.max.y <= sb.max.y, "tile {:?} leaves the sampled area {:?}", bs(t), bs(&sb));
        for p in t.iter() {
            ensure!(inside(t, (p.x, p.y)), "position {:?} enumerated in tile {:?}", p, bs(t));
            let k = (p.y - sb.min.y) as usize * sw + (p.x - sb.min.x) as usize;
            ensure!(seen[k] == 0, "position {:?} of a {}x{} film belongs to two tiles", p, w, h);
            seen[k] = 1;
        }
    }
    ctx.cmp();
    if ts.len() > 1 {
        ctx.nontrivial();
    }
    ctx.label(if ts.len() > 1 { "several tiles" } else { "one tile" });
    ctx.desc(|| format!("{}x{} film, radius {}: {} tiles over {:?}", w, h, r, ts.len(), bs(&sb)));
    if let Some(k) = seen.iter().position(|&x| x == 0) {
        fail!("position ({}, {}) of a {}x{} film with filter radius {} belongs to no tile", sb.min.x + (k % sw) as i32, sb.min.y + (k / sw) as i32, w, h, r);
    }
    Ok(())
}

/// Splits the rectangle into parts.
fn split(src: &mut Src, b: BBox2i, out: &mut Vec<BBox2i>, depth: u32) {
    let (w, h) = (b.max.x - b.min.x, b.max.y - b.min.y);
    if depth == 0 || src.pct(20) || (w <= 1 && h <= 1) {
        out.push(b);
        return;
    }
    if (src.bool() && w > 1) || h <= 1 {
        let x = b.min.x + src.int(1, w as i64 - 1) as i32;
        split(src, bb(b.min.x, b.min.y, x, b.max.y), out, depth - 1);
        split(src, bb(x, b.min.y, b.max.x, b.max.y), out, depth - 1);
    } else {
        let y = b.min.y + src.int(1, h as i64 - 1) as i32;
        split(src, bb(b.min.x, b.min.y, b.max.x, y), out, depth - 1);
        split(src, bb(b.min.x, y, b.max.x, b.max.y), out, depth - 1);
    }
}

fn c21_merge(src: &mut Src, ctx: &mut Ctx) -> R {
    let f = gen_filter(src);
    let (w, h) = gen_res(src, 50);
    c21_merge_of(f, w, h, 200, src, ctx)
}
fn c21_merge_of(f: Flt, w: u32, h: u32, max: usize, src: &mut Src, ctx: &mut Ctx) -> R {
    let film = f.film(w, h);
    let samples = gen_samples(src, &film, max);
    let sb = film.sample_bbox();
    // reference: one tile for everything
    render_tiles(&film, &samples, &[sb])?;
    let a = match write(&film) {
        Ok(a) => a,
        Err(e) => fail!("{}x{} film: {}", w, h, e),
    };
    for round in 0..2 {
        let film2 = f.film(w, h);
        let mut parts = vec![];
        if round == 0 {
            parts = tiles(&film2);
        } else {
            let d = src.usize(1, 6) as u32;
            split(src, sb, &mut parts, d);
        }
        shuffle(src, &mut parts);
        // several tiles may be open at the same time
        let mut open: Vec<_> = parts.iter().map(|b| (*b, film2.get_film_tile(*b))).collect();
        for s in &samples {
            let c = cell_of(s);
            let mut n = 0;
            for (b, t) in open.iter_mut() {
                if inside(b, c) {
                    t.add_sample(Point2f::new(s.x, s.y), spec(s.v));
                    n += 1;
                }
            }
            ensure!(n == 1, "sample at ({}, {}) belongs to {} tiles of {:?}", s.x, s.y, n, parts.iter().map(bs).collect::<Vec<_>>());
        }
        shuffle(src, &mut open);
        for (_, t) in open {
            film2.merge_film_tile(t);
        }
        let b = match write(&film2) {
            Ok(a) => a,
            Err(e) => fail!("{}x{} film: {}", w, h, e),
        };
        ctx.label(if round == 0 { "handed out tiles" } else { "other division" });
        if parts.len() > 1 {
            ctx.nontrivial();
        }
        ctx.desc(|| format!("{}x{} film, {:?}, {} samples, {} parts", w, h, f, samples.len(), parts.len()));
        for (i, (p, q)) in a.px.iter().zip(b.px.iter()).enumerate() {
            ctx.cmp();
            for k in 0..3 {
                if p[k] != q[k] {
                    // rounding of sums: only next to a rounding boundary
                    let (x, y) = (i % w as usize, i / w as usize);
                    let ok = match pixel_model(&f, &samples, x, y) {
                        Some((m, ws)) => (ws > 0. && ws < 1e-6) || (code_ok(p[k], m[k], 3e-6 * m[k] + 1e-7) && code_ok(q[k], m[k], 3e-6 * m[k] + 1e-7)),
                        None => (p[k] as i64 - q[k] as i64).abs() <= 1 || matches!(f, Flt::Gauss(..)),
                    };
                    ensure!(ok, "{}x{} film, {:?}, {} samples: channel {} of pixel ({}, {}) is {} when collected in one tile, {} in {} tiles", w, h, f, samples.len(), k, x, y, p[k], q[k], parts.len());
                }
            }
        }
    }
    Ok(())
}

/// Sizes pictures have in practice.
fn big_res(src: &mut Src) -> (u32, u32) {
    match src.weighted(&[2, 2, 3, 1, 1]) {
        0 => src.pick(&[(1920, 1080), (1280, 720), (640, 480), (1024, 1024), (800, 600)]),
        1 => src.pick(&[(256, 256), (257, 255), (512, 512), (4096, 256), (256, 4096)]),
        2 => (src.usize(300, 1600) as u32, src.usize(300, 1200) as u32),
        3 => (src.usize(2000, 70_000) as u32, src.usize(1, 20) as u32),
        _ => (src.usize(1, 20) as u32, src.usize(2000, 70_000) as u32),
    }
}
fn c21_large(src: &mut Src, ctx: &mut Ctx) -> R {
    let (w, h) = big_res(src);
    let mut b = Src::random(src.seed());
    let f = gen_filter(&mut b);
    c21_partition_of(&f, w, h, ctx)?;
    c21_merge_of(f, w, h, 1500, &mut b, ctx)
}

pub static C21: Prop = Prop {
    id: "C21",
    rule: "case: a film divided into more than one tile",
    assumptions: &["films have positive width and height"],
    subs: &[
        Sub { name: "partition", quick: 240_000, thorough: 3_000_000, f: c21_partition },
        Sub { name: "merge", quick: 120_000, thorough: 3_000_000, f: c21_merge },
        Sub { name: "large", quick: 40, thorough: 3_000, f: c21_large },
    ],
};

// ---------------------------------------------------------------- C22

fn c22_codes(src: &mut Src, ctx: &mut Ctx) -> R {
    let (w, h) = gen_res(src, 24);
    c22_codes_of(w, h, src, ctx)
}
fn c22_large(src: &mut Src, ctx: &mut Ctx) -> R {
    let (w, h) = big_res(src);
    let mut b = Src::random(src.seed());
    c22_codes_of(w, h, &mut b, ctx)
}
fn c22_codes_of(w: u32, h: u32, src: &mut Src, ctx: &mut Ctx) -> R {
    let film = Flt::Box(0.5).film(w, h);
    let mut v: Vec<Option<[f64; 3]>> = vec![];
    {
        let f = |src: &mut Src| -> f64 {
            let x = match src.weighted(&[3, 3, 3, 1, 1, 2]) {
                0 => src.unit(),
                // next to the boundary between two levels
                1 => {
                    let k = src.int(0, 255) as f64;
                    unsrgb((k + src.pick(&[0.5, -0.5, 0., 0.49, 0.51, -0.49])) / 255.) * (1. + src.range(-3e-6, 3e-6))
                }
                2 => src.logrange(1e-6, 1.),
                3 => src.pick(&[0., 1., 0.0031308, 0.0031309, 1e-30, 0.99999994, 1.0000001]),
                4 => src.pick(&[2., 1e10, 1e30, 3e38, 1.5]),
                _ => src.range(0., 0.01),
            };
            x.max(0.) as f32 as f64
        };
        for _ in 0..w * h {
            v.push(if src.pct(5) { None } else { Some([f(src), f(src), f(src)]) });
        }
    }
    for b in tiles(&film) {
        let mut t = film.get_film_tile(b);
        for p in b.iter() {
            if p.x < 0 || p.y < 0 || p.x >= w as i32 || p.y >= h as i32 {
                continue;
            }
            if let Some(c) = v[(p.y as usize) * w as usize + p.x as usize] {
                t.add_sample(Point2f::new(p.x as f32 + 0.5, p.y as f32 + 0.5), spec(c));
            }
        }
        film.merge_film_tile(t);
    }
    let img = match write(&film) {
        Ok(i) => i,
        Err(e) => fail!("image of a {}x{} film: {}", w, h, e),
    };
    ctx.nontrivial();
    ctx.desc(|| format!("{}x{} film, first colours {:?}", w, h, &v[..v.len().min(3)]));
    let mut all: Vec<(f64, u32)> = vec![];
    for (i, p) in img.px.iter().enumerate() {
        ctx.cmp();
        match v[i] {
            None => ensure!(*p == [0; 3], "pixel {} without samples is {:?}", i, p),
            Some(c) => {
                for k in 0..3 {
                    let lv = level(c[k]);
                    // single precision evaluation of the curve
                    let e = 3e-6 * lv + if c[k] > 0. { 4e-5 } else { 0. };
                    let lo = (lv - e + 0.5).floor().max(0.) as u32;
                    let hi = (lv + e + 0.5).floor().min(255.) as u32;
                    ensure!(p[k] >= lo && p[k] <= hi, "linear value {} (sRGB level {:.4}) in channel {} of pixel {} is written as {}", c[k], lv, k, i, p[k]);
                    if c[k] == 0. {
                        ctx.label("black");
                        ensure!(p[k] == 0, "black is written as {}", p[k]);
                    }
                    if c[k] >= 1. {
                        ctx.label("white");
                        ensure!(p[k] == 255, "{} is written as {}", c[k], p[k]);
                    }
                    all.push((c[k], p[k]));
                }
            }
        }
    }
    all.sort_by(|a, b| a.partial_cmp(b).unwrap());
    for q in all.windows(2) {
        ensure!(q[0].1 <= q[1].1 || q[0].0 == q[1].0, "linear values {} and {} are written as {} and {}", q[0].0, q[1].0, q[0].1, q[1].1);
    }
    let _ = Point2i { x: 0, y: 0 };
    Ok(())
}

pub static C22: Prop = Prop {
    id: "C22",
    rule: "case: an image with at least one pixel that has a sample",
    assumptions: &["levels within 4e-5 of a rounding boundary may be written either way (single precision)"],
    subs: &[Sub { name: "codes", quick: 360_000, thorough: 10_000_000, f: c22_codes }, Sub { name: "large", quick: 40, thorough: 3_000, f: c22_large }],
};
