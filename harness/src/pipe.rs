//! C23, C24, C30: the whole pipeline, its output file, threads and robustness.
use crate::engine::*;
use crate::film::{code_ok, gen_filter, level, parse_ppm, pixel_model, Flt, Image, Smp};
use crate::gen::*;
use crate::m::*;
use crate::optics::*;
use crate::render::*;
use crate::{discard, ensure, fail};
use pt::api::*;
use pt::verif::{Camera, CameraSample, Point2i, Ray, Sampler};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

// ------------------------------------------------------------ a scene of plain colours

/// Emitters side by side; the camera looks at one of them depending on the position on the film.
pub fn palette(colors: &[S3]) -> (World, Vec<(V, V)>) {
    let mut w = World::default();
    let mut rays = vec![];
    for (k, l) in colors.iter().enumerate() {
        let c = V(10. * k as f64, 0., 5.);
        let mut t = Tri::new(c + V(2., 2., 0.), c + V(-2., 2., 0.), c + V(0., -2., 0.));
        if crate::light::emit_normal(&t).2 > 0. {
            t.rev = !t.rev;
        }
        w.objs.push(Obj { sh: Sh::T(t), mat: black(), le: Some(*l) });
        rays.push((V(10. * k as f64, 0., 0.), V(0., 0., 1.)));
    }
    (w, rays)
}

fn colors(src: &mut Src, n: usize) -> Vec<S3> {
    (0..n)
        .map(|_| {
            let mut f = || match src.weighted(&[5, 2, 1, 1]) {
                0 => src.unit() as f32 as f64,
                1 => src.logrange(1e-3, 1.) as f32 as f64,
                2 => 0.,
                _ => src.range(1., 5.) as f32 as f64,
            };
            [f(), f(), f()]
        })
        .collect()
}

/// which colour a film position shows
fn which(x: f32, y: f32, fine: f64, salt: u64, n: usize) -> usize {
    let a = (x as f64 * fine).floor() as i64;
    let b = (y as f64 * fine).floor() as i64;
    (mix(&[a as u64, b as u64, salt]) % n as u64) as usize
}

#[derive(Clone)]
struct PalCam {
    rays: Arc<Vec<(V, V)>>,
    fine: f64,
    salt: u64,
}
impl Camera for PalCam {
    fn generate_ray(&self, s: &CameraSample) -> Ray {
        let (o, d) = self.rays[which(s.p_film.x, s.p_film.y, self.fine, self.salt, self.rays.len())];
        ray(o.p(), d.v(), f32::INFINITY)
    }
}

// ---------------------------------------------------------------- C23

const OUT: &str = "output.ppm";

fn clean() {
    if let Ok(m) = std::fs::symlink_metadata(OUT) {
        if m.file_type().is_dir() {
            let _ = std::fs::remove_dir_all(OUT);
        } else {
            let _ = std::fs::remove_file(OUT);
        }
    }
}

fn res(src: &mut Src, max: usize) -> (u32, u32) {
    match src.weighted(&[3, 1, 1, 2]) {
        0 => (src.usize(1, 12) as u32, src.usize(1, 12) as u32),
        1 => (src.usize(1, max) as u32, 1),
        2 => (1, src.usize(1, max) as u32),
        _ => (src.usize(1, max) as u32, src.usize(1, max) as u32),
    }
}

/// renders a mosaic; Ok(Err(())) if the render failed visibly
fn mosaic(w: u32, h: u32, cols: &[S3], salt: u64, threads: u8, limit: Option<u64>) -> Result<(), ()> {
    let (world, rays) = palette(cols);
    let film = Flt::Box(0.5).film(w, h);
    let cam = PalCam { rays: Arc::new(rays), fine: 1., salt };
    let scene = world.simple([1.; 3]);
    let int = Integrator::new(scene, SeqSampler::new(1, 1, false), cam, film);
    let old = limit.map(limit_file_size);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| int.render(threads)));
    if let Some(o) = old {
        limit_file_size(o);
    }
    // dropping happens after the fault is gone, as at the end of a program
    drop(int);
    r.map_err(|_| ())
}

fn compare_mosaic(img: &Image, w: u32, h: u32, cols: &[S3], salt: u64, what: &str) -> R {
    ensure!((img.w, img.h) == (w as usize, h as usize), "{}: image is {}x{}, the film {}x{}", what, img.w, img.h, w, h);
    for y in 0..h as usize {
        for x in 0..w as usize {
            let c = cols[which(x as f32 + 0.5, y as f32 + 0.5, 1., salt, cols.len())];
            let got = img.at(x, y);
            for k in 0..3 {
                ensure!(code_ok(got[k], c[k], 1e-6 * c[k]), "{}: channel {} of pixel ({}, {}) is {}, expected level {:.2}", what, k, x, y, got[k], level(c[k]));
            }
        }
    }
    Ok(())
}

fn read_image(what: &str) -> Result<Image, Fail> {
    let data = match std::fs::read(OUT) {
        Ok(d) => d,
        Err(e) => fail!("{}: the render finished, but its image cannot be read: {}", what, e),
    };
    match parse_ppm(&data) {
        Ok(i) => Ok(i),
        Err(e) => fail!("{}: the render finished, but the file ({} bytes) is not its image: {}", what, data.len(), e),
    }
}

/// Sequences of renders over whatever is in the file.
fn c23_replace(src: &mut Src, ctx: &mut Ctx) -> R {
    clean();
    let mut story = String::new();
    let mut before = 0u64;
    let n = src.usize(1, 4);
    for step in 0..n {
        let prev = src.weighted(&[if step == 0 { 2 } else { 4 }, 2, 1, 2]);
        match prev {
            1 => {
                // arbitrary bytes, also longer than the image
                let len = match src.weighted(&[2, 2, 1]) {
                    0 => src.usize(0, 60),
                    1 => src.usize(0, 20_000),
                    _ => src.usize(0, 200_000),
                };
                let b = src.pick(&[b'\n', b'0', b'x', 0u8, b' ']);
                std::fs::write(OUT, vec![b; len]).unwrap();
                story.push_str(&format!("{} bytes of {:?}; ", len, b as char));
                before = len as u64;
            }
            2 => {
                let _ = std::fs::remove_file(OUT);
                story.push_str("no file; ");
                before = 0;
            }
            3 if step > 0 => {
                // append to what is there
                use std::io::Write;
                let mut f = std::fs::OpenOptions::new().append(true).create(true).open(OUT).unwrap();
                let len = src.usize(1, 3000);
                f.write_all(&vec![b'7'; len]).unwrap();
                story.push_str(&format!("{} bytes appended; ", len));
                before += len as u64;
            }
            _ => {}
        }
        let (w, h) = res(src, 48);
        let nc = src.usize(1, 6);
        let cols = colors(src, nc);
        let salt = src.seed();
        let threads = src.pick(&[1, 2, 4]);
        story.push_str(&format!("render {}x{}; ", w, h));
        if mosaic(w, h, &cols, salt, threads, None).is_err() {
            fail!("{}the render of an ordinary image failed: {}", story, take_panic());
        }
        let img = read_image(&story)?;
        compare_mosaic(&img, w, h, &cols, salt, &story)?;
        let len = std::fs::metadata(OUT).map(|m| m.len()).unwrap_or(0);
        ctx.cmp();
        if before > len {
            ctx.label("over a longer file");
            ctx.nontrivial();
        } else if before > 0 {
            ctx.label("over a shorter file");
            ctx.nontrivial();
        } else {
            ctx.label("fresh file");
        }
        before = len;
    }
    ctx.desc(|| story.clone());
    Ok(())
}

/// Faults while opening and writing.
fn c23_fault(src: &mut Src, ctx: &mut Ctx) -> R {
    clean();
    let (w, h) = res(src, 64);
    let nc = src.usize(1, 6);
    let cols = colors(src, nc);
    let salt = src.seed();
    let threads = src.pick(&[1, 2]);
    // the size it takes
    if mosaic(w, h, &cols, salt, threads, None).is_err() {
        fail!("the render of an ordinary {}x{} image failed: {}", w, h, take_panic());
    }
    read_image("without fault")?;
    let full = std::fs::metadata(OUT).map(|m| m.len()).unwrap_or(0);
    clean();
    let prev = match src.weighted(&[3, 2, 1]) {
        0 => 0,
        1 => src.usize(1, full as usize * 2),
        _ => src.usize(1, 20_000),
    };
    if prev > 0 {
        std::fs::write(OUT, vec![b'#'; prev]).unwrap();
    }
    let kind = src.weighted(&[8, 2, 1, 1, 1]);
    let mut limit = None;
    let what;
    match kind {
        0 => {
            let n = match src.weighted(&[4, 2, 1, 1]) {
                0 => src.below(full + 1),
                1 => (full + 3).saturating_sub(src.below(8)),
                2 => (full / 8192 * 8192 + 4).saturating_sub(src.below(8)),
                _ => src.below(20),
            };
            limit = Some(n);
            what = format!("{}x{} image of {} bytes, files limited to {} bytes", w, h, full, n);
        }
        1 => {
            clean();
            if std::os::unix::fs::symlink("/dev/full", OUT).is_err() || !std::path::Path::new("/dev/full").exists() {
                discard!();
            }
            what = format!("{}x{} image to a full device", w, h);
        }
        2 => {
            clean();
            std::fs::create_dir(OUT).unwrap();
            what = format!("{}x{} image onto a directory", w, h);
        }
        3 => {
            clean();
            let _ = std::os::unix::fs::symlink("missing/dir/file", OUT);
            what = format!("{}x{} image through a dangling link into a missing directory", w, h);
        }
        _ => {
            // through a good link
            clean();
            let _ = std::fs::remove_file("other.ppm");
            std::fs::write("other.ppm", vec![b'1'; prev]).unwrap();
            let _ = std::os::unix::fs::symlink("other.ppm", OUT);
            what = format!("{}x{} image through a link", w, h);
        }
    }
    let possible = match kind {
        0 => limit.unwrap() >= full,
        4 => true,
        _ => false,
    };
    ctx.desc(|| what.clone());
    let r = mosaic(w, h, &cols, salt, threads, limit);
    let msg = take_panic();
    ctx.cmp();
    let verdict = (|| {
        match r {
            Ok(()) => {
                // finished as a success: then it must be the whole image
                if kind == 1 {
                    if std::fs::symlink_metadata(OUT).map_or(false, |m| m.file_type().is_symlink()) {
                        fail!("{}: the render finished as if it had succeeded", what);
                    }
                }
                let img = read_image(&what)?;
                compare_mosaic(&img, w, h, &cols, salt, &what)?;
                ctx.label(if possible { "written although limited" } else { "found another way" });
                Ok(())
            }
            Err(()) => {
                if possible {
                    fail!("{}: nothing hinders the write, but the render failed: {}", what, msg);
                }
                ctx.label(["reported short write", "reported full device", "reported directory", "reported bad link", ""][kind]);
                ctx.nontrivial();
                Ok(())
            }
        }
    })();
    clean();
    verdict
}

/// A destination that takes data in pieces, is interrupted, or stops taking anything.
struct Picky {
    got: Vec<u8>,
    rng: Rng,
    max: u64,
    interrupt: bool,
    fail_at: Option<(usize, std::io::ErrorKind)>,
    failed: bool,
}

impl std::io::Write for Picky {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.interrupt && self.rng.next() % 3 == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let mut n = (1 + (self.rng.next() % self.max) as usize).min(b.len());
        if let Some((at, kind)) = self.fail_at {
            if self.got.len() >= at {
                self.failed = true;
                return if kind == std::io::ErrorKind::WriteZero { Ok(0) } else { Err(kind.into()) };
            }
            n = n.min(at - self.got.len());
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        if self.failed { Err(std::io::ErrorKind::Other.into()) } else { Ok(()) }
    }
}

/// did it say it worked?
trait Outcome {
    fn fine(self) -> bool;
}
impl Outcome for () {
    fn fine(self) -> bool {
        true
    }
}
impl<T, E> Outcome for Result<T, E> {
    fn fine(self) -> bool {
        self.is_ok()
    }
}

/// The writer against destinations that take only part of what they are offered.
fn c23_writer(src: &mut Src, ctx: &mut Ctx) -> R {
    let (w, h) = res(src, 40);
    let film = Flt::Box(0.5).film(w, h);
    let mut tile = film.get_film_tile(film.sample_bbox());
    for y in 0..h {
        for x in 0..w {
            let c = color(src, 1.2);
            tile.add_sample(pt::verif::Point2f::new(x as f32 + 0.5, y as f32 + 0.5), Spectrum::new(c[0] as f32, c[1] as f32, c[2] as f32));
        }
    }
    film.merge_film_tile(tile);
    let mut want = vec![];
    film.write_image_ppm(&mut want);
    if let Err(m) = parse_ppm(&want) {
        fail!("{}x{} image: {}", w, h, m);
    }
    let fail_at = if src.bool() {
        let at = match src.weighted(&[4, 1, 1]) {
            0 => src.usize(0, want.len()),
            1 => want.len().saturating_sub(src.usize(0, 6)),
            _ => src.usize(0, 16).min(want.len()),
        };
        let kind = src.pick(&[std::io::ErrorKind::Other, std::io::ErrorKind::WriteZero, std::io::ErrorKind::BrokenPipe]);
        Some((at, kind))
    } else {
        None
    };
    let max = src.pick(&[1, 2, 5, 11, 64, 1 << 20]);
    let mut d = Picky { got: vec![], rng: Rng::new(src.seed()), max, interrupt: src.pct(40), fail_at, failed: false };
    let what = format!("{}x{} image of {} bytes to a destination taking up to {} bytes at a time{}{}", w, h, want.len(), max, if d.interrupt { ", interrupted" } else { "" }, match fail_at { None => String::new(), Some((n, k)) => format!(", failing after {} bytes ({:?})", n, k) });
    ctx.desc(|| what.clone());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| film.write_image_ppm(&mut d).fine()));
    take_panic();
    ctx.cmp();
    ctx.nontrivial();
    let success = r.unwrap_or(false);
    if success {
        ensure!(d.got == want, "{}: reported as written, but {} bytes arrived ({})", what, d.got.len(), if want.starts_with(&d.got) { "the beginning" } else { "not the image" });
        ctx.label("written");
    } else {
        ensure!(fail_at.map_or(false, |f| f.0 < want.len()), "{}: reported as failed", what);
        ensure!(want.starts_with(&d.got), "{}: what arrived before the failure is not the beginning of the image", what);
        ctx.label("failure reported");
    }
    Ok(())
}

pub static C23: Prop = Prop {
    id: "C23",
    rule: "case: a render over existing content, or a write fault that was reported",
    assumptions: &[
        "faults are file size limits at any byte, a full device, a directory or a dangling link in place of the file, destinations taking data in pieces or failing at any byte; loss after a successful write (no fsync) is out of scope",
        "reported means the render panics; a render that returns is held to have succeeded",
    ],
    subs: &[Sub { name: "replace", quick: 15_000, thorough: 1_000_000, f: c23_replace }, Sub { name: "fault", quick: 20_000, thorough: 1_500_000, f: c23_fault }, Sub { name: "writer", quick: 30_000, thorough: 1_500_000, f: c23_writer }],
};

// ---------------------------------------------------------------- C24

#[derive(Clone, Debug)]
enum Plan {
    Free,
    /// who may go on at the next gate
    Turns(Vec<u8>),
    /// wait for one another
    Convoy,
    /// one thread sleeps at its n-th gate
    Stall(Vec<(u8, u32, u32)>),
}

struct Gate {
    plan: Plan,
    threads: u8,
    salt: u64,
    rare: u64,
    st: Mutex<GateState>,
    cv: Condvar,
}
#[derive(Default)]
struct GateState {
    step: usize,
    waiting: u32,
    round: u64,
    clones: u32,
    gates: HashMap<u32, u32>,
    deadline: Option<Instant>,
}
impl Gate {
    fn pass(&self, id: u32, pixel: (i32, i32)) {
        if let Plan::Free = self.plan {
            return;
        }
        // last pixel of a tile of the usual size, and some others
        let corner = (pixel.0 + 1) % 8 == 0 && (pixel.1 + 1) % 8 == 0;
        if !corner && mix(&[self.salt, pixel.0 as u64, pixel.1 as u64]) % self.rare != 0 {
            return;
        }
        let mut g = self.st.lock().unwrap();
        let now = Instant::now();
        // the whole show is limited
        if now > *g.deadline.get_or_insert(now + Duration::from_millis(150)) {
            return;
        }
        let me = (id.max(1) - 1) % self.threads.max(1) as u32;
        match &self.plan {
            Plan::Free => {}
            Plan::Turns(v) => {
                let t0 = Instant::now();
                while v[g.step % v.len()] as u32 % self.threads as u32 != me {
                    let (a, b) = self.cv.wait_timeout(g, Duration::from_micros(150)).unwrap();
                    g = a;
                    if b.timed_out() || t0.elapsed() > Duration::from_micros(400) {
                        break;
                    }
                }
                g.step += 1;
                self.cv.notify_all();
            }
            Plan::Convoy => {
                g.waiting += 1;
                if g.waiting >= self.threads as u32 {
                    g.waiting = 0;
                    g.round += 1;
                    self.cv.notify_all();
                } else {
                    let r = g.round;
                    let t0 = Instant::now();
                    while g.round == r && t0.elapsed() < Duration::from_micros(600) {
                        g = self.cv.wait_timeout(g, Duration::from_micros(200)).unwrap().0;
                    }
                    if g.round == r {
                        g.waiting = g.waiting.saturating_sub(1);
                    }
                }
            }
            Plan::Stall(v) => {
                let n = g.gates.entry(me).or_insert(0);
                *n += 1;
                let n = *n;
                drop(g);
                for (t, at, us) in v {
                    if *t as u32 % self.threads as u32 == me && *at == n {
                        std::thread::sleep(Duration::from_micros(*us as u64));
                    }
                }
            }
        }
    }
}

/// counts what the renderer asks for
struct Watch<S> {
    inner: S,
    id: u32,
    gate: Arc<Gate>,
    log: Arc<Mutex<Vec<Arc<Mutex<Vec<Smp>>>>>>,
    mine: Arc<Mutex<Vec<Smp>>>,
}
impl<S: Clone> Clone for Watch<S> {
    fn clone(&self) -> Self {
        let mine = Arc::new(Mutex::new(vec![]));
        self.log.lock().unwrap().push(mine.clone());
        let mut g = self.gate.st.lock().unwrap();
        // the first clones are the threads' own; later clones keep their thread
        let id = if self.id == 0 {
            g.clones += 1;
            g.clones
        } else {
            self.id
        };
        Watch { inner: self.inner.clone(), id, gate: self.gate.clone(), log: self.log.clone(), mine }
    }
}
impl<S: Sampler> Sampler for Watch<S> {
    fn start_pixel(&mut self, p: Point2i) {
        self.gate.pass(self.id, (p.x, p.y));
        self.inner.start_pixel(p)
    }
    fn start_next_sample(&mut self) -> bool {
        self.inner.start_next_sample()
    }
    fn get_1d(&mut self) -> f32 {
        self.inner.get_1d()
    }
    fn get_2d(&mut self) -> Point2f {
        self.inner.get_2d()
    }
    fn get_camera_sample(&mut self, p: Point2i) -> CameraSample {
        let s = self.inner.get_camera_sample(p);
        self.mine.lock().unwrap().push(Smp { x: s.p_film.x, y: s.p_film.y, v: [p.x as f64, p.y as f64, 0.] });
        s
    }
}

fn gen_plan(src: &mut Src, threads: u8) -> Plan {
    match src.weighted(&[2, 3, 3, 3]) {
        0 => Plan::Free,
        1 => {
            let n = src.usize(1, 24);
            Plan::Turns((0..n).map(|_| src.below(threads as u64) as u8).collect())
        }
        2 => Plan::Convoy,
        _ => {
            let n = src.usize(1, 3);
            Plan::Stall((0..n).map(|_| (src.below(threads as u64) as u8, src.usize(1, 12) as u32, src.pick(&[100u32, 1000, 4000]))).collect())
        }
    }
}

/// Runs on a thread of its own; None if it does not end in time.
fn timed<T: Send + 'static, F: FnOnce() -> T + Send + 'static>(secs: u64, f: F) -> Option<Result<T, String>> {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let _ = tx.send(r.map_err(|_| take_panic()));
    });
    rx.recv_timeout(Duration::from_secs(secs)).ok()
}

fn gen_threads(src: &mut Src) -> u8 {
    match src.weighted(&[2, 4, 2, 1, 1]) {
        0 => 1,
        1 => src.usize(2, 4) as u8,
        2 => src.usize(5, 12) as u8,
        3 => src.usize(13, 64) as u8,
        _ => src.pick(&[64, 128, 255]),
    }
}

fn sampled_area(f: &Flt, w: u32, h: u32) -> (i32, i32, i32, i32) {
    let r = f.r() as f64;
    ((0.5 - r).floor() as i32, (0.5 - r).floor() as i32, (w as f64 - 0.5 + r).ceil() as i32, (h as f64 - 0.5 + r).ceil() as i32)
}

fn film_res(src: &mut Src) -> (u32, u32) {
    match src.weighted(&[2, 3, 1, 1]) {
        0 => (src.usize(1, 8) as u32, src.usize(1, 8) as u32),
        1 => (src.usize(8, 40) as u32, src.usize(8, 40) as u32),
        2 => (src.usize(30, 90) as u32, src.usize(1, 6) as u32),
        _ => (src.usize(1, 6) as u32, src.usize(30, 90) as u32),
    }
}

/// Plain colours: the exact picture whatever the schedule, and exact counts.
fn c24_exact(src: &mut Src, ctx: &mut Ctx) -> R {
    let f = gen_filter(src);
    if f.r() > 4. {
        discard!();
    }
    let (w, h) = film_res(src);
    c24_exact_of(f, w, h, 20, src, ctx)
}
fn c24_large(src: &mut Src, ctx: &mut Ctx) -> R {
    let (w, h) = match src.weighted(&[3, 1, 1, 1]) {
        0 => (src.usize(200, 700) as u32, src.usize(200, 600) as u32),
        1 => (src.usize(3000, 40_000) as u32, src.usize(1, 6) as u32),
        2 => (src.usize(1, 6) as u32, src.usize(3000, 40_000) as u32),
        _ => src.pick(&[(640, 480), (256, 256), (512, 512), (1024, 300)]),
    };
    let mut b = Src::random(src.seed());
    let f = gen_filter(&mut b);
    if f.r() > 1.2 {
        discard!();
    }
    c24_exact_of(f, w, h, 200, &mut b, ctx)
}
fn c24_exact_of(f: Flt, w: u32, h: u32, limit: u64, src: &mut Src, ctx: &mut Ctx) -> R {
    let nc = src.usize(2, 6);
    let cols = colors(src, nc);
    let (world, rays) = palette(&cols);
    let salt = src.seed();
    let fine = src.pick(&[1., 3., 0.2]);
    let threads = gen_threads(src);
    let spp = src.pick(&[1, 1, 2, 3, 5]);
    let plan = gen_plan(src, threads);
    let runs = if src.pct(15) { 2 } else { 1 };
    let which_sampler = src.weighted(&[3, 2, 1]);
    let gate = Arc::new(Gate { plan: plan.clone(), threads, salt, rare: src.pick(&[64, 200, 16]), st: Mutex::new(GateState::default()), cv: Condvar::new() });
    let log: Arc<Mutex<Vec<Arc<Mutex<Vec<Smp>>>>>> = Arc::new(Mutex::new(vec![]));
    let what = format!("{}x{} film, {:?}, {} samples per pixel ({}), {} threads, {:?}, {} run(s)", w, h, f, spp, ["independent", "halton", "random"][which_sampler], threads, plan, runs);
    ctx.desc(|| what.clone());
    let _ = std::fs::remove_file(OUT);
    let cam = PalCam { rays: Arc::new(rays), fine, salt };
    let film = f.film(w, h);
    macro_rules! go {
        ($s:expr) => {{
            let s = Watch { inner: $s, id: 0, gate: gate.clone(), log: log.clone(), mine: Arc::new(Mutex::new(vec![])) };
            let sc = world.simple([1.; 3]);
            timed(limit, move || {
                let i = Integrator::new(sc, s, cam, film);
                for _ in 0..runs {
                    i.render(threads);
                }
            })
        }};
    }
    let r = match which_sampler {
        0 => go!(SeqSampler::new(salt, spp, true)),
        1 => {
            let h = HaltonSampler::new(spp, film.sample_bbox());
            go!(h)
        }
        _ => go!(RandomSampler::new(spp)),
    };
    match r {
        None => fail!("{}: the render does not terminate", what),
        Some(Err(m)) => fail!("{}: {}", what, m),
        Some(Ok(())) => {}
    }
    let img = read_image(&what)?;
    ensure!((img.w, img.h) == (w as usize, h as usize), "{}: the image is {}x{}", what, img.w, img.h);
    // counts
    let area = sampled_area(&f, w, h);
    let mut cells: HashMap<(i32, i32), Vec<Smp>> = HashMap::new();
    let mut workers = 0;
    for l in log.lock().unwrap().iter() {
        let l = l.lock().unwrap();
        if !l.is_empty() {
            workers += 1;
        }
        for s in l.iter() {
            let p = (s.v[0] as i32, s.v[1] as i32);
            let c = cols[which(s.x, s.y, fine, salt, cols.len())];
            cells.entry(p).or_insert_with(Vec::new).push(Smp { x: s.x, y: s.y, v: c });
        }
    }
    let want = spp as usize * runs;
    for y in area.1..area.3 {
        for x in area.0..area.2 {
            let n = cells.get(&(x, y)).map_or(0, |v| v.len());
            ensure!(n == want, "{}: position ({}, {}) was sampled {} times, requested were {}", what, x, y, n, want);
        }
    }
    for (p, v) in &cells {
        ensure!(v.len() == want, "{}: position {:?} was sampled {} times, requested were {}", what, p, v.len(), want);
    }
    ctx.cmp();
    // picture
    let reach = f.r().ceil() as i32 + 1;
    for y in 0..h as i32 {
        for x in 0..w as i32 {
            let mut near = vec![];
            for b in y - reach..=y + reach {
                for a in x - reach..=x + reach {
                    if let Some(v) = cells.get(&(a, b)) {
                        near.extend(v.iter().cloned());
                    }
                }
            }
            let (m, ws) = match pixel_model(&f, &near, x as usize, y as usize) {
                Some(m) => m,
                None => continue,
            };
            if ws < 1e-6 {
                continue;
            }
            ctx.cmp();
            let got = img.at(x as usize, y as usize);
            for k in 0..3 {
                ensure!(code_ok(got[k], m[k], 5e-6 * m[k] + 1e-7), "{}: channel {} of pixel ({}, {}) is written as {}, expected level {:.3}", what, k, x, y, got[k], level(m[k]));
            }
        }
    }
    if workers > 1 {
        ctx.nontrivial();
    }
    ctx.label(match plan { Plan::Free => "free", Plan::Turns(_) => "turns", Plan::Convoy => "convoy", Plan::Stall(_) => "stall" });
    ctx.label(if threads == 1 { "1 thread" } else if threads < 5 { "2-4 threads" } else if threads < 13 { "5-12 threads" } else { "many threads" });
    Ok(())
}

/// How two pictures of the same scene differ: (pixels off by one, worst difference)
pub fn difference(a: &Image, b: &Image) -> (usize, u32, usize) {
    let (mut n, mut worst, mut at) = (0, 0, 0);
    for (k, (p, q)) in a.px.iter().zip(&b.px).enumerate() {
        let d = (0..3).map(|c| (p[c] as i64 - q[c] as i64).abs() as u32).max().unwrap();
        if d > 0 {
            n += 1;
            if d > worst {
                worst = d;
                at = k;
            }
        }
    }
    (n, worst, at)
}

/// Full scenes: many threads show what one thread shows.
fn c24_scene(src: &mut Src, ctx: &mut Ctx) -> R {
    let w = wild_world(src, 8);
    let f = gen_filter(src);
    if f.r() > 4. {
        discard!();
    }
    let (rw, rh) = (src.usize(2, 36) as u32, src.usize(2, 36) as u32);
    let spp = src.pick(&[1, 2, 4]);
    let halton = src.bool();
    let seed = src.seed();
    let threads = { let t = gen_threads(src); if t == 1 { 8 } else { t } };
    let cam = wild_camera(src, &w, rw, rh);
    let what = format!("{} rendered at {}x{}, {:?}, {} samples per pixel ({})", w.name(), rw, rh, f, spp, if halton { "halton" } else { "independent" });
    ctx.desc(|| what.clone());
    let mut imgs = vec![];
    for t in [1, threads] {
        let film = f.film(rw, rh);
        let _ = std::fs::remove_file(OUT);
        let sc = w.kd([1.; 3]);
        let c = cam.clone();
        let bb = film.sample_bbox();
        let r = timed(40, move || {
            if halton {
                Integrator::new(sc, HaltonSampler::new(spp, bb), c, film).render(t)
            } else {
                Integrator::new(sc, SeqSampler::new(seed, spp, true), c, film).render(t)
            }
        });
        match r {
            None => fail!("{}: the render with {} threads does not terminate", what, t),
            Some(Err(m)) => fail!("{}: {} threads: {}", what, t, m),
            Some(Ok(())) => {}
        }
        imgs.push(read_image(&what)?);
    }
    let (n, worst, at) = difference(&imgs[0], &imgs[1]);
    ctx.cmp();
    let total = imgs[0].px.len();
    if worst > 1 || n > 3 + total / 50 {
        fail!("{}: {} of {} pixels differ between 1 and {} threads, pixel {}: {:?} and {:?}", what, n, total, threads, at, imgs[0].px[at], imgs[1].px[at]);
    }
    if imgs[0].px.iter().any(|p| *p != imgs[0].px[0]) {
        ctx.nontrivial();
    }
    Ok(())
}

pub static C24: Prop = Prop {
    id: "C24",
    rule: "case: at least two threads took part (exact), or a picture that is not of one colour (scene)",
    assumptions: &[
        "schedules are steered at sampler calls (turns, convoys, stalls with time-outs); interleavings inside the renderer's own critical sections are only reached by chance",
        "a render that takes longer than 20 (exact) or 40 s (scene) is held not to terminate",
    ],
    subs: &[Sub { name: "exact", quick: 15_000, thorough: 800_000, f: c24_exact }, Sub { name: "large", quick: 24, thorough: 2_000, f: c24_large }, Sub { name: "scene", quick: 5_000, thorough: 400_000, f: c24_scene }],
};

// ------------------------------------------------------------ wild scenes

pub fn wild_mat(src: &mut Src) -> MatCase {
    match src.weighted(&[5, 2, 3, 4, 2, 1, 1]) {
        k @ 0..=4 => {
            let smooth = src.pct(40);
            if !smooth && src.pct(20) {
                // almost smooth, or smooth along one direction only
                let mut f = |s: &mut Src| if s.pct(40) { 0. } else { s.logrange(1e-30, 1.) as f32 as f64 };
                let (a, b) = (f(src), f(src));
                return mat_of(src, k, a, b);
            }
            let lo = src.pick(&[0.2, 0.05, 0.002]);
            gen_mat(src, k, smooth, lo)
        }
        5 => black(),
        _ => {
            // checkerboards
            let (a, b) = (color(src, 1.), color(src, 1.));
            let s = src.logrange(0.5, 30.) as f32;
            let mat: Arc<dyn Material> = if src.bool() {
                Arc::new(LambertianReflectionMaterial::new(Arc::new(CheckerboardTexture::new(UVMapping2D::new(s, s, 0., 0.), spec3(a), spec3(b)))))
            } else {
                Arc::new(LambertianReflectionMaterial::new(Arc::new(Checkerboard3DTexture::new(IdentityMapping3D::new(Transform::scale(s, s, s)), spec3(a), spec3(b)))))
            };
            MatCase { mat, lobes: vec![], name: format!("checkerboard {:?} {:?}", a, b), eta: 1. }
        }
    }
}

pub fn wild_world(src: &mut Src, max: usize) -> World {
    let mut w = World::default();
    let n = src.usize(0, max);
    let scale = src.pick(&[1., 1., 1., 20., 0.02]);
    for _ in 0..n {
        let c = { let k = 2.5 * scale; point(src, k) };
        let size = scale * src.logrange(0.1, 2.);
        let mut sh = shape_at(src, c, size);
        if let Sh::T(t) = &mut sh {
            if t.quality() < 1e-3 {
                continue;
            }
            if src.pct(30) {
                t.vn = Some(crate::geom::vertex_normals(src, t));
            }
        }
        let mut le = None;
        if let Sh::T(_) = sh {
            if src.pct(30) {
                le = Some(scale3(color(src, 1.), src.pick(&[1., 1., 5., 0.1])));
            }
        }
        let mat = wild_mat(src);
        w.objs.push(Obj { sh, mat, le });
    }
    if src.pct(25) {
        // a solid body
        let c = { let k = 2. * scale; point(src, k) };
        let cv = src.bool();
        let m = closed_mesh(src, c, scale, cv);
        let mat = wild_mat(src);
        if m.f.len() < 60 {
            for t in m.tris() {
                w.objs.push(Obj { sh: Sh::T(t), mat: mat.clone(), le: None });
            }
        }
    }
    if src.pct(40) {
        // floor
        let mat = wild_mat(src);
        let k = scale * 8.;
        let z = -scale * 2.;
        w.objs.push(Obj { sh: Sh::T(Tri::new(V(-k, -k, z), V(k, -k, z), V(k, k, z))), mat: mat.clone(), le: None });
        w.objs.push(Obj { sh: Sh::T(Tri::new(V(-k, -k, z), V(k, k, z), V(-k, k, z))), mat, le: None });
    }
    for _ in 0..src.weighted(&[3, 2, 1]) {
        w.dist.push((color(src, 2.), dir(src)));
    }
    w
}

#[derive(Clone)]
pub enum AnyCam {
    P(PerspectiveCamera),
    R(RayCam),
}
impl Camera for AnyCam {
    fn generate_ray(&self, s: &CameraSample) -> Ray {
        match self {
            AnyCam::P(c) => c.generate_ray(s),
            AnyCam::R(c) => c.generate_ray(s),
        }
    }
}

/// A camera somewhere around, inside or close to the surfaces of a world.
pub fn wild_camera(src: &mut Src, w: &World, rw: u32, rh: u32) -> AnyCam {
    let size = w.objs.iter().map(|o| o.sh.center().maxabs() + o.sh.size()).fold(0.1, f64::max);
    let target = if w.objs.is_empty() || src.pct(30) { point(src, 0.3 * size) } else { let k = src.usize(0, w.objs.len() - 1); w.objs[k].sh.surf(src) };
    let from = match src.weighted(&[4, 2, 2]) {
        0 => target + unit_dir(src) * (size * src.range(0.5, 3.)),
        1 => target + unit_dir(src) * (size * src.logrange(1e-3, 0.3)),
        _ => { let k = size; point(src, k) }
    };
    match src.weighted(&[3, 1]) {
        0 => {
            let d = (target - from).norm();
            if !(d.len() > 0.5) {
                return AnyCam::R(RayCam::one(from, V(0., 0., 1.)));
            }
            let mut up = src.pick(&[V(0., 0., 1.), V(0., 1., 0.), V(1., 0., 0.)]);
            if up.cross(d).len() < 0.05 {
                up = perp(d);
            }
            let fov = src.pick(&[30., 60., 90., 5., 120.]);
            let a = rw as f32 / rh as f32;
            AnyCam::P(PerspectiveCamera::new(
                Transform::look_at(from.p(), target.p(), up.v()),
                Transform::perspective(fov, 0.01, 1000.),
                BBox2f::new(Point2f::new(-a, -1.), Point2f::new(a, 1.)),
                Point2u::new(rw, rh),
            ))
        }
        _ => {
            // rays at surfaces from all around, also grazing and axis-parallel ones
            let mut rays = vec![];
            for _ in 0..(rw * rh).min(64) {
                let t = if w.objs.is_empty() { V(0., 0., 0.) } else { let k = src.usize(0, w.objs.len() - 1); w.objs[k].sh.surf(src) };
                let d = dir(src).norm();
                rays.push((t - d * (size * src.pick(&[1., 0.01, 0.3])), d));
            }
            AnyCam::R(RayCam { rays: Arc::new(rays), w: rw as usize })
        }
    }
}

// ---------------------------------------------------------------- C30

/// Values at the ends of [0, 1) and in the middle, besides ordinary ones.
#[derive(Clone)]
struct Nasty {
    inner: SeqSampler,
    rng: Rng,
    pct: u64,
}
impl Nasty {
    fn one(&mut self, u: f32) -> f32 {
        if self.rng.below(100) < self.pct {
            let v = [0., 0., 5.9604645e-8, 1. - 5.9604645e-8, 0.5, 0.25, 0.75, 2.3283064e-10, 0.99999976];
            v[self.rng.below(v.len() as u64) as usize]
        } else {
            u
        }
    }
}
impl Sampler for Nasty {
    fn start_pixel(&mut self, p: Point2i) {
        self.rng = Rng::new(mix(&[p.x as u64, p.y as u64, self.pct]));
        self.inner.start_pixel(p)
    }
    fn start_next_sample(&mut self) -> bool {
        self.inner.start_next_sample()
    }
    fn get_1d(&mut self) -> f32 {
        let u = self.inner.get_1d();
        self.one(u)
    }
    fn get_2d(&mut self) -> Point2f {
        let p = self.inner.get_2d();
        Point2f::new(self.one(p.x), self.one(p.y))
    }
    fn get_camera_sample(&mut self, p: Point2i) -> CameraSample {
        self.inner.get_camera_sample(p)
    }
}

/// Notes the longest path, by the pairs of random numbers a sample asks for.
#[derive(Clone)]
struct Deep<S> {
    inner: S,
    n: u32,
    most: Arc<AtomicU32>,
}
impl<S: Sampler> Deep<S> {
    fn new(inner: S, most: &Arc<AtomicU32>) -> Deep<S> {
        Deep { inner, n: 0, most: most.clone() }
    }
}
impl<S: Sampler> Sampler for Deep<S> {
    fn start_pixel(&mut self, p: Point2i) {
        self.n = 0;
        self.inner.start_pixel(p)
    }
    fn start_next_sample(&mut self) -> bool {
        self.n = 0;
        self.inner.start_next_sample()
    }
    fn get_1d(&mut self) -> f32 {
        self.inner.get_1d()
    }
    fn get_2d(&mut self) -> Point2f {
        self.n += 1;
        if self.n > 16 {
            self.most.fetch_max(self.n, Ordering::Relaxed);
        }
        self.inner.get_2d()
    }
    fn get_camera_sample(&mut self, p: Point2i) -> CameraSample {
        self.inner.get_camera_sample(p)
    }
}

fn stderr_len() -> u64 {
    std::fs::metadata("stderr.txt").map(|m| m.len()).unwrap_or(0)
}

fn stderr_from(n: u64) -> String {
    let d = std::fs::read("stderr.txt").unwrap_or_default();
    String::from_utf8_lossy(&d[(n as usize).min(d.len())..]).chars().take(400).collect()
}

fn complains(s: &str) -> bool {
    let l = s.to_lowercase();
    ["invalid", "nan", "inf", "discard", "negative", "panic", "overflow"].iter().any(|x| l.contains(x))
}

/// Things of very different size next to one another: specks, lamps lying in a floor, far walls, glaring light.
fn uneven_world(src: &mut Src) -> World {
    let mut w = World::default();
    let flat = src.pct(50);
    let glare = src.pick(&[1., 1., 1e3, 1e6]);
    for _ in 0..src.usize(1, 8) {
        let size = src.logrange(1e-5, 1e3);
        let dist = size * src.logrange(0.3, 3.) + if src.bool() { src.logrange(1e-4, 1e2) } else { 0. };
        let mut c = unit_dir(src) * dist;
        let in_plane = flat && src.pct(60);
        if in_plane {
            c.2 = 0.;
        }
        let mut sh = shape_at(src, c, size);
        if let Sh::T(t) = &mut sh {
            if in_plane {
                for v in t.v.iter_mut() {
                    v.z = 0.;
                }
            }
            // products of edges stay far from the end of the range of f32
            if t.quality() < 1e-2 || t.edge() < 1e-7 {
                continue;
            }
            if src.pct(20) {
                t.vn = Some(crate::geom::vertex_normals(src, t));
            }
        }
        let le = if matches!(sh, Sh::T(_)) && src.pct(40) { let l = color(src, 1.); Some(scale3(l, glare)) } else { None };
        let mat = wild_mat(src);
        w.objs.push(Obj { sh, mat, le });
    }
    if flat || src.pct(40) {
        let mat = wild_mat(src);
        let k = src.logrange(1e-2, 1e4);
        w.objs.push(Obj { sh: Sh::T(Tri::new(V(-k, -k, 0.), V(k, -k, 0.), V(k, k, 0.))), mat: mat.clone(), le: None });
        w.objs.push(Obj { sh: Sh::T(Tri::new(V(-k, -k, 0.), V(k, k, 0.), V(-k, k, 0.))), mat, le: None });
    }
    for _ in 0..src.weighted(&[3, 2, 1]) {
        w.dist.push((color(src, 2.), dir(src)));
    }
    w
}

fn c30_any(src: &mut Src, ctx: &mut Ctx) -> R {
    c30_render(src, ctx, false)
}

fn c30_uneven(src: &mut Src, ctx: &mut Ctx) -> R {
    c30_render(src, ctx, true)
}

fn c30_render(src: &mut Src, ctx: &mut Ctx, uneven: bool) -> R {
    let w = match src.weighted(&[12, 1, 1]) {
        _ if uneven => uneven_world(src),
        0 => wild_world(src, 10),
        1 => World::default(),
        _ => {
            // lights only
            let mut w = World::default();
            for _ in 0..src.usize(0, 2) {
                w.dist.push((color(src, 2.), dir(src)));
            }
            for _ in 0..src.usize(0, 3) {
                let c = point(src, 3.);
                let t = tri_at(src, c, 1.);
                if t.quality() > 1e-3 {
                    w.objs.push(Obj { sh: Sh::T(t), mat: black(), le: Some(color(src, 1.)) });
                }
            }
            w
        }
    };
    let (rw, rh) = (src.usize(1, 20) as u32, src.usize(1, 20) as u32);
    let f = gen_filter(src);
    if f.r() > 4. {
        discard!();
    }
    let spp = src.pick(&[1, 2, 4, 8]);
    let threads = src.pick(&[1, 1, 2, 5, 16]);
    let seed = src.seed();
    let kind = src.weighted(&[3, 2, 1]);
    let pct = src.pick(&[5, 20, 60, 100]);
    let kd = src.pct(70);
    let cam = wild_camera(src, &w, rw, rh);
    let what = format!("{} rendered at {}x{}, {:?}, {} samples per pixel ({}), {} threads, {}", w.name(), rw, rh, f, spp, ["extreme values", "halton", "random"][kind], threads, if kd { "tree" } else { "list" });
    ctx.desc(|| what.clone());
    let _ = std::fs::remove_file(OUT);
    let before = stderr_len();
    let w2 = w.clone();
    let most = Arc::new(AtomicU32::new(0));
    let most2 = most.clone();
    let r = timed(60, move || {
        macro_rules! go {
            ($sc:expr) => {{
                let sc = $sc;
                let film = f.film(rw, rh);
                let bb = film.sample_bbox();
                match kind {
                    0 => Integrator::new(sc, Deep::new(Nasty { inner: SeqSampler::new(seed, spp, true), rng: Rng::new(0), pct }, &most2), cam, film).render(threads),
                    1 => Integrator::new(sc, Deep::new(HaltonSampler::new(spp, bb), &most2), cam, film).render(threads),
                    _ => Integrator::new(sc, Deep::new(RandomSampler::new(spp), &most2), cam, film).render(threads),
                }
            }};
        }
        if kd {
            go!(w2.kd([1.; 3]))
        } else {
            go!(w2.simple([1.; 3]))
        }
    });
    match r {
        None => fail!("{}: the render does not terminate", what),
        Some(Err(m)) => fail!("{}: {}", what, m),
        Some(Ok(())) => {}
    }
    let s = stderr_from(before);
    ctx.cmp();
    if complains(&s) {
        // the weight of a path that meets dozens of grazing surfaces may leave the range of f32
        let per_bounce = if w.dist.is_empty() && w.objs.iter().all(|o| o.le.is_none()) { 1 } else { 3 };
        let long = most.load(Ordering::Relaxed) / per_bounce;
        if long >= 14 && !s.contains("panic") {
            ctx.label("very long path, discarded sample tolerated");
            discard!();
        }
        fail!("{}: {}", what, s.lines().next().unwrap_or(""));
    }
    let img = read_image(&what)?;
    ensure!((img.w, img.h) == (rw as usize, rh as usize), "{}: the image is {}x{}", what, img.w, img.h);
    if img.px.iter().any(|p| *p != [0; 3]) {
        ctx.nontrivial();
        ctx.label("light arrives");
    } else {
        ctx.label("dark");
    }
    if w.objs.is_empty() {
        ctx.label("no shapes");
    }
    ctx.label(["extreme values", "halton", "random"][kind]);
    Ok(())
}

pub static C30: Prop = Prop {
    id: "C30",
    rule: "case: a render to completion in which some light reached the picture",
    assumptions: &[
        "spheres as area lights are not supported by the crate (unimplemented) and not generated; triangles have an aspect of at least 1e-3",
        "discarded samples are recognised by the renderer's report on standard error",
        "a render that takes longer than 60 s is held not to terminate",
    ],
    subs: &[Sub { name: "any", quick: 80_000, thorough: 8_000_000, f: c30_any }, Sub { name: "uneven", quick: 60_000, thorough: 6_000_000, f: c30_uneven }],
};
