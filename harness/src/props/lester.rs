//! C23 to C26: Lester, the rasteriser: PNG files, faults of streams, rendering and iterating over PDF pages.
use crate::engine::*;
use crate::models::png::{self, Raw, Rgba};
use lester::{Backdrop, ImageSurface, LesterError, PdfDocument, RenderOptions};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io::{self, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use victor::pdf::Document;
use victor::primitives::{rect, Size, RGBA};

fn premultiply(p: &Rgba) -> u32 {
    let m = |c: u8| (c as u32 * p[3] as u32 * 2 + 255) / 510;
    (p[3] as u32) << 24 | m(p[0]) << 16 | m(p[1]) << 8 | m(p[2])
}

fn lester_err(e: &LesterError) -> String {
    match e {
        LesterError::Io(e) => format!("I/O: {:?}", e),
        LesterError::Cairo(e) => format!("cairo: {}", e),
        LesterError::Glib(e) => format!("glib: {}", e),
    }
}

fn fill(g: &mut G, s: &mut ImageSurface, argb: bool) {
    let kind = g.upto(4);
    let one = g.upto(0xffff_ffff) as u32;
    let p = s.pixels();
    for x in p.buffer.iter_mut() {
        let v = match kind {
            0 => one,
            1 => *g.pick(&[0u32, 0xffff_ffff, 0xff00_0000, 0x8080_8080]),
            2 => g.upto(0xffff_ffff) as u32 | 0xff00_0000,
            _ => g.upto(0xffff_ffff) as u32,
        };
        let [a, r, gr, b] = v.to_be_bytes();
        *x = if argb { premultiply(&[r, gr, b, a]) } else { v }
    }
}

/// The pixels as PNG has them, or else what is undefined set to opaque
fn rgba(p: u32, argb: bool) -> Rgba {
    let [a, r, g, b] = p.to_be_bytes();
    if !argb {
        [r, g, b, 255]
    } else if a == 0 {
        [0; 4]
    } else {
        let u = |c: u8| ((c as u32 * 255 + a as u32 / 2) / a as u32) as u8;
        [u(r), u(g), u(b), a]
    }
}

fn new_surface(g: &mut G, max: usize) -> (ImageSurface, bool, usize, usize) {
    let argb = g.chance(60);
    let (w, h) = match g.upto(9) {
        0 => (g.us(1, 400), 1),
        1 => (1, g.us(1, 400)),
        2 => (g.us(1, 150), g.us(1, 150)),
        _ => (g.us(1, max), g.us(1, max)),
    };
    let s = if argb { ImageSurface::new_argb32(w, h) } else { ImageSurface::new_rgb24(w, h) };
    let mut s = s.unwrap();
    fill(g, &mut s, argb);
    (s, argb, w, h)
}

pub fn scratch(name: &str) -> std::path::PathBuf {
    let d = std::env::temp_dir().join(format!("vh-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d.join(name)
}
pub fn clean_scratch() {
    let _ = std::fs::remove_dir_all(std::env::temp_dir().join(format!("vh-{}", std::process::id())));
}

// ---------------------------------------------------------------- C23

fn c23_write(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let (mut s, argb, w, h) = new_surface(g, 20);
    cx.desc(format!("{} surface of {}x{}", if argb { "ARGB32" } else { "RGB24" }, w, h));
    let before: Vec<u32> = {
        let p = s.pixels();
        ensure!((p.width, p.height, p.buffer.len()) == (w, h, w * h), "surface-size", "{}x{} of {} pixels for {}x{}", p.width, p.height, p.buffer.len(), w, h);
        p.buffer.to_vec()
    };
    let mut bytes = vec![];
    if let Err(e) = s.write_to_png(&mut bytes) {
        return fail("write-failed", lester_err(&e));
    }
    let (dw, dh, alpha, px) = png::decode(&bytes).or_else(|e| fail("not-png", e))?;
    ensure!((dw, dh) == (w, h), "png-size", "{}x{} written as {}x{}", w, h, dw, dh);
    for (i, p) in before.iter().enumerate() {
        let e = rgba(*p, argb);
        ensure!(px[i] == e, "png-pixel", "pixel {} is {:08x}, written as {:?} instead of {:?}", i, p, px[i], e)
    }
    let mut again = ImageSurface::read_from_png(&bytes[..]).map_err(|e| Fail { sig: "read-failed".into(), msg: lester_err(&e) })?;
    let q = again.pixels();
    ensure!((q.width, q.height) == (w, h), "round-trip-size", "{}x{} read as {}x{}", w, h, q.width, q.height);
    for (i, p) in before.iter().enumerate() {
        let (a, b) = if argb && alpha { (*p, q.buffer[i]) } else { (*p | 0xff00_0000, q.buffer[i] | 0xff00_0000) };
        ensure!(a == b, "round-trip-pixel", "pixel {} was {:08x} and is {:08x}", i, a, b)
    }
    ensure!(s.pixels().buffer[..] == before[..], "changed-by-writing", "the surface changed");
    if g.chance(20) {
        let f = scratch("a.png");
        if g.chance(50) {
            // an existing file is replaced as a whole
            std::fs::write(&f, vec![b'x'; g.us(0, 2 * bytes.len())]).unwrap()
        }
        if let Err(e) = s.write_to_png_file(&f) {
            return fail("write-file-failed", lester_err(&e));
        }
        let fb = std::fs::read(&f).unwrap();
        let r = ImageSurface::read_from_png_file(&f);
        clean_scratch();
        ensure!(fb == bytes, "file-differs", "{} and {} bytes", fb.len(), bytes.len());
        let mut r = r.map_err(|e| Fail { sig: "read-file-failed".into(), msg: lester_err(&e) })?;
        ensure!(r.pixels().buffer[..] == again.pixels().buffer[..], "file-read-differs", "pixels differ");
        cx.label("file")
    }
    if before.iter().any(|p| p >> 24 != 255 && p >> 24 != 0) && argb {
        cx.label("translucent")
    }
    cx.nontrivial = w * h >= 4 && before.iter().any(|p| *p != before[0]);
    Ok(())
}

fn gen_raw(g: &mut G, max: usize) -> Raw {
    let color_type = *g.pick(&[6u8, 2, 0, 3, 4]);
    let depth = if color_type == 0 || color_type == 3 { *g.pick(&[8u8, 4, 2, 1]) } else { 8 };
    let (w, h) = (g.us(1, max), g.us(1, max));
    let ch = match color_type {
        0 | 3 => 1,
        2 => 3,
        4 => 2,
        _ => 4,
    };
    let palette: Vec<[u8; 3]> = if color_type == 3 {
        let n = g.us(1, 1 << depth);
        (0..n).map(|_| [g.upto(255) as u8, g.upto(255) as u8, g.upto(255) as u8]).collect()
    } else {
        vec![]
    };
    let top = if color_type == 3 { palette.len() as u64 - 1 } else { (1 << depth) - 1 };
    let calm = g.chance(50);
    let values: Vec<u8> = (0..4).map(|_| g.upto(top) as u8).collect();
    let samples: Vec<u8> = (0..w * h * ch).map(|_| if calm { *g.pick(&values) } else { g.upto(top) as u8 }).collect();
    let trns = match color_type {
        3 if g.chance(50) => {
            let n = g.us(1, palette.len());
            Some((0..n).map(|_| *g.pick(&[0u8, 128, 255, 1, 77, 254])).collect())
        }
        0 | 2 if g.chance(30) => {
            let at = g.us(0, w * h - 1) * ch;
            Some(samples[at..at + ch].to_vec())
        }
        _ => None,
    };
    Raw { w, h, color_type, depth, interlaced: g.chance(25), samples, palette, trns }
}

fn encode(g: &mut G, r: &Raw) -> Vec<u8> {
    let block = *g.pick(&[65535usize, 7, 100, 1]);
    let idat = *g.pick(&[1usize << 20, 1, 5, 50]);
    let mut extra: Vec<(&[u8], Vec<u8>, bool)> = vec![];
    if g.chance(20) {
        extra.push((b"tEXt", b"Comment\0x".to_vec(), true))
    }
    if g.chance(10) {
        extra.push((b"tIME", vec![7, 227, 1, 2, 3, 4, 5], false))
    }
    if g.chance(10) {
        extra.push((b"vHaR", vec![0; 100], g.chance(50)))
    }
    let one = g.upto(4) as u8;
    let mixed = g.chance(50);
    let mut seed = crate::engine::Rng::new(g.upto(1 << 30));
    r.encode(|| if mixed { seed.upto(4) as u8 } else { one }, block, idat, &extra)
}

fn check_read(s: &mut ImageSurface, r: &Raw) -> Result<(), Fail> {
    let p = s.pixels();
    ensure!((p.width, p.height, p.buffer.len()) == (r.w, r.h, r.w * r.h), "read-size", "{}x{} read as {}x{}", r.w, r.h, p.width, p.height);
    for (i, e) in r.pixels().iter().enumerate() {
        let m = premultiply(e);
        let a = if r.has_alpha() { p.buffer[i] } else { p.buffer[i] | 0xff00_0000 };
        ensure!(a == m, "read-pixel", "pixel {} of {:?} is read as {:08x} instead of {:08x}", i, e, a, m)
    }
    Ok(())
}

fn c23_read(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let r = gen_raw(g, 18);
    let bytes = encode(g, &r);
    cx.desc(format!("{}x{} colour type {} depth {} interlaced {} transparency {:?}", r.w, r.h, r.color_type, r.depth, r.interlaced, r.trns));
    let mut s = ImageSurface::read_from_png(&bytes[..]).map_err(|e| Fail { sig: "read-failed".into(), msg: lester_err(&e) })?;
    check_read(&mut s, &r)?;
    cx.label(&format!("colour type {}", r.color_type));
    if r.interlaced {
        cx.label("interlaced")
    }
    cx.nontrivial = r.w * r.h >= 4;
    Ok(())
}

fn c23_sizes(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let size = |g: &mut G| match g.upto(5) {
        0 => 0,
        1 => g.us(32760, 32775),
        2 => *g.pick(&[1usize << 31, (1 << 31) - 1, 65536, 100_000, 1 << 20]),
        _ => g.us(0, 3),
    };
    let (mut w, mut h) = (size(g), size(g));
    if w <= 32767 && h <= 32767 && w * h > 1 << 17 {
        // only one of both large
        if g.chance(50) {
            w = w.min(3)
        } else {
            h = h.min(3)
        }
    }
    let argb = g.chance(50);
    cx.desc(format!("{}x{} {}", w, h, argb));
    if w > 0x7fff_ffff || h > 0x7fff_ffff {
        // documented only as a panic of a conversion: out of what is checked
        cx.discarded = true;
        return Ok(());
    }
    let r = if argb { ImageSurface::new_argb32(w, h) } else { ImageSurface::new_rgb24(w, h) };
    if w > 32767 || h > 32767 {
        cx.nontrivial = true;
        ensure!(r.is_err(), "too-large-accepted", "{}x{}", w, h);
        return Ok(());
    }
    let mut s = r.map_err(|e| Fail { sig: "new-failed".into(), msg: format!("{}x{}: {}", w, h, e) })?;
    let p = Some(s.pixels().buffer);
    // An invalid (null) slice would be indistinguishable from None
    ensure!(p.is_some(), "null-slice", "the pixels of a {}x{} surface are a null pointer", w, h);
    let p = s.pixels();
    ensure!((p.width, p.height, p.buffer.len()) == (w, h, w * h), "surface-size", "{}x{} of {} pixels for {}x{}", p.width, p.height, p.buffer.len(), w, h);
    ensure!(p.buffer.iter().all(|p| *p == 0), "not-cleared", "a new surface is not transparent black");
    if w == 0 || h == 0 {
        let mut b = vec![];
        ensure!(s.write_to_png(&mut b).is_err(), "empty-png", "an image without pixels was written, which PNG does not have");
    }
    cx.nontrivial = w == 0 || h == 0 || w > 1000 || h > 1000;
    Ok(())
}

pub fn png_files() -> Prop {
    Prop {
        id: "C23",
        rule: "a case is a surface to write (`write`), a PNG file to read (`read`) or a size (`sizes`); non-trivial if it has at least four pixels, in `write` not all equal, or an extreme size",
        assumptions: &["PNG files have at most 8 bits per sample: others are not supported"],
        parts: vec![part("write", 120_000, 800_000, c23_write), part("read", 240_000, 2_000_000, c23_read), part("sizes", 4_000, 20_000, c23_sizes)],
    }
}

// ---------------------------------------------------------------- C24

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    /// an error of that kind
    Error(io::ErrorKind),
    /// an error number of the operating system
    Os(i32),
    Panic,
    /// end of file, or a write of nothing
    Zero,
}

#[derive(Debug)]
pub struct Note(pub u64);
impl std::fmt::Display for Note {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "note {}", self.0)
    }
}
impl std::error::Error for Note {}

pub struct PanicPayload(pub u64);

/// What a stream goes through: small pieces, interruptions, and one fault after some bytes
pub struct Stream {
    pub data: Vec<u8>,
    pub pos: usize,
    pub sizes: Vec<usize>,
    /// from that position on, so many interruptions
    pub burst: (usize, usize),
    pub i: usize,
    pub fault: Fault,
    pub fault_at: usize,
    pub id: u64,
    pub faulted: bool,
    pub calls_after_fault: usize,
    pub flushed: bool,
}

impl Stream {
    /// how much to transfer now
    fn step(&mut self, wanted: usize) -> io::Result<usize> {
        if self.faulted {
            self.calls_after_fault += 1
        }
        let n = self.sizes[self.i % self.sizes.len()];
        self.i += 1;
        if n == 0 && self.sizes.iter().any(|s| *s > 0) {
            return Err(io::ErrorKind::Interrupted.into());
        }
        if self.burst.1 > 0 && self.pos >= self.burst.0 {
            self.burst.1 -= 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = n.max(1).min(wanted);
        if self.fault != Fault::None {
            if self.pos >= self.fault_at {
                self.faulted = true;
                match self.fault {
                    Fault::Error(k) => return Err(io::Error::new(k, Note(self.id))),
                    Fault::Os(code) => return Err(io::Error::from_raw_os_error(code)),
                    Fault::Panic => std::panic::panic_any(PanicPayload(self.id)),
                    _ => return Ok(0),
                }
            }
            n = n.min(self.fault_at - self.pos)
        }
        Ok(n)
    }
}

pub struct Handle(pub Rc<RefCell<Stream>>);

impl Read for Handle {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        if buf.is_empty() {
            return Ok(0);
        }
        let n = s.step(buf.len())?;
        let n = n.min(s.data.len() - s.pos);
        let p = s.pos;
        buf[..n].copy_from_slice(&s.data[p..p + n]);
        s.pos += n;
        Ok(n)
    }
}
impl Write for Handle {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        if buf.is_empty() {
            return Ok(0);
        }
        let n = s.step(buf.len())?;
        s.data.extend_from_slice(&buf[..n]);
        s.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.borrow_mut().flushed = true;
        Ok(())
    }
}

pub fn gen_stream(g: &mut G, data: Vec<u8>, len: usize, faulty: u64) -> Stream {
    let fault = if g.chance(faulty) {
        match g.upto(5) {
            0 => Fault::Panic,
            1 => Fault::Zero,
            // (not EINTR)
            2 => Fault::Os(*g.pick(&[5, 28, 9, 32, 104, 1, 11, 12, 13, 110, 0, -1, 12345])),
            _ => Fault::Error(*g.pick(&[
                io::ErrorKind::Other,
                io::ErrorKind::InvalidData,
                io::ErrorKind::UnexpectedEof,
                io::ErrorKind::WouldBlock,
                io::ErrorKind::PermissionDenied,
                io::ErrorKind::BrokenPipe,
                io::ErrorKind::WriteZero,
            ])),
        }
    } else {
        Fault::None
    };
    let fault_at = match g.upto(5) {
        0 => 0,
        1 => g.us(0, 60).min(len - 1),
        2 => len - 1 - g.us(0, 20).min(len - 1),
        _ => g.us(0, len - 1),
    };
    let sizes = g.list(1, 3, 10, |g| match g.upto(4) {
        0 => 0,
        1 => 1,
        2 => g.us(1, 20),
        _ => 1 << 20,
    });
    // many interruptions in a row, at some point
    let burst = if g.chance(12) { (g.us(0, len - 1), *g.pick(&[1usize, 5, 8, 16, 100, 300, 5_000])) } else { (0, 0) };
    Stream { data, pos: 0, sizes, burst, i: 0, fault, fault_at, id: g.upto(1 << 40), faulted: false, calls_after_fault: 0, flushed: false }
}

pub enum Outcome2<T> {
    Done(T),
    Err(LesterError),
    Panicked(Box<dyn std::any::Any + Send>),
}

fn caught<T>(f: impl FnOnce() -> Result<T, LesterError>) -> Outcome2<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(x)) => Outcome2::Done(x),
        Ok(Err(e)) => Outcome2::Err(e),
        Err(p) => Outcome2::Panicked(p),
    }
}

/// The error or panic of the stream comes out as it is
fn check_fault<T>(o: Outcome2<T>, st: &Stream, zero: io::ErrorKind) -> Result<Option<T>, Fail> {
    let what = format!("{:?} after {} bytes", st.fault, st.fault_at);
    ensure!(st.calls_after_fault == 0, "used-after-fault", "{}: {} more calls", what, st.calls_after_fault);
    match (o, st.fault) {
        (Outcome2::Done(x), Fault::None) => Ok(Some(x)),
        (Outcome2::Done(_), _) => fail("fault-ignored", what),
        (Outcome2::Panicked(p), f) => {
            let id = p.downcast_ref::<PanicPayload>().map(|p| p.0);
            ensure!(f == Fault::Panic && id == Some(st.id), "other-panic", "{}: panicked with another payload", what);
            Ok(None)
        }
        (Outcome2::Err(LesterError::Io(e)), Fault::Error(k)) => {
            let note = e.get_ref().and_then(|e| e.downcast_ref::<Note>()).map(|n| n.0);
            ensure!(e.kind() == k && note == Some(st.id), "other-error", "{}: got {:?}", what, e);
            Ok(None)
        }
        (Outcome2::Err(LesterError::Io(e)), Fault::Os(code)) => {
            ensure!(e.raw_os_error() == Some(code), "other-error", "{}: got {:?}", what, e);
            Ok(None)
        }
        (Outcome2::Err(LesterError::Io(e)), Fault::Zero) => {
            ensure!(e.kind() == zero, "other-error", "{}: got {:?}", what, e);
            Ok(None)
        }
        (Outcome2::Err(e), _) => fail("other-error", format!("{}: got {}", what, lester_err(&e))),
    }
}

fn c24_read(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let n = if g.chance(20) { 2 } else { 1 };
    let raws: Vec<Raw> = (0..n).map(|_| gen_raw(g, 12)).collect();
    let mut data = vec![];
    let mut ends = vec![];
    for r in &raws {
        data.extend(encode(g, r));
        ends.push(data.len())
    }
    if g.chance(30) {
        data.extend_from_slice(b"what follows")
    }
    let st = Rc::new(RefCell::new(gen_stream(g, data, ends[n - 1], 60)));
    {
        let s = st.borrow();
        cx.desc(format!("{} image(s), ends {:?}, pieces {:?}, {:?} after {}", n, ends, s.sizes, s.fault, s.fault_at));
    }
    for i in 0..n {
        let o = caught(|| ImageSurface::read_from_png(Handle(st.clone())));
        let s = st.borrow();
        let reached = s.fault != Fault::None && s.fault_at < ends[i];
        let o = if reached || s.fault == Fault::None {
            check_fault(o, &s, io::ErrorKind::UnexpectedEof)?
        } else {
            match o {
                Outcome2::Done(x) => Some(x),
                Outcome2::Err(e) => return fail("read-failed", lester_err(&e)),
                Outcome2::Panicked(_) => return fail("panic", last_panic()),
            }
        };
        match o {
            Some(mut surface) => {
                check_read(&mut surface, &raws[i])?;
                ensure!(s.pos == ends[i], "read-too-much", "image {} ends at {}, but {} bytes were read", i, ends[i], s.pos);
                cx.label("read")
            }
            None => {
                cx.label("fault reported");
                break;
            }
        }
    }
    let s = st.borrow();
    cx.nontrivial = s.fault != Fault::None || s.sizes.iter().any(|n| *n < 30);
    Ok(())
}

fn c24_write(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let (s, _, w, h) = new_surface(g, 12);
    let mut bytes = vec![];
    if let Err(e) = s.write_to_png(&mut bytes) {
        return fail("write-failed", lester_err(&e));
    }
    let st = Rc::new(RefCell::new(gen_stream(g, vec![], bytes.len(), 70)));
    cx.desc(format!("{}x{}, {} bytes, pieces {:?}, {:?} after {}", w, h, bytes.len(), st.borrow().sizes, st.borrow().fault, st.borrow().fault_at));
    let o = caught(|| s.write_to_png(Handle(st.clone())));
    {
        let st = st.borrow();
        let done = check_fault(o, &st, io::ErrorKind::WriteZero)?.is_some();
        let n = if done { bytes.len() } else { st.fault_at };
        ensure!(st.data[..] == bytes[..n], "other-bytes", "{} bytes were written, {} of them expected", st.data.len(), n);
        cx.label(if done { "written" } else { "fault reported" });
        cx.nontrivial = st.fault != Fault::None || st.sizes.iter().any(|n| *n < 30);
    }
    // The surface is none the worse for it
    let mut again = vec![];
    if let Err(e) = s.write_to_png(&mut again) {
        return fail("unusable-after-fault", lester_err(&e));
    }
    ensure!(again == bytes, "changed-by-fault", "writing again gives other bytes");
    Ok(())
}

fn c24_files(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let (s, _, w, h) = new_surface(g, 12);
    cx.desc(format!("{}x{}", w, h));
    let err = |r: Result<(), LesterError>, what: &str| -> Result<(), Fail> {
        match r {
            Err(LesterError::Io(_)) => Ok(()),
            Err(e) => fail("other-error", format!("{}: {}", what, lester_err(&e))),
            Ok(()) => fail("error-ignored", what.to_owned()),
        }
    };
    err(s.write_to_png_file("/dev/full"), "writing to a full device")?;
    err(s.write_to_png_file("/nonexistent-directory/x.png"), "writing to a missing directory")?;
    err(ImageSurface::read_from_png_file("/nonexistent-directory/x.png").map(drop), "reading a missing file")?;
    err(ImageSurface::read_from_png_file("/dev/null").map(drop), "reading an empty file")?;
    cx.nontrivial = true;
    Ok(())
}

/// Damaged PNG data: an error or an image, never anything worse
fn c24_damaged(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let mut r = gen_raw(g, 12);
    if g.chance(20) {
        r.trns = Some(vec![1; g.us(0, 300)])
    }
    let mut b = encode(g, &r);
    let n = g.list(1, 2, 12, |g| (g.upto(1 << 20), g.upto(7), g.upto(255), g.upto(40)));
    cx.desc(format!("{}x{} colour type {}, edits {:?}", r.w, r.h, r.color_type, n));
    for (at, kind, x, len) in &n {
        if b.is_empty() {
            break;
        }
        let i = *at as usize % b.len();
        match kind {
            0 | 1 => b[i] = *x as u8,
            2 => b[i] ^= 1 << (x % 8),
            3 => {
                let j = (i + *len as usize).min(b.len());
                b.drain(i..j);
            }
            4 => b.truncate(i),
            5 => b.insert(i, *x as u8),
            _ => {
                // one of the header's fields
                let i = 8 + 8 + (*at as usize % 13);
                if i < b.len() {
                    b[i] = *x as u8
                }
            }
        }
    }
    // with the checksums made right, so that more of it is looked at
    if g.chance(60) {
        let mut i = 8;
        while i + 12 <= b.len() {
            let len = u32::from_be_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]) as usize;
            if i.saturating_add(12).saturating_add(len) > b.len() {
                break;
            }
            let c = png::crc(&[&b[i + 4..i + 8 + len]]).to_be_bytes();
            b[i + 8 + len..i + 12 + len].copy_from_slice(&c);
            i += 12 + len
        }
    }
    // a size of more pixels than this would only take long
    let n = |i: usize| b.get(i..i + 4).map_or(0, |x| u32::from_be_bytes([x[0], x[1], x[2], x[3]]) as u64);
    if n(16).saturating_mul(n(20)) > 4_000_000 || b.get(24) == Some(&16) {
        cx.discarded = true;
        return Ok(());
    }
    match ImageSurface::read_from_png(&b[..]) {
        Ok(mut s) => {
            let p = s.pixels();
            let (w, h, l) = (p.width, p.height, p.buffer.len());
            ensure!(l == w * h, "size", "{}x{} with {} pixels", w, h, l);
            let sum: u64 = p.buffer.iter().map(|x| *x as u64).sum();
            cx.label(if sum == 0 { "read, blank" } else { "read" });
        }
        Err(e) => cx.label(match e {
            LesterError::Io(_) => "ends early",
            _ => "refused",
        }),
    }
    cx.nontrivial = true;
    Ok(())
}

pub fn streams() -> Prop {
    Prop {
        id: "C24",
        rule: "a case is an image and a stream that transfers it in generated pieces, mostly with a fault; non-trivial if there is a fault, a small piece, or (`damaged`) an edit",
        assumptions: &["16-bit PNG files are not supported", "libpng and cairo release what they hold when a callback fails"],
        parts: vec![
            part("read", 200_000, 1_500_000, c24_read),
            part("write", 120_000, 800_000, c24_write),
            part("files", 900, 5_000, c24_files),
            part("damaged", 160_000, 1_200_000, c24_damaged),
        ],
    }
}

// ---------------------------------------------------------------- C25

struct Layer {
    x: f64,
    y: f64,
    w: f64,
    h: f64,
    rgba: (f64, f64, f64, f64),
}

fn c25(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    c25_pixels(g, cx, false)
}
/// Narrow pages that are thousands of pixels long in the other direction
fn c25_long(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    c25_pixels(g, cx, true)
}
fn c25_pixels(g: &mut G, cx: &mut Cx, long: bool) -> Result<(), Fail> {
    let (dx, dy) = {
        let s = |g: &mut G| *g.pick(&[1.0f64, 2., 0.5, 1.5, 3.125, 1.25, 0.75]);
        let x = s(g);
        (x, if g.chance(50) { x } else { s(g) })
    };
    let whole = g.chance(60);
    let len = |g: &mut G, max: i64| if whole { g.int(1, max) as f32 } else { g.int(8, max * 8) as f32 / 8. };
    let (mut pw, mut ph) = (len(g, 60), len(g, 60));
    let mut far = [0, 0];
    if long {
        let l = g.int(300, 9_000);
        if g.chance(60) {
            pw = len(g, 6);
            ph += l as f32;
            far = [0, l]
        } else {
            ph = len(g, 6);
            pw += l as f32;
            far = [l, 0]
        }
    }
    let rects = g.list(if long { 2 } else { 0 }, 4, 12, |g| {
        let (mut axis, mut size) = (0, 0);
        let mut p = |g: &mut G| {
            axis += 1;
            let far = if far[axis - 1] > 0 { g.int(0, far[axis - 1]) as f32 } else { 0. };
            let near = if long && far == 0. { 4 } else { 50 };
            far + if whole { g.int(-5, near) as f32 } else { g.int(-40, near * 8) as f32 / 8. }
        };
        let len = |g: &mut G, max: i64| {
            size += 1;
            len(g, max) + if far[size - 1] > 0 && g.chance(50) { g.int(0, far[size - 1]) as f32 } else { 0. }
        };
        let mut len = len;
        let c = |g: &mut G| g.int(0, 255) as f32 / 255.;
        let alpha = if g.chance(60) { 1. } else { c(g) };
        (p(g), p(g), len(g, 40), len(g, 40), (c(g), c(g), c(g), alpha))
    });
    let mut doc = Document::new();
    {
        let mut page = doc.add_page(Size::new(pw, ph));
        for (x, y, w, h, c) in &rects {
            page.set_color(&RGBA(c.0, c.1, c.2, c.3));
            page.paint_rectangle(&rect(*x, *y, *w, *h));
        }
    }
    let bytes = doc.write_to_pdf_bytes();
    let backdrop = *g.pick(&[Backdrop::Transparent, Backdrop::White]);
    let for_printing = g.chance(20);
    cx.desc(format!("{}x{} at {}x{} on {:?} printing {}: {:?}", pw, ph, dx, dy, backdrop, for_printing, rects));
    let pdf = PdfDocument::from_bytes(&bytes).or_else(|e| fail("pdf-refused", e.to_string()))?;
    ensure!(pdf.pages().len() == 1, "page-count", "{}", pdf.pages().len());
    let page = pdf.pages().next().unwrap();
    let (cw, chh) = page.size_in_css_px();
    let near = |a: f64, b: f64| (a - b).abs() <= 1e-4 * (1. + b.abs());
    ensure!(near(cw, pw as f64) && near(chh, ph as f64), "page-size", "{}x{} for a page of {}x{} px", cw, chh, pw, ph);
    let (tw, th) = page.size_in_ps_points();
    ensure!(near(tw * 4. / 3., pw as f64) && near(th * 4. / 3., ph as f64), "page-size-pt", "{}x{} pt for a page of {}x{} px", tw, th, pw, ph);
    let options = RenderOptions { dppx_x: dx, dppx_y: dy, backdrop, for_printing };
    let mut surface = if g.chance(30) && dx == dy && backdrop == Backdrop::Transparent && !for_printing {
        if dx == 1. {
            page.render()
        } else {
            page.render_with_dppx(dx)
        }
    } else {
        page.render_with_options(options)
    }
    .or_else(|e| fail("render-failed", e.to_string()))?;
    let px = surface.pixels();
    let size = |v: f32, d: f64, got: usize| {
        let e = v as f64 * d;
        // up to the rounding of numbers in the PDF
        got as f64 == (e - 1e-4).ceil() || got as f64 == (e + 1e-4).ceil()
    };
    ensure!(size(pw, dx, px.width) && size(ph, dy, px.height), "surface-size", "{}x{} pixels for {}x{} px at {}x{}", px.width, px.height, pw, ph, dx, dy);
    ensure!(px.buffer.len() == px.width * px.height, "surface-buffer", "{} pixels", px.buffer.len());
    let layers: Vec<Layer> = rects
        .iter()
        .map(|(x, y, w, h, c)| Layer {
            x: *x as f64 * dx,
            y: *y as f64 * dy,
            w: *w as f64 * dx,
            h: *h as f64 * dy,
            rgba: (c.0 as f64, c.1 as f64, c.2 as f64, c.3 as f64),
        })
        .collect();
    let (mut checked, mut skipped, mut painted) = (0u64, 0u64, 0u64);
    // 0: outside, 1: inside, None: on an edge
    let cover = |at: usize, from: f64, len: f64| -> Option<bool> {
        let (a, b) = (at as f64, at as f64 + 1.);
        let e = 0.003;
        if a >= from - e && b <= from + len + e {
            Some(true)
        } else if b <= from + e || a >= from + len - e {
            Some(false)
        } else {
            None
        }
    };
    for y in 0..px.height {
        for x in 0..px.width {
            // the last row and column may be beyond the page
            if x as f64 + 1. > pw as f64 * dx + 0.002 || y as f64 + 1. > ph as f64 * dy + 0.002 {
                skipped += 1;
                continue;
            }
            let mut c = if backdrop == Backdrop::White { [1., 1., 1., 1.] } else { [0.; 4] };
            let mut sure = true;
            let mut n = 0;
            for l in &layers {
                match (cover(x, l.x, l.w), cover(y, l.y, l.h)) {
                    (Some(false), _) | (_, Some(false)) => {}
                    (Some(true), Some(true)) => {
                        n += 1;
                        let a = l.rgba.3;
                        for (i, v) in [l.rgba.0, l.rgba.1, l.rgba.2].iter().enumerate() {
                            c[i] = v * a + c[i] * (1. - a)
                        }
                        c[3] = a + c[3] * (1. - a);
                        if a == 1. {
                            sure = true
                        }
                    }
                    _ => sure = false,
                }
            }
            if !sure {
                skipped += 1;
                continue;
            }
            checked += 1;
            painted += (n > 0) as u64;
            let p = px.buffer[y * px.width + x].to_be_bytes();
            let expected = [c[3], c[0], c[1], c[2]];
            for i in 0..4 {
                if i == 0 && backdrop == Backdrop::White {
                    continue;
                }
                let tolerance = if n <= 1 { 1.5 } else { 1.5 + n as f64 };
                ensure!(
                    (p[i] as f64 - expected[i] * 255.).abs() <= tolerance,
                    "pixel",
                    "pixel {},{} is {:02x?} instead of {:?} (alpha, red, green, blue)",
                    x,
                    y,
                    p,
                    expected.iter().map(|v| v * 255.).collect::<Vec<_>>()
                )
            }
        }
    }
    cx.count("pixels checked", checked);
    cx.count("pixels painted", painted);
    cx.count("pixels on edges", skipped);
    cx.nontrivial = painted >= 20;
    Ok(())
}

const WORDS: &[&str] = &["a", "word", "Victor", "makes", "vectors,", "(and)", "10%", "C++", "été", "Ñandú", "x_y", "\"quoted\"", "1/2", "A&amp;B", "&lt;b&gt;", "end.", "iiii", "WWWW", "ça"];

/// Text comes back through Poppler's text extraction
fn c25_text(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let lines = g.list(1, 4, 15, |g| g.list(1, 4, 5, |g| *g.pick(WORDS)));
    let size = *g.pick(&[16, 10, 12, 20]);
    let mut html = format!("<!doctype html><body style='font-size:{}px'>", size);
    let mut expected = vec![];
    for l in &lines {
        let t = l.join(" ");
        let block = g.chance(70);
        let t2 = if !block { t.replacen(' ', "<b> </b>", 1) } else { t.clone() };
        html.push_str(&format!("<div>{}</div>", t2));
        expected.push(t.replace("&amp;", "&").replace("&lt;", "<").replace("&gt;", ">"))
    }
    cx.desc(html.clone());
    let bytes = victor::dom::Document::parse_html(html.as_bytes()).to_pdf_bytes();
    let pdf = PdfDocument::from_bytes(&bytes).or_else(|e| fail("pdf-refused", e.to_string()))?;
    let page = pdf.pages().next().unwrap();
    let text = page.text();
    let text = text.to_str().or_else(|e| fail("text-not-utf-8", e.to_string()))?;
    // Poppler guesses spaces from distances, which fails for very short lines: compare what is not white space
    let bare = |l: &str| l.split_whitespace().collect::<String>();
    let got: Vec<String> = text.lines().map(bare).filter(|l| !l.is_empty()).collect();
    let expected: Vec<String> = expected.iter().map(|l| bare(l)).collect();
    ensure!(got.iter().zip(&expected).all(|(a, b)| a == b) && got.len() == expected.len(), "text", "{:?} instead of {:?}", got, expected);
    cx.nontrivial = lines.iter().map(|l| l.len()).sum::<usize>() >= 4;
    Ok(())
}

/// Text in Ahem, whose glyphs are rectangles, comes out where it should be
fn c25_glyphs(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    thread_local!(static AHEM: std::sync::Arc<victor::fonts::Font> = victor::fonts::Font::parse(super::pdf::repo_font("ahem/ahem.ttf")).unwrap());
    let font = AHEM.with(|f| f.clone());
    let runs = g.list(1, 2, 4, |g| {
        let text: String = g.list(1, 3, 6, |g| *g.pick(&['X', 'p', '\u{c9}', ' '])).into_iter().collect();
        let size = *g.pick(&[20f32, 10., 30., 25.]);
        (text, size, g.int(-10, 60) as f32, g.int(0, 70) as f32, *g.pick(&[(0f32, 0f32, 0f32), (1., 0., 0.), (0., 0., 1.)]))
    });
    let (pw, ph) = (100usize, 80usize);
    let scale = *g.pick(&[1usize, 2]);
    let mut doc = Document::new();
    {
        let mut page = doc.add_page(Size::new(pw as f32, ph as f32));
        for (text, size, x, y, c) in &runs {
            let segment = victor::text::ShapedSegment::naive_shape(text, font.clone()).or_else(|e| fail("shape", format!("{:?}", e)))?;
            page.set_color(&RGBA(c.0, c.1, c.2, 1.));
            let run = victor::primitives::TextRun {
                segment: &segment,
                font_size: victor::primitives::Length::new(*size),
                origin: victor::primitives::point(*x, *y),
            };
            page.show_text(&run).or_else(|e| fail("show", format!("{:?}", e)))?;
        }
    }
    cx.desc(format!("at {}: {:?}", scale, runs));
    let bytes = doc.write_to_pdf_bytes();
    let pdf = PdfDocument::from_bytes(&bytes).or_else(|e| fail("pdf-refused", e.to_string()))?;
    let page = pdf.pages().next().unwrap();
    let options = RenderOptions { dppx_x: scale as f64, dppx_y: scale as f64, backdrop: Backdrop::White, for_printing: false };
    let mut surface = page.render_with_options(options).or_else(|e| fail("render-failed", e.to_string()))?;
    let px = surface.pixels();
    ensure!((px.width, px.height) == (pw * scale, ph * scale), "surface-size", "{}x{}", px.width, px.height);
    let mut boxes = vec![];
    for (text, size, x, y, c) in &runs {
        for (i, ch) in text.chars().enumerate() {
            let (top, bottom) = match ch {
                'X' => (-0.8, 0.2),
                'p' => (0., 0.2),
                '\u{c9}' => (-0.8, 0.),
                _ => continue,
            };
            let s = scale as f32;
            boxes.push(((x + i as f32 * size) * s, (y + top * size) * s, size * s, (bottom - top) * size * s, *c))
        }
    }
    let (mut checked, mut painted) = (0, 0);
    for y in 0..px.height {
        for x in 0..px.width {
            let (fx, fy) = (x as f32 + 0.5, y as f32 + 0.5);
            let mut c = Some((1f32, 1f32, 1f32));
            for b in &boxes {
                let d = (fx - b.0).min(b.0 + b.2 - fx).min(fy - b.1).min(b.1 + b.3 - fy);
                if d > 1.6 {
                    c = Some(b.4)
                } else if d > -1.6 {
                    c = None
                }
            }
            if let Some(c) = c {
                checked += 1;
                painted += (c != (1., 1., 1.)) as u64;
                let e = [255, (c.0 * 255.) as u8, (c.1 * 255.) as u8, (c.2 * 255.) as u8];
                let p = px.buffer[y * px.width + x].to_be_bytes();
                ensure!(p[1..] == e[1..], "glyph-pixel", "pixel {},{} is {:02x?} instead of {:02x?}", x, y, p, e)
            }
        }
    }
    cx.count("pixels checked", checked);
    cx.count("pixels painted", painted);
    cx.nontrivial = painted >= 50;
    Ok(())
}

/// PDF files of other origin: boxes that do not start at zero, annotations for the screen or for printing,
/// producers beyond ASCII
fn c25_other(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    if g.chance(5) {
        // what is no PDF file at all
        let bytes: Vec<u8> = g.list(0, 20, 300, |g| if g.chance(50) { *g.pick(b" ab\n<>/[]()0") } else { g.upto(255) as u8 });
        cx.desc(format!("not a PDF: {:?}", String::from_utf8_lossy(&bytes)));
        if bytes.windows(3).any(|w| w == b"PDF" || w == b"obj") {
            return Ok(());
        }
        return match PdfDocument::from_bytes(&bytes) {
            Ok(_) => fail("garbage-accepted", ""),
            Err(e) => {
                ensure!(!e.to_string().is_empty() && !format!("{:?}", e).is_empty(), "no-message", "{:?}", e);
                cx.label("refused");
                Ok(())
            }
        };
    }
    // in units of 3 pt, which are 4 px
    struct Mark {
        at: [i64; 4],
        rgb: [u8; 3],
        /// flags of an annotation, or a part of the contents
        flags: Option<u32>,
    }
    struct P {
        origin: (i64, i64),
        size: (i64, i64),
        marks: Vec<Mark>,
    }
    let pages = g.list(1, 2, 4, |g| {
        let size = (g.int(4, 14), g.int(4, 14));
        let marks = g.list(0, 3, 6, |g| {
            let (x, y) = (g.int(0, size.0 - 1), g.int(0, size.1 - 1));
            let (w, h) = (g.int(1, size.0 - x), g.int(1, size.1 - y));
            // bits: 2 hidden, 4 for printing, 32 not for the screen
            let flags = if g.chance(30) { None } else { Some(*g.pick(&[0u32, 4, 4, 36, 36, 32, 2, 6, 38, 64 + 4, 128])) };
            Mark { at: [x, y, w, h], rgb: [g.upto(255) as u8, g.upto(255) as u8, g.upto(255) as u8], flags }
        });
        P { origin: (g.int(-5, 5), g.int(-5, 5)), size, marks }
    });
    let producer: String = g.list(0, 4, 12, |g| *g.pick(&['a', 'B', ' ', 'é', '漢', '\u{1f600}', '(', '\\', '€', '\u{a0}'])).into_iter().collect();
    let with_producer = g.chance(80);
    // objects
    let mut objects: Vec<String> = vec![String::new(); 3];
    objects[0] = "<</Type/Catalog/Pages 2 0 R>>".into();
    objects[2] = if with_producer {
        let hex: String = producer.encode_utf16().map(|u| format!("{:04X}", u)).collect();
        format!("<</Producer<FEFF{}>>>", hex)
    } else {
        "<</Title(x)>>".into()
    };
    let mut kids = String::new();
    for p in &pages {
        let rgb = |m: &Mark| m.rgb.iter().map(|c| format!("{:.6} ", *c as f64 / 255.)).collect::<String>();
        let stream = |extra: &str, s: String| format!("<<{}/Length {}>>stream\n{}\nendstream", extra, s.len(), s);
        let (ox, oy) = (p.origin.0 * 3, p.origin.1 * 3);
        let mut contents = String::new();
        let mut annots = String::new();
        for m in &p.marks {
            let [x, y, w, h] = [m.at[0] * 3 + ox, m.at[1] * 3 + oy, m.at[2] * 3, m.at[3] * 3];
            match m.flags {
                None => contents.push_str(&format!("{}rg {} {} {} {} re f ", rgb(m), x, y, w, h)),
                Some(flags) => {
                    objects.push(stream(&format!("/Type/XObject/Subtype/Form/BBox[0 0 {} {}]", w, h), format!("{}rg 0 0 {} {} re f", rgb(m), w, h)));
                    let ap = objects.len();
                    objects.push(format!("<</Type/Annot/Subtype/Stamp/Rect[{} {} {} {}]/F {}/AP<</N {} 0 R>>>>", x, y, x + w, y + h, flags, ap));
                    annots.push_str(&format!("{} 0 R ", objects.len()));
                }
            }
        }
        objects.push(stream("", contents));
        let c = objects.len();
        objects.push(format!(
            "<</Type/Page/Parent 2 0 R/MediaBox[{} {} {} {}]/Contents {} 0 R/Annots[{}]>>",
            ox,
            oy,
            ox + p.size.0 * 3,
            oy + p.size.1 * 3,
            c,
            annots
        ));
        kids.push_str(&format!("{} 0 R ", objects.len()));
    }
    objects[1] = format!("<</Type/Pages/Count {}/Kids[{}]>>", pages.len(), kids);
    let mut bytes = b"%PDF-1.5\n".to_vec();
    let mut offsets = vec![];
    for (i, o) in objects.iter().enumerate() {
        offsets.push(bytes.len());
        bytes.extend(format!("{} 0 obj\n{}\nendobj\n", i + 1, o).bytes());
    }
    let xref = bytes.len();
    bytes.extend(format!("xref\n0 {}\n0000000000 65535 f \n", objects.len() + 1).bytes());
    for o in offsets {
        bytes.extend(format!("{:010} 00000 n \n", o).bytes())
    }
    bytes.extend(format!("trailer<</Size {}/Root 1 0 R/Info 3 0 R>>\nstartxref\n{}\n%%EOF\n", objects.len() + 1, xref).bytes());

    let pdf = PdfDocument::from_bytes(&bytes).or_else(|e| fail("pdf-refused", e.to_string()))?;
    let got = pdf.producer();
    let got = got.as_ref().map(|s| s.to_str().unwrap_or("?"));
    let expected = if with_producer { Some(&producer[..]) } else { None };
    ensure!(got == expected || (producer.is_empty() && got.map_or(true, str::is_empty)), "producer", "{:?} instead of {:?}", got, expected);
    ensure!(pdf.pages().len() == pages.len(), "page-count", "{}", pdf.pages().len());
    let mut shown = [0u64; 2];
    let mut log = format!("producer {:?}", expected);
    for (page, p) in pdf.pages().zip(&pages) {
        let (w, h) = page.size_in_css_px();
        ensure!((w - p.size.0 as f64 * 4.).abs() < 1e-9 && (h - p.size.1 as f64 * 4.).abs() < 1e-9, "page-size", "{}x{}", w, h);
        let scale = g.us(1, 2);
        let for_printing = g.chance(50);
        let backdrop = *g.pick(&[Backdrop::Transparent, Backdrop::White]);
        let options = RenderOptions { dppx_x: scale as f64, dppx_y: scale as f64, backdrop, for_printing };
        log.push_str(&format!("; page {:?} from {:?} at {} on {:?} printing {}:", p.size, p.origin, scale, backdrop, for_printing));
        for m in &p.marks {
            log.push_str(&format!(" {:?} {:?} {:?},", m.at, m.rgb, m.flags))
        }
        cx.desc(log.clone());
        let mut surface = page.render_with_options(options).or_else(|e| fail("render-failed", e.to_string()))?;
        let px = surface.pixels();
        let unit = 4 * scale;
        ensure!((px.width, px.height) == (p.size.0 as usize * unit, p.size.1 as usize * unit), "surface-size", "{}x{}", px.width, px.height);
        for cy in 0..p.size.1 {
            for ux in 0..p.size.0 {
                let mut c = if backdrop == Backdrop::White { Some([255; 3]) } else { None };
                // annotations are above the contents
                for above in &[false, true] {
                    for m in p.marks.iter().filter(|m| m.flags.is_some() == *above) {
                        let visible = match m.flags {
                            None => true,
                            Some(f) => f & 2 == 0 && if for_printing { f & 4 != 0 } else { f & 32 == 0 },
                        };
                        if visible && ux >= m.at[0] && ux < m.at[0] + m.at[2] && cy >= m.at[1] && cy < m.at[1] + m.at[3] {
                            c = Some(m.rgb);
                            shown[*above as usize] += 1
                        }
                    }
                }
                // the middle of the unit
                let (x, y) = (ux as usize * unit + unit / 2, (p.size.1 - 1 - cy) as usize * unit + unit / 2);
                let [a, r, gr, b] = px.buffer[y * px.width + x].to_be_bytes();
                let ok = match c {
                    None => [a, r, gr, b] == [0; 4],
                    Some(e) => (backdrop == Backdrop::White || a == 255) && (0..3).all(|i| (e[i] as i32 - [r, gr, b][i] as i32).abs() <= 1),
                };
                if !ok {
                    return fail("pixel", format!("unit {},{}: {:?} instead of {:?}", ux, cy, [a, r, gr, b], c));
                }
            }
        }
    }
    cx.nontrivial = shown[0] >= 2 && shown[1] >= 2;
    Ok(())
}

pub fn rendering() -> Prop {
    Prop {
        id: "C25",
        rule: "a case is a page with rectangles, or lines of text, written by Victor and read by Lester; non-trivial if at least 20 pixels are painted and compared, or it has at least four words",
        assumptions: &["Poppler and cairo rasterise what a PDF file says; pixels on the edges of rectangles are not compared"],
        parts: vec![part("rectangles", 40_000, 600_000, c25), part("long pages", 3_000, 40_000, c25_long), part("glyphs", 8_000, 250_000, c25_glyphs), part("text", 10_000, 400_000, c25_text), part("other files", 8_000, 300_000, c25_other)],
    }
}

// ---------------------------------------------------------------- C26

fn c26(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let n = match g.upto(5) {
        0 => 0,
        1 => 1,
        2 => g.us(10, 40),
        _ => g.us(2, 9),
    };
    // sizes that are not whole numbers, and large ones
    let base = (*g.pick(&[10., 10.25, 10.375, 2000.5]), *g.pick(&[100., 99.5, 100.125, 3000.75]));
    let mut doc = Document::new();
    for i in 0..n {
        doc.add_page(Size::new(base.0 as f32 + i as f32, base.1 as f32 - i as f32));
    }
    let bytes = doc.write_to_pdf_bytes();
    let pdf = PdfDocument::from_bytes(&bytes).or_else(|e| fail("pdf-refused", e.to_string()))?;
    let index = |p: &lester::Page| -> Result<usize, Fail> {
        let (w, h) = p.size_in_css_px();
        let i = (w - base.0).round();
        ensure!((w - base.0 - i).abs() < 1e-3 && (h - base.1 + i).abs() < 1e-3, "page-size", "{}x{}", w, h);
        let (w, h) = p.size_in_ps_points();
        ensure!((w - (base.0 + i) * 0.75).abs() < 1e-3 && (h - (base.1 - i) * 0.75).abs() < 1e-3, "page-size-pt", "{}x{}", w, h);
        Ok(i as usize)
    };
    ensure!(pdf.pages().len() == n, "page-count", "{} of {}", pdf.pages().len(), n);
    {
        // The producer: as it is, another of the same length, or none
        const PRODUCER: &str = "Victor <https://github.com/SimonSapin/victor>";
        let at = bytes.windows(PRODUCER.len()).position(|w| w == PRODUCER.as_bytes());
        let at = if let Some(at) = at { at } else { return fail("no-producer", "Victor is not named as the producer") };
        let got = pdf.producer();
        let got = got.as_ref().map(|s| s.to_str().unwrap_or("?"));
        ensure!(got == Some(PRODUCER), "producer", "{:?}", got);
        let mut other = bytes.clone();
        if g.chance(50) {
            let text: String = (0..PRODUCER.len()).map(|_| *g.pick(&['x', 'Y', '0', ' ', '.', '~'])).collect();
            other[at..at + text.len()].copy_from_slice(text.as_bytes());
            let pdf = PdfDocument::from_bytes(&other).or_else(|e| fail("pdf-refused", e.to_string()))?;
            let got = pdf.producer();
            let got = got.as_ref().map(|s| s.to_str().unwrap_or("?"));
            ensure!(got == Some(&text[..]), "producer", "{:?} instead of {:?}", got, text)
        } else if let Some(key) = bytes.windows(9).position(|w| w == b"/Producer") {
            other[key..key + 9].copy_from_slice(b"/Xroducer");
            let pdf = PdfDocument::from_bytes(&other).or_else(|e| fail("pdf-refused", e.to_string()))?;
            ensure!(pdf.producer().is_none(), "producer", "a document without producer has one")
        }
    }
    let mut iters: Vec<(lester::PagesIter, VecDeque<usize>)> = vec![(pdf.pages(), (0..n).collect())];
    let mut log = format!("{} pages:", n);
    let ops = g.list(0, 8, 40, |g| (g.upto(9), g.upto(3), g.upto(60)));
    let mut kinds = 0u32;
    let mut kept = vec![];
    for (op, which, arg) in ops {
        let k = which as usize % iters.len();
        let arg = match arg {
            57 => 1 << 32,
            58 => (1 << 32) + n / 2,
            59 => usize::MAX,
            60 => 1 << 31,
            _ => arg as usize % (n + 3),
        };
        let (it, model) = &mut iters[k];
        kinds |= 1 << op;
        let (got, expected) = match op {
            0 | 1 => {
                log.push_str(&format!(" {}.next", k));
                (it.next(), model.pop_front())
            }
            2 | 3 => {
                log.push_str(&format!(" {}.next_back", k));
                (it.next_back(), model.pop_back())
            }
            4 | 5 => {
                log.push_str(&format!(" {}.nth({})", k, arg));
                let a = arg.min(model.len());
                model.drain(..a);
                (it.nth(arg), model.pop_front())
            }
            6 => {
                log.push_str(&format!(" {}.nth_back({})", k, arg));
                let a = model.len() - arg.min(model.len());
                model.drain(a..);
                (it.nth_back(arg), model.pop_back())
            }
            7 => {
                log.push_str(" new");
                iters.push((pdf.pages(), (0..n).collect()));
                continue;
            }
            8 => {
                log.push_str(&format!(" {}.rest", k));
                // what is left, forwards or backwards
                let (it, model) = iters.remove(k);
                let back = arg % 2 == 1;
                let pages: Vec<lester::Page> = if back { it.rev().collect() } else { it.collect() };
                let mut got = vec![];
                for p in &pages {
                    got.push(index(p)?)
                }
                let mut m: Vec<usize> = model.into_iter().collect();
                if back {
                    m.reverse()
                }
                ensure!(got == m, "rest", "{}: {:?} instead of {:?}", log, got, m);
                iters.push((pdf.pages(), (0..n).collect()));
                continue;
            }
            _ => {
                log.push_str(&format!(" {}.last", k));
                let (it, model) = iters.remove(k);
                let got = it.last().map(|p| index(&p)).transpose()?;
                ensure!(got == model.back().cloned(), "last", "{}: {:?} instead of {:?}", log, got, model.back());
                iters.push((pdf.pages(), (0..n).collect()));
                continue;
            }
        };
        let got_i = got.as_ref().map(index).transpose()?;
        ensure!(got_i == expected, "page", "{}: got {:?} instead of {:?}", log, got_i, expected);
        let (it, model) = &iters[k];
        ensure!(it.len() == model.len() && it.size_hint() == (model.len(), Some(model.len())), "len", "{}: len {} size_hint {:?} for {}", log, it.len(), it.size_hint(), model.len());
        if let Some(p) = got {
            kept.push((p, expected.unwrap()))
        }
    }
    cx.desc(log);
    // Pages do not depend on the iterators, nor on the document
    drop(iters);
    drop(pdf);
    for (p, i) in &kept {
        ensure!(index(p)? == *i, "page-changed", "page {}", i);
    }
    cx.nontrivial = n >= 2 && kinds.count_ones() >= 3;
    Ok(())
}

pub fn pages() -> Prop {
    Prop {
        id: "C26",
        rule: "a case is a document and a history of calls on iterators over its pages; non-trivial if it has at least two pages and three kinds of calls",
        assumptions: &["Poppler reads the page tree that the file has"],
        parts: vec![part("histories", 100_000, 1_500_000, c26)],
    }
}
