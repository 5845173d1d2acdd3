//! C28: what is allocated is released, once.
//!
//! A history of operations is run again and again, each time with everything dropped at its end: from the second or third
//! time on, it has to leave as much memory and as many open files behind as there were before.
//! Freed memory is overwritten by the allocator (M_PERTURB), so that what is used after that shows; freeing
//! something twice aborts.
use super::lester::{clean_scratch, scratch, PanicPayload};
use super::schedule;
use crate::engine::*;
use lester::{Backdrop, CairoError, GlibError, GlibString, ImageSurface, LesterError, Page, PdfDocument, RenderOptions};
use std::any::Any;
use std::io::{self, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use victor::pdf::Document;
use victor::fonts::Font;
use victor::primitives::{point, rect, Length, Size, TextRun, RGBA};
use victor::text::ShapedSegment;

#[repr(C)]
#[derive(Default)]
struct MallInfo2 {
    arena: usize,
    ordblks: usize,
    smblks: usize,
    hblks: usize,
    hblkhd: usize,
    usmblks: usize,
    fsmblks: usize,
    uordblks: usize,
    fordblks: usize,
    keepcost: usize,
}
extern "C" {
    fn mallinfo2() -> MallInfo2;
    fn mallopt(param: i32, value: i32) -> i32;
}
const M_PERTURB: i32 = -6;

/// Bytes allocated and not freed, in the whole process
fn allocated() -> i64 {
    let m = unsafe { mallinfo2() };
    (m.uordblks + m.hblkhd) as i64
}
fn open_files() -> i64 {
    std::fs::read_dir("/proc/self/fd").map_or(0, |d| d.count()) as i64
}

/// The number of times in a round
const TIMES: i64 = 12;
/// Chunks have no fewer bytes than that
const CHUNK: i64 = 16;

/// `run` gives the same each time, and leaves nothing behind.
fn repeated(warm_up: usize, times: i64, mut run: impl FnMut() -> Result<u64, Fail>) -> Result<(), Fail> {
    unsafe {
        mallopt(M_PERTURB, 0xA5);
    }
    let first = run()?;
    let mut check = |n: i64| {
        for _ in 0..n {
            let again = run()?;
            ensure!(again == first, "other-result", "the same operations give something else when they are repeated");
        }
        Ok(())
    };
    check(warm_up as i64)?;
    let mut growth = vec![];
    let mut files = vec![];
    // Allocators have caches of their own: what counts is that it goes on growing
    for _ in 0..5 {
        let (m, f) = (allocated(), open_files());
        check(times)?;
        let (dm, df) = (allocated() - m, open_files() - f);
        growth.push(dm);
        files.push(df);
        if dm < times * CHUNK && df < times {
            return Ok(());
        }
    }
    if files.iter().all(|d| *d >= times) {
        return fail("open-files", format!("the number of open files grows by {:?} every {} times", files, times));
    }
    if growth.iter().all(|d| *d >= times * CHUNK) {
        return fail("memory", format!("the memory in use grows by {:?} bytes every {} times", growth, times));
    }
    Ok(())
}

fn mix(h: &mut u64, bytes: &[u8]) {
    for b in bytes {
        *h = (*h ^ *b as u64).wrapping_mul(0x100_0000_01b3)
    }
}
fn mix_u(h: &mut u64, v: u64) {
    mix(h, &v.to_le_bytes())
}
fn digest(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325;
    mix(&mut h, bytes);
    h
}

// ---------------------------------------------------------------- Lester

#[derive(Clone, Copy, PartialEq, Debug)]
enum Trouble {
    No,
    Error,
    Panic,
}

struct Pipe<'a> {
    input: &'a [u8],
    output: usize,
    left: usize,
    trouble: Trouble,
    /// streams own something themselves
    _owned: Vec<u8>,
}
impl<'a> Pipe<'a> {
    fn new(input: &'a [u8], trouble: Trouble, left: usize) -> Self {
        Pipe { input, output: 0, left, trouble, _owned: vec![1; 100] }
    }
    fn step(&mut self, n: usize) -> io::Result<usize> {
        if self.trouble == Trouble::No {
            return Ok(n);
        }
        if self.left == 0 {
            if self.trouble == Trouble::Panic {
                std::panic::panic_any(PanicPayload(7))
            }
            return Err(io::Error::new(io::ErrorKind::Other, "trouble".to_owned()));
        }
        let n = n.min(self.left);
        self.left -= n;
        Ok(n)
    }
}
impl<'a> Read for Pipe<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.step(buf.len().min(self.input.len()))?;
        buf[..n].copy_from_slice(&self.input[..n]);
        self.input = &self.input[n..];
        Ok(n)
    }
}
impl<'a> Write for Pipe<'a> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.step(buf.len())?;
        self.output += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

enum Obj<'d> {
    Doc(PdfDocument<'d>),
    Page(Page<'d>),
    Surface(ImageSurface),
    Text(GlibString),
    Glib(GlibError),
    Cairo(CairoError),
    Lester(LesterError),
    Payload(Box<dyn Any + Send>),
}

impl<'d> Obj<'d> {
    /// What can be seen of it
    fn look(&mut self) -> u64 {
        let mut h = 1;
        match self {
            Obj::Doc(d) => {
                mix_u(&mut h, d.pages().len() as u64);
                if let Some(s) = d.producer() {
                    mix(&mut h, s.to_str().unwrap_or("?").as_bytes())
                }
            }
            Obj::Page(p) => {
                let (w, hh) = p.size_in_ps_points();
                mix_u(&mut h, w.to_bits());
                mix_u(&mut h, hh.to_bits())
            }
            Obj::Surface(s) => {
                let p = s.pixels();
                mix_u(&mut h, p.width as u64);
                for x in p.buffer.iter() {
                    mix_u(&mut h, *x as u64)
                }
            }
            Obj::Text(s) => mix(&mut h, s.to_str().unwrap_or("?").as_bytes()),
            Obj::Glib(e) => mix(&mut h, format!("{} {:?}", e, e).as_bytes()),
            Obj::Cairo(e) => mix(&mut h, format!("{} {:?}", e.clone(), e).as_bytes()),
            Obj::Lester(e) => mix(&mut h, format!("{:?}", e).as_bytes()),
            Obj::Payload(p) => mix_u(&mut h, p.downcast_ref::<PanicPayload>().map_or(0, |p| p.0)),
        }
        h
    }
}

#[derive(Clone, Debug)]
enum Step {
    Parse(usize),
    GetPage { slot: usize, nth: usize, back: bool },
    /// some pages of an iterator, dropped at once
    Iterate { slot: usize, front: usize, back: usize },
    Producer(usize),
    TextOf(usize),
    Render { slot: usize, scale: f64, transparent: bool, printing: bool },
    New { argb: bool, w: usize, h: usize },
    Fill(usize, u32),
    WritePng { slot: usize, trouble: Trouble, left: usize },
    ReadPng { data: usize, trouble: Trouble, left: usize },
    WriteFile(usize, u8),
    ReadFile(u8),
    Drop(usize),
    Swap(usize, usize),
}

struct History {
    pdfs: Vec<(Vec<u8>, bool)>,
    pngs: Vec<Vec<u8>>,
    steps: Vec<Step>,
}

fn run(hist: &History) -> Result<u64, Fail> {
    let mut objs: Vec<(Obj, u64)> = vec![];
    let mut trace = 0;
    let _ = std::fs::remove_file(scratch("r.png"));
    // pages whose text is to be shown are not rendered: cairo keeps the glyphs of some hundred fonts
    let mut with_text: Vec<bool> = vec![];
    macro_rules! keep {
        ($o: expr, $t: expr) => {{
            let mut o = $o;
            let d = o.look();
            mix_u(&mut trace, d);
            objs.push((o, d));
            with_text.push($t);
        }};
    }
    macro_rules! outcome {
        ($e: expr, $ok: expr) => {
            match catch_unwind(AssertUnwindSafe(|| $e)) {
                Ok(Ok(x)) => $ok(x),
                Ok(Err(e)) => keep!(Obj::Lester(e), false),
                Err(p) => keep!(Obj::Payload(p), false),
            }
        };
    }
    for st in &hist.steps {
        mix_u(&mut trace, objs.len() as u64);
        let n = objs.len().max(1);
        match *st {
            Step::Parse(i) => {
                let (bytes, t) = &hist.pdfs[i % hist.pdfs.len()];
                match PdfDocument::from_bytes(bytes) {
                    Ok(d) => keep!(Obj::Doc(d), *t),
                    Err(e) => keep!(Obj::Glib(e), false),
                }
            }
            Step::GetPage { slot, nth, back } => {
                if let Some((Obj::Doc(d), _)) = objs.get(slot % n) {
                    let t = with_text[slot % n];
                    // (a panic if the page is damaged)
                    outcome!(
                        {
                            let mut it = d.pages();
                            if back {
                                it.next_back();
                            }
                            Ok(it.nth(nth).or_else(|| d.pages().next()))
                        },
                        |p: Option<_>| if let Some(p) = p {
                            keep!(Obj::Page(p), t)
                        }
                    )
                }
            }
            Step::Iterate { slot, front, back } => {
                if let Some((Obj::Doc(d), _)) = objs.get(slot % n) {
                    outcome!(
                        {
                            let mut it = d.pages();
                            for _ in 0..front {
                                it.next();
                            }
                            for _ in 0..back {
                                it.next_back();
                            }
                            let a: u64 = it.map(|p| p.size_in_css_px().0 as u64).sum();
                            let all: Vec<Page> = d.pages().rev().collect();
                            Ok((a, all.len()))
                        },
                        |(a, n)| {
                            mix_u(&mut trace, a);
                            mix_u(&mut trace, n as u64)
                        }
                    )
                }
            }
            Step::Producer(slot) => {
                if let Some((Obj::Doc(d), _)) = objs.get(slot % n) {
                    if let Some(s) = d.producer() {
                        keep!(Obj::Text(s), false)
                    }
                }
            }
            Step::TextOf(slot) => {
                if let Some((Obj::Page(p), _)) = objs.get(slot % n) {
                    let s = p.text();
                    keep!(Obj::Text(s), false)
                }
            }
            Step::Render { slot, scale, transparent, printing } => {
                if let (Some((Obj::Page(p), _)), Some(false)) = (objs.get(slot % n), with_text.get(slot % n)) {
                    let r = p.render_with_options(RenderOptions {
                        dppx_x: scale,
                        dppx_y: scale,
                        backdrop: if transparent { Backdrop::Transparent } else { Backdrop::White },
                        for_printing: printing,
                    });
                    match r {
                        Ok(s) => keep!(Obj::Surface(s), false),
                        Err(e) => keep!(Obj::Cairo(e), false),
                    }
                }
            }
            Step::New { argb, w, h } => match if argb { ImageSurface::new_argb32(w, h) } else { ImageSurface::new_rgb24(w, h) } {
                Ok(s) => keep!(Obj::Surface(s), false),
                Err(e) => keep!(Obj::Cairo(e), false),
            },
            Step::Fill(slot, v) => {
                if let Some((o, d)) = objs.get_mut(slot % n) {
                    if let Obj::Surface(s) = o {
                        for (i, x) in s.pixels().buffer.iter_mut().enumerate() {
                            *x = (v.wrapping_mul(i as u32 + 1) & 0x7f7f7f) | 0xff00_0000
                        }
                        *d = o.look()
                    }
                }
            }
            Step::WritePng { slot, trouble, left } => {
                if let Some((Obj::Surface(s), _)) = objs.get(slot % n) {
                    let mut p = Pipe::new(&[], trouble, left);
                    outcome!(s.write_to_png(&mut p), |()| ());
                    mix_u(&mut trace, p.output as u64)
                }
            }
            Step::ReadPng { data, trouble, left } => {
                let p = Pipe::new(&hist.pngs[data % hist.pngs.len()], trouble, left);
                outcome!(ImageSurface::read_from_png(p), |s| keep!(Obj::Surface(s), false))
            }
            Step::WriteFile(slot, to) => {
                if let Some((Obj::Surface(s), _)) = objs.get(slot % n) {
                    let path = match to % 4 {
                        0 => scratch("missing").join("a.png"),
                        1 => "/dev/full".into(),
                        _ => scratch("r.png"),
                    };
                    outcome!(s.write_to_png_file(&path), |()| ())
                }
            }
            Step::ReadFile(from) => {
                let path = match from % 4 {
                    0 => scratch("missing.png"),
                    1 => "/dev/null".into(),
                    _ => scratch("r.png"),
                };
                outcome!(ImageSurface::read_from_png_file(&path), |s| keep!(Obj::Surface(s), false))
            }
            Step::Drop(slot) => {
                if slot % n < objs.len() {
                    let (mut o, d) = objs.swap_remove(slot % n);
                    with_text.swap_remove(slot % n);
                    ensure!(o.look() == d, "changed", "an object is not any more what it was");
                }
            }
            Step::Swap(a, b) => {
                if !objs.is_empty() {
                    objs.swap(a % n, b % n);
                    with_text.swap(a % n, b % n)
                }
            }
        }
    }
    while let Some((mut o, d)) = objs.pop() {
        let e = o.look();
        ensure!(e == d, "changed", "an object is not any more what it was {}", if let Obj::Page(p) = &o { format!("{:?}", p.size_in_ps_points()) } else { "".into() });
    }
    Ok(trace)
}

fn gen_pdf(g: &mut G) -> (Vec<u8>, bool) {
    if g.chance(25) {
        let s = format!("<p>{}</p><p>text {}", "words of it ".repeat(g.us(0, 4)), g.upto(100));
        return (victor::dom::Document::parse_html(s.as_bytes()).to_pdf_bytes(), true);
    }
    let mut doc = Document::new();
    for _ in 0..g.us(0, 4) {
        let mut p = doc.add_page(Size::new(g.int(1, 60) as f32, g.int(1, 60) as f32));
        for _ in 0..g.us(0, 4) {
            p.set_color(&RGBA(g.upto(4) as f32 / 4., g.upto(4) as f32 / 4., 0.5, *g.pick(&[1., 1., 0.5])));
            p.paint_rectangle(&rect(g.int(-5, 50) as f32, g.int(-5, 50) as f32, g.int(0, 40) as f32, g.int(0, 40) as f32));
        }
    }
    let whole = doc.write_to_pdf_bytes();
    let mut b = whole.clone();
    match g.weighted(&[7, 1, 1, 1]) {
        0 => {}
        1 => b.truncate(g.us(0, b.len())),
        2 => b = b"not a PDF file".to_vec(),
        _ => {
            for _ in 0..g.us(1, 6) {
                let i = g.us(0, b.len() - 1);
                b[i] = g.upto(255) as u8
            }
        }
    }
    // Poppler repairs what is damaged little by little, as it is looked at: only files that are refused are used here
    if PdfDocument::from_bytes(&b).is_ok() {
        b = whole
    }
    (b, false)
}

fn gen_png(g: &mut G) -> Vec<u8> {
    let (w, h) = (g.us(1, 30), g.us(1, 30));
    let mut s = if g.chance(50) { ImageSurface::new_argb32(w, h) } else { ImageSurface::new_rgb24(w, h) }.unwrap();
    for x in s.pixels().buffer.iter_mut() {
        *x = g.upto(0xff_ffff) as u32 | 0xff00_0000
    }
    let mut b = vec![];
    s.write_to_png(&mut b).unwrap();
    match g.weighted(&[6, 1, 1, 1]) {
        0 => {}
        1 => b.truncate(g.us(0, b.len())),
        2 => b = vec![0; g.us(0, 100)],
        _ => {
            for _ in 0..g.us(1, 4) {
                let i = g.us(0, b.len() - 1);
                b[i] = g.upto(255) as u8
            }
        }
    }
    b
}

fn gen_step(g: &mut G) -> Step {
    let trouble = |g: &mut G| *g.pick(&[Trouble::No, Trouble::Error, Trouble::Panic]);
    let left = |g: &mut G| if g.chance(50) { g.us(0, 60) } else { g.us(0, 2000) };
    let slot = |g: &mut G| g.us(0, 30);
    match g.weighted(&[4, 5, 2, 2, 3, 5, 3, 2, 4, 4, 1, 1, 5, 2]) {
        0 => Step::Parse(slot(g)),
        1 => Step::GetPage { slot: slot(g), nth: g.us(0, 3), back: g.chance(50) },
        2 => Step::Iterate { slot: slot(g), front: g.us(0, 4), back: g.us(0, 4) },
        3 => Step::Producer(slot(g)),
        4 => Step::TextOf(slot(g)),
        5 => Step::Render { slot: slot(g), scale: *g.pick(&[1., 2., 0.5, 0., 1e5]), transparent: g.chance(50), printing: g.chance(50) },
        6 => {
            let (w, h) = match g.upto(5) {
                0 => (40_000, 1),
                1 => (1, 32_768),
                2 => (0, g.us(0, 3)),
                _ => (g.us(1, 40), g.us(1, 40)),
            };
            Step::New { argb: g.chance(50), w, h }
        }
        7 => Step::Fill(slot(g), g.upto(0xff_ffff) as u32),
        8 => Step::WritePng { slot: slot(g), trouble: trouble(g), left: left(g) },
        9 => Step::ReadPng { data: slot(g), trouble: trouble(g), left: left(g) },
        10 => Step::WriteFile(slot(g), g.upto(3) as u8),
        11 => Step::ReadFile(g.upto(3) as u8),
        12 => Step::Drop(slot(g)),
        _ => Step::Swap(slot(g), slot(g)),
    }
}

fn c28_lester(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let pdfs: Vec<_> = (0..g.us(1, 3)).map(|_| gen_pdf(g)).collect();
    let pngs: Vec<_> = (0..g.us(1, 3)).map(|_| gen_png(g)).collect();
    let mut steps = vec![Step::Parse(0)];
    steps.extend(g.list(1, 14, 40, gen_step));
    let hist = History { pdfs, pngs, steps };
    cx.desc(format!(
        "PDF files {:?}, PNG files {:?}, {:?}",
        hist.pdfs.iter().map(|b| if b.0.len() < 3000 { String::from_utf8_lossy(&b.0).into_owned() } else { b.0.len().to_string() }).collect::<Vec<_>>(),
        hist.pngs.iter().map(|b| b.len()).collect::<Vec<_>>(),
        hist.steps
    ));
    let r = repeated(2, TIMES, || run(&hist));
    clean_scratch();
    cx.nontrivial = hist.steps.len() >= 8;
    r
}

// ---------------------------------------------------------------- Victor

fn c28_victor(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let sources: Vec<_> = (0..g.us(1, 2)).map(|_| schedule::source(g)).collect();
    let mut order: Vec<usize> = g.list(1, 3, 6, |g| g.us(0, 1));
    for o in &mut order {
        *o %= sources.len()
    }
    let late = g.chance(50);
    let plain = super::textplain::gen_plain(g, true);
    let font = crate::models::font::gen(g).build();
    let left = g.us(0, 3000);
    let trouble = *g.pick(&[Trouble::No, Trouble::Error, Trouble::Panic]);
    cx.desc(sources.iter().map(|s| String::from_utf8_lossy(&s.bytes).into_owned()).collect::<Vec<_>>().join("\n----\n"));
    cx.nontrivial = sources.iter().any(|s| s.bytes.len() >= 60);
    repeated(2, 6, || {
        let mut h = 1;
        let mut kept = vec![];
        for &i in &order {
            match schedule::parse(&sources[i]) {
                Some(d) => {
                    let b = d.to_pdf_bytes();
                    mix_u(&mut h, digest(&b));
                    if late {
                        kept.push(d)
                    }
                }
                None => mix_u(&mut h, 5),
            }
        }
        let mut doc = Document::new();
        {
            let mut p = doc.add_page(Size::new(100., 100.));
            p.paint_rectangle(&rect(1., 2., 3., 4.));
            if let Ok(font) = Font::parse(font.clone()) {
                if let Ok(s) = ShapedSegment::naive_shape(&plain, font) {
                    let _ = p.show_text(&TextRun { segment: &s, font_size: Length::new(10.), origin: point(1., 2.) });
                }
            }
        }
        let mut pipe = Pipe::new(&[], trouble, left);
        let r = catch_unwind(AssertUnwindSafe(|| doc.write_to_pdf(&mut pipe).is_ok()));
        mix_u(&mut h, r.map_or(2, |x| x as u64));
        mix_u(&mut h, pipe.output as u64);
        Ok(h)
    })
}

pub fn prop() -> Prop {
    Prop {
        id: "C28",
        rule: "a case is a history of operations that is repeated; non-trivial if there are at least eight operations of Lester, or a document of 60 bytes or more",
        assumptions: &["what cairo keeps for the fonts last used (a bounded number of them) is not looked at: pages with text are not rendered"],
        parts: vec![part("lester", 5_000, 100_000, c28_lester), part("victor", 3_000, 40_000, c28_victor)],
    }
}
