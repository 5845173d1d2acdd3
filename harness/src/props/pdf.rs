//! C02 PDF structure, C03 page content fidelity, C04 font embedding and text extraction.
use super::common::*;
use crate::engine::*;
use crate::models::font::{self, Spec};
use crate::pdfp::{Item, Obj, Pdf};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use victor::fonts::{Font, BITSTREAM_VERA_SANS};
use victor::pdf::Document;
use victor::primitives::{point, rect, Length, Size, TextRun, RGBA};
use victor::text::ShapedSegment;

pub fn repo_font(name: &str) -> Vec<u8> {
    std::fs::read(format!("/repo/tests/fonts/{}", name)).unwrap_or_else(|_| BITSTREAM_VERA_SANS.bytes().to_vec())
}

#[derive(Clone, Debug)]
pub enum Op {
    Color(f32, f32, f32, f32),
    Rect(f32, f32, f32, f32),
    Text { font: usize, text: String, size: f32, x: f32, y: f32 },
}

pub struct FontUse {
    pub font: Arc<Font>,
    /// None: a font file of the repository
    pub spec: Option<Spec>,
}

fn coord(g: &mut G) -> f32 {
    let pool: &[f32] = &[
        0., 1., 10., 0.5, 100.25, -3., 1e-3, 0.1, 33.333333, 595.276, 1e-7, -2.5e-6, 123456.79, 1e7, 1.6e9, 1e20, -1e18, 3e-39, 16777217., 0.3,
        3.4e38,
    ];
    match g.weighted(&[5, 4, 3, 1]) {
        0 => g.int(0, 800) as f32,
        1 => g.int(-8000, 8000) as f32 / 16.,
        2 => *g.pick(&pool[..12]),
        _ => *g.pick(pool),
    }
}
fn unit(g: &mut G) -> f32 {
    match g.weighted(&[4, 4, 2]) {
        0 => *g.pick(&[0., 1., 0.5, 0.25]),
        1 => g.int(0, 255) as f32 / 255.,
        _ => g.int(0, 1_000_000) as f32 / 1e6,
    }
}
fn color(g: &mut G) -> Op {
    let alpha = match g.weighted(&[5, 4, 1]) {
        0 => *g.pick(&[1.0f32, 0.5, 0., 0.25]),
        1 => unit(g),
        _ => *g.pick(&[-0.5f32, 1.5, 1e-7, 0.99999, 0.9999999, 2e10]),
    };
    if g.chance(40) {
        // revisit a small palette so that redundant changes happen
        let c = *g.pick(&[(0., 0., 0.), (1., 0., 0.), (0., 0., 1.)]);
        Op::Color(c.0, c.1, c.2, alpha)
    } else {
        Op::Color(unit(g), unit(g), unit(g), alpha)
    }
}

fn gen_fonts(g: &mut G) -> Vec<FontUse> {
    let mut v = vec![FontUse { font: BITSTREAM_VERA_SANS.clone(), spec: None }];
    let n = g.weighted(&[6, 4, 2]);
    for _ in 0..n {
        match g.weighted(&[1, 4]) {
            0 => {
                let f = *g.pick(&["ahem/ahem.ttf", "noto/NotoSansLinearB-Regular.ttf"]);
                v.push(FontUse { font: Font::parse(repo_font(f)).unwrap(), spec: None });
            }
            _ => {
                let spec = font::gen(g);
                if let Ok(font) = Font::parse(spec.build()) {
                    // the same file as two distinct fonts, sometimes
                    if g.chance(15) {
                        v.push(FontUse { font: Font::parse(spec.build()).unwrap(), spec: Some(spec.clone()) });
                    }
                    v.push(FontUse { font, spec: Some(spec) });
                }
            }
        }
    }
    v
}

pub fn gen_text(g: &mut G, f: &FontUse) -> String {
    if let Some(spec) = &f.spec {
        let all = spec.all();
        let chars: Vec<char> = all.keys().cloned().collect();
        g.list(0, 5, 30, |g| {
            if !chars.is_empty() && g.chance(75) {
                *g.pick(&chars)
            } else {
                *g.pick(&['a', ' ', '\u{7f}', '\u{2028}', '\u{1F600}', '\u{FFFF}', '\u{10FFFF}'])
            }
        })
        .into_iter()
        .collect()
    } else {
        text_chars(g, 40)
    }
}

pub struct Case {
    pub fonts: Vec<FontUse>,
    pub pages: Vec<(f32, f32, Vec<Op>)>,
    /// Fonts are loaded just before they are first used, and dropped right after they are last used
    pub late: bool,
}

pub fn gen_case(g: &mut G, avg_pages: usize, max_pages: usize, text_weight: u64) -> Case {
    let fonts = if text_weight > 0 { gen_fonts(g) } else { vec![] };
    let pages = g.list(0, avg_pages, max_pages, |g| {
        let sz = |g: &mut G| match g.weighted(&[4, 4, 1]) {
            0 => *g.pick(&[100.0f32, 4., 140., 50., 793.7008, 600.]),
            1 => g.int(1, 20000) as f32 / 8.,
            _ => *g.pick(&[0.1f32, 14400., 1e-3, 1e6, 1e-6, 2e10]),
        };
        let (w, h) = (sz(g), sz(g));
        let mut before: Vec<Op> = vec![];
        let mut ops = g.list(0, 6, 60, |g| match g.weighted(&[4, 4, text_weight]) {
            0 => Op::Rect(coord(g), coord(g), coord(g), coord(g)),
            1 => color(g),
            _ => {
                let f = g.us(0, fonts.len() - 1);
                let size = match g.weighted(&[4, 3, 1]) {
                    0 => *g.pick(&[15.0f32, 16., 1., 12.5]),
                    1 => g.int(1, 4000) as f32 / 16.,
                    _ => *g.pick(&[1e-3f32, 1e5, 2e-6]),
                };
                Op::Text { font: f, text: gen_text(g, &fonts[f]), size, x: coord(g), y: coord(g) }
            }
        });
        if g.chance(25) {
            // some are repeated, at once or later, exactly or almost
            for o in std::mem::take(&mut ops) {
                before.push(o);
                while before.len() < 80 && g.chance(25) {
                    let n = before.len();
                    let i = if g.chance(60) { n - 1 } else { g.us(0, n - 1) };
                    let mut o = before[i].clone();
                    if g.chance(30) {
                        match &mut o {
                            Op::Rect(x, y, w, h) => *[x, y, w, h][g.us(0, 3)] = coord(g),
                            Op::Color(r, gr, b, a) => *[r, gr, b, a][g.us(0, 3)] = *g.pick(&[0., 1., 0.5]),
                            Op::Text { x, y, .. } => *[x, y][g.us(0, 1)] = coord(g),
                        }
                    }
                    before.push(o)
                }
            }
            ops = before
        }
        (w, h, ops)
    });
    let late = fonts.len() > 1 && g.chance(40);
    Case { fonts, pages, late }
}

pub fn desc(c: &Case) -> String {
    let mut s = String::new();
    for (w, h, ops) in &c.pages {
        s.push_str(&format!("page {}x{} {{", w, h));
        for o in ops {
            match o {
                Op::Color(r, g, b, a) => s.push_str(&format!(" color({},{},{},{})", r, g, b, a)),
                Op::Rect(x, y, w, h) => s.push_str(&format!(" rect({},{},{},{})", x, y, w, h)),
                Op::Text { font, text, size, x, y } => {
                    s.push_str(&format!(" text(f{}, {:?}, {}, {},{})", font, text, size, x, y))
                }
            }
        }
        s.push_str(" } ");
    }
    if c.late {
        s.push_str("fonts loaded late; ");
    }
    for (i, f) in c.fonts.iter().enumerate() {
        if let Some(sp) = &f.spec {
            s.push_str(&format!("f{}: {:?} {} glyphs; ", i, sp.ps_name, sp.glyph_count));
        }
    }
    s
}

pub fn build(c: &Case) -> Document {
    let mut doc = Document::new();
    let mut loaded: Vec<Option<Arc<Font>>> = c.fonts.iter().map(|_| None).collect();
    let mut uses = vec![0; c.fonts.len()];
    for o in c.pages.iter().flat_map(|p| &p.2) {
        if let Op::Text { font, .. } = o {
            uses[*font] += 1
        }
    }
    for (w, h, ops) in &c.pages {
        let mut page = doc.add_page(Size::new(*w, *h));
        for o in ops {
            match o {
                Op::Color(r, g, b, a) => {
                    page.set_color(&RGBA(*r, *g, *b, *a));
                }
                Op::Rect(x, y, w, h) => {
                    page.paint_rectangle(&rect(*x, *y, *w, *h));
                }
                Op::Text { font, text, size, x, y } => {
                    let f = &c.fonts[*font];
                    let the_font = match &loaded[*font] {
                        Some(f) => f.clone(),
                        None if c.late => Font::parse(f.font.bytes().to_vec()).unwrap(),
                        None => f.font.clone(),
                    };
                    uses[*font] -= 1;
                    loaded[*font] = if uses[*font] > 0 { Some(the_font.clone()) } else { None };
                    let seg = ShapedSegment::naive_shape(text, the_font).unwrap();
                    page.show_text(&TextRun { segment: &seg, font_size: Length::new(*size), origin: point(*x, *y) })
                        .unwrap();
                }
            }
        }
    }
    doc
}

fn glyphs_for(f: &FontUse, text: &str) -> Vec<u16> {
    match &f.spec {
        Some(s) => text.chars().map(|c| s.glyph(c)).collect(),
        None => ShapedSegment_glyphs(f, text),
    }
}
#[allow(non_snake_case)]
fn ShapedSegment_glyphs(f: &FontUse, text: &str) -> Vec<u16> {
    if Arc::ptr_eq(&f.font, &BITSTREAM_VERA_SANS) {
        font::VERA.glyphs(text)
    } else {
        vec![] // not modelled; the caller compares lengths only
    }
}

// ---------------------------------------------------------------- C02

fn c02(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let avg = *g.pick(&[2usize, 1, 12]);
    let c = gen_case(g, avg, 60, 2);
    cx.desc(desc(&c));
    cx.nontrivial = c.pages.len() >= 1 && c.pages.iter().any(|p| !p.2.is_empty());
    let doc = build(&c);
    let bytes = doc.write_to_pdf_bytes();
    let pdf = parse_pdf(&bytes)?;
    let pages = pages_of(&pdf)?;
    if pages.len() > 5 {
        cx.label("more than 5 pages");
    }
    if c.pages.iter().flat_map(|p| &p.2).any(|o| matches!(o, Op::Text { .. })) {
        cx.label("with text");
    }
    ensure!(pages.len() == c.pages.len(), "page-count", "{} pages added, {} in the file", c.pages.len(), pages.len());
    structure_rules(&pdf)?;
    Ok(())
}

/// Documents with a great many pages, operations, opacities or fonts
fn c02_large(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let kind = g.us(0, 4);
    let vera = || FontUse { font: BITSTREAM_VERA_SANS.clone(), spec: None };
    let mut c = Case { fonts: vec![vera()], pages: vec![], late: g.chance(30) };
    let size = |g: &mut G| (g.int(1, 8000) as f32 / 8., g.int(1, 8000) as f32 / 8.);
    match kind {
        0 => {
            // pages
            for i in 0..g.us(100, 3000) {
                let (w, h) = size(g);
                let ops = if i % 7 == 3 { vec![Op::Rect(i as f32, 1., 2., 3.)] } else { vec![] };
                c.pages.push((w, h, ops))
            }
        }
        1 => {
            // operations on one page
            let (w, h) = size(g);
            let mut ops = vec![];
            for i in 0..g.us(1000, 30_000) {
                ops.push(match i % 3 {
                    0 => Op::Color((i % 256) as f32 / 255., 0.5, 0., 1.),
                    _ => Op::Rect(i as f32, i as f32 / 8., 10., 10.),
                })
            }
            c.pages.push((w, h, ops))
        }
        2 => {
            // opacities
            let n = g.us(100, 3000);
            let step = *g.pick(&[1usize, 7, 20]);
            let (w, h) = size(g);
            let mut ops = vec![];
            for i in 0..n {
                ops.push(Op::Color(0., 0., 0., (i * step + 1) as f32 / 65535.));
                ops.push(Op::Rect(i as f32, 0., 1., 1.));
                if i % 100 == 99 {
                    c.pages.push((w, h, std::mem::take(&mut ops)))
                }
            }
            c.pages.push((w, h, ops))
        }
        3 => {
            // fonts
            let spec = font::gen_simple(g);
            let n = g.us(20, 300);
            let (w, h) = size(g);
            for _ in 0..n {
                c.fonts.push(FontUse { font: Font::parse(spec.build()).unwrap(), spec: Some(spec.clone()) })
            }
            let mut ops = vec![];
            for _ in 0..2 * n {
                let font = g.us(0, n);
                ops.push(Op::Text { font, text: "abc".into(), size: 10., x: font as f32, y: 1. })
            }
            c.pages.push((w, h, ops))
        }
        _ => {
            // one long text, and a large file
            let (w, h) = size(g);
            let n = g.us(1000, 200_000);
            let text: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
            c.pages.push((w, h, vec![Op::Text { font: 0, text, size: 1., x: 0., y: 0. }]));
            c.pages.push((w, h, vec![Op::Rect(1., 2., 3., 4.)]));
        }
    }
    cx.desc(format!("kind {}: {} pages, {} operations, {} fonts", kind, c.pages.len(), c.pages.iter().map(|p| p.2.len()).sum::<usize>(), c.fonts.len()));
    cx.label(["pages", "operations", "opacities", "fonts", "text"][kind]);
    cx.nontrivial = true;
    let bytes = build(&c).write_to_pdf_bytes();
    let pdf = parse_pdf(&bytes)?;
    let pages = pages_of(&pdf)?;
    structure_rules(&pdf)?;
    check_fidelity(&c, &pages, &mut Cx::default())
}

/// File-level rules that do not depend on what was drawn.
pub fn structure_rules(pdf: &Pdf) -> Result<(), Fail> {
    // page dictionaries
    for (id, res) in pdf.page_objs().map_err(|e| Fail { sig: "malformed-pdf".into(), msg: e })? {
        let o = &pdf.objs[&id].value;
        ensure!(o.get("Contents").is_some(), "page-dict", "page {} without Contents", id);
        ensure!(res.is_some(), "page-dict", "page {} has no Resources", id);
    }
    let info = pdf.trailer.get("Info").ok_or(Fail { sig: "info".into(), msg: "no Info".into() })?;
    match pdf.get(info, "Producer") {
        Some(Obj::Str(s)) if s.starts_with(b"Victor") => {}
        o => return fail("info", format!("Producer is {:?}", o)),
    }
    // every object is reachable or at least well formed (checked by the parser); streams have no
    // stray filter entries
    for (id, o) in &pdf.objs {
        if o.stream.is_some() {
            ensure!(matches!(o.value, Obj::Dict(_)), "stream-dict", "object {} stream without dictionary", id);
        }
    }
    Ok(())
}

pub fn structure() -> Prop {
    Prop {
        id: "C02",
        rule: "random documents: 0-60 pages, each with 0-60 drawing operations (colours, rectangles, text in Vera, repository fonts and generated TrueType fonts), finite f32 geometry including magnitudes whose shortest float form has an exponent, PostScript names with any ASCII character but NUL (delimiters and white space included) (`documents`), or thousands of pages, operations or opacities, hundreds of fonts, or a long text (`large`); non-trivial = at least one page with at least one operation",
        assumptions: &["reader is an independent strict implementation of ISO 32000-1 file structure and the operators Victor may use"],
        parts: vec![part("documents", 45_000, 120_000, c02), part("large", 300, 2_000, c02_large)],
    }
}

// ---------------------------------------------------------------- C03

fn c03(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let c = gen_case(g, 2, 8, 2);
    cx.desc(desc(&c));
    let doc = build(&c);
    let bytes = doc.write_to_pdf_bytes();
    let pdf = parse_pdf(&bytes)?;
    let pages = pages_of(&pdf)?;
    check_fidelity(&c, &pages, cx)
}

fn check_fidelity(c: &Case, pages: &[crate::pdfp::PageOut], cx: &mut Cx) -> Result<(), Fail> {
    ensure!(pages.len() == c.pages.len(), "page-count", "{} pages added, {} in the file", c.pages.len(), pages.len());
    for (pi, ((w, h, ops), page)) in c.pages.iter().zip(pages).enumerate() {
        ensure!(
            close(page.width, *w as f64, 1e-6, 0.) && close(page.height, *h as f64, 1e-6, 0.),
            "page-size",
            "page {}: size {}x{} given, {}x{} in the file",
            pi, w, h, page.width, page.height
        );
        let mut state = ([0.0f64; 3], 1.0f64);
        let mut items = page.items.iter();
        let mut painted = 0;
        let mut changed_after_paint = false;
        for (oi, o) in ops.iter().enumerate() {
            match o {
                Op::Color(r, g, b, a) => {
                    state = ([*r as f64, *g as f64, *b as f64], (*a as f64).max(0.).min(1.));
                    if painted > 0 {
                        changed_after_paint = true
                    }
                }
                Op::Rect(x, y, w, h) => {
                    painted += 1;
                    let it = items.next().ok_or(Fail { sig: "missing-item".into(), msg: format!("page {} op {}: not in the file", pi, oi) })?;
                    match it {
                        Item::Rect { x: ix, y: iy, w: iw, h: ih, rgb, alpha } => {
                            let (x, y, w, h) = (*x as f64, *y as f64, *w as f64, *h as f64);
                            let e = 2e-6;
                            let ok = close(*ix, x, e, 0.) && close(*iy, y, e, 0.)
                                && close(*iw, w, e, e * x.abs().max(ix.abs()))
                                && close(*ih, h, e, e * y.abs().max(iy.abs()));
                            ensure!(ok, "rect-geometry", "page {} op {} {:?}: {}", pi, oi, o, show_item(it));
                            check_state(pi, oi, state, *rgb, *alpha)?;
                        }
                        _ => return fail("item-kind", format!("page {} op {} {:?}: {}", pi, oi, o, show_item(it))),
                    }
                }
                Op::Text { font, text, size, x, y } => {
                    painted += 1;
                    let it = items.next().ok_or(Fail { sig: "missing-item".into(), msg: format!("page {} op {}: not in the file", pi, oi) })?;
                    match it {
                        Item::Text { glyphs, x: ix, y: iy, size: isz, rgb, alpha, .. } => {
                            let e = 2e-6;
                            let ok = close(*ix, *x as f64, e, 0.) && close(*iy, *y as f64, e, 0.) && close(*isz, *size as f64, e, 0.);
                            ensure!(ok, "text-geometry", "page {} op {} {:?}: {}", pi, oi, o, show_item(it));
                            check_state(pi, oi, state, *rgb, *alpha)?;
                            let f = &c.fonts[*font];
                            let want = glyphs_for(f, text);
                            if want.is_empty() {
                                ensure!(glyphs.len() == text.chars().count(), "glyph-count", "page {} op {} {:?}: {}", pi, oi, o, show_item(it));
                            } else {
                                ensure!(*glyphs == want, "glyphs", "page {} op {} {:?}: wanted {:?}, {}", pi, oi, o, want, show_item(it));
                            }
                        }
                        _ => return fail("item-kind", format!("page {} op {} {:?}: {}", pi, oi, o, show_item(it))),
                    }
                }
            }
        }
        if let Some(x) = items.next() {
            return fail("extra-item", format!("page {}: something not asked for is painted: {}", pi, show_item(x)));
        }
        if painted >= 2 && changed_after_paint {
            cx.nontrivial = true;
        }
        if pi > 0 && painted > 0 {
            cx.label("painting on a later page");
        }
    }
    Ok(())
}

fn check_state(pi: usize, oi: usize, state: ([f64; 3], f64), rgb: [f64; 3], alpha: f64) -> Result<(), Fail> {
    let ok = (0..3).all(|i| (state.0[i] - rgb[i]).abs() < 2e-6);
    ensure!(ok, "color", "page {} op {}: current colour {:?}, painted with {:?}", pi, oi, state.0, rgb);
    ensure!(
        (state.1 - alpha).abs() < 2.1 / 65535.,
        "alpha",
        "page {} op {}: current opacity {}, painted with {}",
        pi, oi, state.1, alpha
    );
    Ok(())
}

/// colour-heavy histories without text (cheap, so many more of them)
fn c03_color(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let c = gen_case(g, 3, 10, 0);
    cx.desc(desc(&c));
    let bytes = build(&c).write_to_pdf_bytes();
    let pdf = parse_pdf(&bytes)?;
    let pages = pages_of(&pdf)?;
    check_fidelity(&c, &pages, cx)
}

pub fn fidelity() -> Prop {
    Prop {
        id: "C03",
        rule: "random drawing histories over several pages; the display list read back from the PDF is compared item by item with the list of operations; non-trivial = a page with at least two painting operations and a colour change between them",
        assumptions: &["colours are compared within 2e-6, opacities within 2/65535 (Victor shares states that close), geometry within a relative 2e-6"],
        parts: vec![part("mixed", 45_000, 120_000, c03), part("colour histories", 250_000, 1_000_000, c03_color)],
    }
}

// ---------------------------------------------------------------- C04

pub struct Embedded {
    pub bytes: Vec<u8>,
    pub base_font: Vec<u8>,
    pub widths: BTreeMap<u16, f64>,
    pub to_unicode: BTreeSet<(u16, Vec<u16>)>,
    pub descriptor: BTreeMap<String, Vec<f64>>,
    pub file_obj: u32,
}

fn efail<T>(m: String) -> Result<T, Fail> {
    fail("font-dict", m)
}

pub fn read_embedded(pdf: &Pdf, f: &Obj) -> Result<Embedded, Fail> {
    let name = |o: &Obj, k: &str| -> Option<Vec<u8>> { pdf.get(o, k).and_then(|o| o.name().map(|n| n.to_vec())) };
    if name(f, "Type") != Some(b"Font".to_vec()) || name(f, "Subtype") != Some(b"Type0".to_vec()) {
        return efail(format!("font dictionary {:?}", f));
    }
    if name(f, "Encoding") != Some(b"Identity-H".to_vec()) {
        return efail("Encoding is not Identity-H".into());
    }
    let base_font = match name(f, "BaseFont") {
        Some(b) => b,
        None => return efail("no BaseFont".into()),
    };
    let d = match pdf.get(f, "DescendantFonts").and_then(Obj::arr) {
        Some([d]) => pdf.deref(d),
        _ => return efail("DescendantFonts".into()),
    };
    if name(d, "Type") != Some(b"Font".to_vec()) || name(d, "Subtype") != Some(b"CIDFontType2".to_vec()) {
        return efail("descendant font type".into());
    }
    if name(d, "BaseFont").as_ref() != Some(&base_font) {
        return efail("descendant BaseFont differs".into());
    }
    match pdf.get(d, "CIDSystemInfo") {
        Some(si) => {
            let s = |k: &str| match pdf.get(si, k) {
                Some(Obj::Str(s)) => s.clone(),
                _ => vec![],
            };
            if s("Registry") != b"Adobe" || s("Ordering") != b"Identity" || pdf.get(si, "Supplement").and_then(Obj::int) != Some(0) {
                return efail("CIDSystemInfo".into());
            }
        }
        None => return efail("no CIDSystemInfo".into()),
    }
    match pdf.get(d, "CIDToGIDMap") {
        None => {}
        Some(Obj::Name(n)) if n == b"Identity" => {}
        _ => return efail("CIDToGIDMap".into()),
    }
    // W
    let mut widths = BTreeMap::new();
    let dw = pdf.get(d, "DW").and_then(Obj::num).unwrap_or(1000.);
    let _ = dw;
    if let Some(w) = pdf.get(d, "W").and_then(Obj::arr) {
        let mut i = 0;
        while i < w.len() {
            let first = match w[i].int() {
                Some(f) if (0..=65535).contains(&f) => f as u32,
                _ => return efail("W array".into()),
            };
            match w.get(i + 1).map(|o| pdf.deref(o)) {
                Some(Obj::Arr(a)) => {
                    for (k, x) in a.iter().enumerate() {
                        let v = match pdf.deref(x).num() {
                            Some(v) => v,
                            None => return efail("W array".into()),
                        };
                        if first as usize + k > 0xffff {
                            return efail("W array longer than the CID space".into());
                        }
                        if widths.insert((first as usize + k) as u16, v).is_some() {
                            return efail("W assigns a width twice".into());
                        }
                    }
                    i += 2;
                }
                Some(o) => {
                    let (last, v) = match (o.int(), w.get(i + 2).and_then(Obj::num)) {
                        (Some(l), Some(v)) => (l, v),
                        _ => return efail("W array".into()),
                    };
                    for c in first..=last as u32 {
                        widths.insert(c as u16, v);
                    }
                    i += 3;
                }
                None => return efail("W array".into()),
            }
        }
    }
    let fd = match pdf.get(d, "FontDescriptor") {
        Some(fd) => fd,
        None => return efail("no FontDescriptor".into()),
    };
    if name(fd, "Type") != Some(b"FontDescriptor".to_vec()) || name(fd, "FontName").as_ref() != Some(&base_font) {
        return efail("FontDescriptor type or name".into());
    }
    let mut descriptor = BTreeMap::new();
    for k in &["Ascent", "Descent", "CapHeight", "ItalicAngle", "Flags", "StemV"] {
        match pdf.get(fd, k).and_then(Obj::num) {
            Some(v) => {
                descriptor.insert(k.to_string(), vec![v]);
            }
            None => return efail(format!("FontDescriptor has no {}", k)),
        }
    }
    match pdf.get(fd, "FontBBox").and_then(Obj::arr) {
        Some(a) if a.len() == 4 && a.iter().all(|x| x.num().is_some()) => {
            descriptor.insert("FontBBox".into(), a.iter().map(|x| x.num().unwrap()).collect());
        }
        _ => return efail("FontBBox".into()),
    }
    let ff_ref = match fd.get("FontFile2") {
        Some(r @ Obj::Ref(_)) => r,
        _ => return efail("FontFile2".into()),
    };
    let bytes = pdf.stream(ff_ref).map_err(|e| Fail { sig: "font-dict".into(), msg: e })?.to_vec();
    let l1 = pdf.get(ff_ref, "Length1").and_then(Obj::int);
    if l1 != Some(bytes.len() as i64) {
        return efail(format!("Length1 {:?} but {} bytes", l1, bytes.len()));
    }
    let file_obj = match ff_ref {
        Obj::Ref(r) => *r,
        _ => 0,
    };
    // ToUnicode
    let tu = match f.get("ToUnicode") {
        Some(r @ Obj::Ref(_)) => pdf.stream(r).map_err(|e| Fail { sig: "font-dict".into(), msg: e })?,
        _ => return efail("no ToUnicode".into()),
    };
    let to_unicode = parse_tounicode(tu).map_err(|e| Fail { sig: "tounicode-syntax".into(), msg: e })?;
    Ok(Embedded { bytes, base_font, widths, to_unicode, descriptor, file_obj })
}

fn parse_tounicode(b: &[u8]) -> Result<BTreeSet<(u16, Vec<u16>)>, String> {
    let s = std::str::from_utf8(b).map_err(|_| "ToUnicode is not ASCII")?;
    let mut out = BTreeSet::new();
    let toks: Vec<&str> = s.split_ascii_whitespace().collect();
    // a valid CMap program skeleton
    for need in &["begincmap", "endcmap", "begincodespacerange", "endcodespacerange"] {
        if toks.iter().filter(|t| *t == need).count() != 1 {
            return Err(format!("ToUnicode: {} must appear once", need));
        }
    }
    let cs = toks.iter().position(|t| *t == "begincodespacerange").unwrap();
    if !(toks.get(cs + 1).map_or(false, |t| t.eq_ignore_ascii_case("<0000>")) && toks.get(cs + 2).map_or(false, |t| t.eq_ignore_ascii_case("<ffff>"))) {
        return Err("ToUnicode: code space is not <0000> <ffff>".into());
    }
    let hex = |t: &str| -> Result<Vec<u16>, String> {
        let h = t
            .strip_prefix('<')
            .and_then(|t| t.strip_suffix('>'))
            .ok_or_else(|| format!("ToUnicode: bad hex string {:?}", t))?;
        if h.is_empty() || h.len() % 4 != 0 || !h.bytes().all(|c| c.is_ascii_hexdigit()) {
            return Err(format!("ToUnicode: bad hex string {:?}", t));
        }
        (0..h.len() / 4)
            .map(|i| u16::from_str_radix(&h[4 * i..4 * i + 4], 16).map_err(|e| e.to_string()))
            .collect()
    };
    let mut i = 0;
    while i < toks.len() {
        if toks[i] == "beginbfchar" {
            let n: usize = toks.get(i.wrapping_sub(1)).and_then(|t| t.parse().ok()).ok_or("beginbfchar without count")?;
            if n == 0 || n > 100 {
                return Err(format!("{} entries in a bfchar block", n));
            }
            for k in 0..n {
                let code = hex(toks.get(i + 1 + 2 * k).ok_or("truncated bfchar")?)?;
                let dst = hex(toks.get(i + 2 + 2 * k).ok_or("truncated bfchar")?)?;
                if code.len() != 1 {
                    return Err("bfchar code is not 2 bytes".into());
                }
                out.insert((code[0], dst));
            }
            i += 1 + 2 * n;
            if toks.get(i) != Some(&"endbfchar") {
                return Err("bfchar count does not match the entries".into());
            }
        } else if toks[i] == "beginbfrange" {
            return Err("bfrange is not interpreted by this reader".into());
        }
        i += 1;
    }
    Ok(out)
}

pub fn unicode_pairs(all: &BTreeMap<char, u16>) -> BTreeSet<(u16, Vec<u16>)> {
    all.iter()
        .map(|(c, g)| {
            let mut b = [0u16; 2];
            (*g, c.encode_utf16(&mut b).to_vec())
        })
        .collect()
}

fn c04(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let mut c = gen_case(g, 2, 6, 6);
    if c.pages.is_empty() {
        c.pages.push((100., 100., vec![]));
    }
    cx.desc(desc(&c));
    let bytes = build(&c).write_to_pdf_bytes();
    let pdf = parse_pdf(&bytes)?;
    let pages = pages_of(&pdf)?;
    let fonts = pdf.fonts().map_err(|e| Fail { sig: "malformed-pdf".into(), msg: e })?;
    // which resource name does each used font have?
    let mut used: BTreeMap<usize, BTreeSet<String>> = BTreeMap::new();
    for ((_, _, ops), page) in c.pages.iter().zip(&pages) {
        let texts = ops.iter().filter_map(|o| match o {
            Op::Text { font, .. } => Some(*font),
            _ => None,
        });
        let items = page.items.iter().filter_map(|i| match i {
            Item::Text { font, .. } => Some(font.clone()),
            _ => None,
        });
        for (f, name) in texts.zip(items) {
            used.entry(f).or_default().insert(name);
        }
    }
    let mut names = BTreeSet::new();
    for (f, ns) in &used {
        ensure!(ns.len() == 1, "font-embedded-once", "font {} is used under {:?}", f, ns);
        let n = ns.iter().next().unwrap().clone();
        ensure!(names.insert(n.clone()), "font-identity", "two fonts share resource {}", n);
    }
    if used.len() >= 2 {
        cx.label("two fonts or more");
    }
    let ff_count = pdf.objs.values().filter(|o| o.value.get("Length1").is_some()).count();
    ensure!(ff_count == used.len(), "font-embedded-once", "{} fonts used, {} font files embedded", used.len(), ff_count);
    let mut seen_files = BTreeSet::new();
    for (fi, ns) in &used {
        let f = &c.fonts[*fi];
        let fd = fonts[ns.iter().next().unwrap()];
        let e = read_embedded(&pdf, fd)?;
        ensure!(e.bytes == f.font.bytes(), "font-bytes", "font {}: embedded file differs from the font's bytes", fi);
        ensure!(seen_files.insert(e.file_obj), "font-identity", "two fonts share a font file");
        if let Some(spec) = &f.spec {
            cx.nontrivial = true;
            ensure!(e.bytes == spec.build(), "font-bytes", "font {}: embedded file differs from the file given", fi);
            check_embedded(&e, spec)?;
        } else if Arc::ptr_eq(&f.font, &BITSTREAM_VERA_SANS) {
            ensure!(e.to_unicode == *VERA_PAIRS, "tounicode", "Vera: ToUnicode differs from the font's character map");
            for (gid, w) in font::VERA.advances.iter().enumerate() {
                let got = e.widths.get(&(gid as u16)).cloned();
                ensure!(got.map_or(false, |x| (x - w * 1000.).abs() < 1.01), "widths", "Vera glyph {}: W {:?}, advance {}", gid, got, w);
            }
        }
    }
    Ok(())
}

lazy_static::lazy_static! {
    static ref VERA_PAIRS: BTreeSet<(u16, Vec<u16>)> = unicode_pairs(&font::VERA.map);
}

pub fn check_embedded(e: &Embedded, spec: &Spec) -> Result<(), Fail> {
    let want = spec.ps_name.clone().unwrap().into_bytes();
    ensure!(e.base_font == want, "font-name", "PostScript name {:?} in the font, {:?} in the PDF", spec.ps_name, String::from_utf8_lossy(&e.base_font));
    ensure!(e.widths.len() == spec.glyph_count as usize, "widths", "{} widths for {} glyphs", e.widths.len(), spec.glyph_count);
    for gid in 0..spec.glyph_count {
        let w = spec.advance(gid).unwrap() * 1000.;
        let got = e.widths[&gid];
        ensure!((got - w).abs() < 1.01 + 1e-6 * w, "widths", "glyph {}: W {}, advance {}/1000 em", gid, got, w);
    }
    let em = |v: i16| v as f64 * 1000. / spec.upem as f64;
    let near = |a: f64, b: f64| (a - b).abs() < 1.01 + 1e-6 * b.abs();
    let bb = &e.descriptor["FontBBox"];
    for i in 0..4 {
        ensure!(near(bb[i], em(spec.bbox[i])), "bbox", "FontBBox {:?} for {:?}/{}", bb, spec.bbox, spec.upem);
    }
    ensure!(near(e.descriptor["Ascent"][0], em(spec.ascender)), "ascent", "Ascent {:?}", e.descriptor["Ascent"]);
    ensure!(near(e.descriptor["Descent"][0], em(spec.descender)), "descent", "Descent {:?}", e.descriptor["Descent"]);
    let want = unicode_pairs(&spec.all());
    if e.to_unicode != want {
        let miss: Vec<_> = want.difference(&e.to_unicode).take(3).collect();
        let extra: Vec<_> = e.to_unicode.difference(&want).take(3).collect();
        return fail("tounicode", format!("ToUnicode: missing {:?}, unexpected {:?}", miss, extra));
    }
    Ok(())
}

/// the text a PDF reader extracts is the text that was drawn
fn c04_extract(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let pool: Vec<char> = "abcdefgxyzABCXYZ0123456789éàÊßñ€æ".chars().collect();
    let pages = g.list(1, 2, 3, |g| g.list(1, 3, 6, |g| g.list(1, 6, 20, |g| *g.pick(&pool)).into_iter().collect::<String>()));
    cx.desc(format!("{:?}", pages));
    cx.nontrivial = pages.iter().any(|p| p.iter().any(|l| l.len() > 1));
    let mut doc = Document::new();
    for lines in &pages {
        let mut p = doc.add_page(Size::new(800., 400.));
        for (i, l) in lines.iter().enumerate() {
            let seg = ShapedSegment::naive_shape(l, BITSTREAM_VERA_SANS.clone()).unwrap();
            p.show_text(&TextRun { segment: &seg, font_size: Length::new(16.), origin: point(20., 40. + 50. * i as f32) }).unwrap();
        }
    }
    let bytes = doc.write_to_pdf_bytes();
    let d = lester::PdfDocument::from_bytes(&bytes).map_err(|_| Fail { sig: "poppler".into(), msg: "poppler cannot read the document".into() })?;
    let texts: Vec<String> = d.pages().map(|p| p.text().to_str().unwrap().to_owned()).collect();
    let want: Vec<String> = pages.iter().map(|l| l.join("\n")).collect();
    ensure!(texts == want, "extracted-text", "drawn {:?}, extracted {:?}", want, texts);
    Ok(())
}

pub fn embedding() -> Prop {
    Prop {
        id: "C04",
        rule: "random documents that use several fonts (Vera, repository fonts, generated TrueType fonts) in several places; the font dictionaries, embedded files, widths, ToUnicode maps and extracted text are compared with the fonts' meaning; non-trivial = a generated font is used / a line longer than one character",
        assumptions: &["text extraction by the system poppler"],
        parts: vec![part("dictionaries", 15_000, 100_000, c04), part("extraction by poppler", 5_000, 40_000, c04_extract)],
    }
}
